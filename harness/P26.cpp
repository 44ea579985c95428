// P26: bit, power, mask, alignment, overlap, fill, size-conversion and padding helpers against their definitions
#include "huge.hpp"
#include "pbt.hpp"
#include <cmath>
#include <c4/memory_util.hpp>
#include <c4/szconv.hpp>
#include <c4/char_traits.hpp>
#include <c4/types.hpp>
#include <limits>
using namespace c4; using namespace pbt;
template<class I> static unsigned ref_lsb(I v) { unsigned b = 0; while(!((v >> b) & 1)) ++b; return b; }
template<class I> static unsigned ref_msb(I v) { unsigned b = 0; for(unsigned i = 0; i < sizeof(I) * 8; ++i) if((v >> i) & 1) b = i; return b; }
template<class I> static void bits_of(I v)
{
    PBT_CHECKM(lsb(v) == ref_lsb(v), "lsb of %llx (%zu bytes) is %u, expected %u", (unsigned long long)v, sizeof(I), lsb(v), ref_lsb(v));
    PBT_CHECKM(msb(v) == ref_msb(v), "msb of %llx (%zu bytes) is %u, expected %u", (unsigned long long)v, sizeof(I), msb(v), ref_msb(v));
}
template<class I> static I gen_u(Src &s)
{
    unsigned w = sizeof(I) * 8; I v;
    switch(s.draw(6)) { case 0: v = (I)s.draw(300); break; case 1: v = (I)(I(1) << s.draw(w)); break; case 2: v = (I)((I(1) << s.draw(w)) | (I(1) << s.draw(w))); break; case 3: v = (I)(I(~I(0)) >> s.draw(w)); break; case 4: v = (I)(I(~I(0)) << s.draw(w)); break; default: v = (I)s.u64(); }
    return v ? v : I(1);
}
template<class I> static void bits_go(Src &s) { I v = gen_u<I>(s); s.note(strf("%zu bytes: %llx", sizeof(I), (unsigned long long)v)); s.nontrivial(strf("%zu %llx", sizeof(I), (unsigned long long)v)); bits_of<I>(v); }
PBT_TEST(significant_bits, 3) { switch(s.draw(7)) { case 0: bits_go<uint8_t>(s); break; case 1: bits_go<uint16_t>(s); break; case 2: bits_go<uint32_t>(s); break; case 3: bits_go<uint64_t>(s); break; case 4: bits_go<unsigned long long>(s); break; case 5: bits_go<unsigned char>(s); break; default: bits_go<size_t>(s); } }
PBT_ENUM(significant_bits_16, 65535) { size_t k = 1 + s.draw(65535); s.nontrivial(k); if(k < 256) bits_of<uint8_t>((uint8_t)k); bits_of<uint16_t>((uint16_t)k); bits_of<uint32_t>((uint32_t)k); bits_of<uint32_t>((uint32_t)k << 16); bits_of<uint64_t>((uint64_t)k << 48); bits_of<uint64_t>((uint64_t)k << 24); }

// masks: every [first,last) of every width
template<class I> static uint64_t ref_mask(unsigned f, unsigned l) { uint64_t r = 0; for(unsigned i = f; i < l; ++i) r |= uint64_t(1) << i; return (uint64_t)(typename std::make_unsigned<I>::type)r; }
template<class I> static void mask_of(unsigned f, unsigned l) { if(l > sizeof(I) * 8 - std::is_signed<I>::value) return; uint64_t got = (uint64_t)(typename std::make_unsigned<I>::type)contiguous_mask<I>((I)f, (I)l); PBT_CHECKM(got == ref_mask<I>(f, l), "mask of bits [%u,%u) of %zu bytes is %llx, expected %llx", f, l, sizeof(I), (unsigned long long)got, (unsigned long long)ref_mask<I>(f, l)); }
PBT_ENUM(masks, 65 * 65) { size_t k = s.draw(65 * 65); unsigned f = (unsigned)(k / 65), l = (unsigned)(k % 65); s.nontrivial(k); mask_of<uint8_t>(f, l); mask_of<uint16_t>(f, l); mask_of<uint32_t>(f, l); mask_of<uint64_t>(f, l); mask_of<int8_t>(f, l); mask_of<int16_t>(f, l); mask_of<int32_t>(f, l); mask_of<int64_t>(f, l); mask_of<size_t>(f, l); }

// compile-time forms: tables instantiated for many constants
template<class I> struct Row { I v; unsigned l, m, lc, mc; uint64_t lo, hi; unsigned w; };
template<class I, unsigned K> struct Const { static constexpr unsigned W = sizeof(I) * 8; static constexpr I value = K < W ? I(I(1) << (K % W)) : K < 2 * W ? I(I(~I(0)) >> (K % W)) : K < 3 * W ? I(I(~I(0)) << (K % W)) : I((K * 0x9E3779B97F4A7C15ull ^ (uint64_t(K) << 37)) | (I(1) << (K % W))); };
template<class I, unsigned K, unsigned N> struct Fill
{
    static void go(std::vector<Row<I>> &o)
    {
        constexpr I v = Const<I, K>::value; Row<I> r; r.v = v; r.l = lsb11<I, v>::value; r.m = msb11<I, v>::value;
        #if __cplusplus >= 201402L && defined(NDEBUG)
        constexpr unsigned lc = lsb(v), mc = msb(v); r.lc = lc; r.mc = mc;
        #else
        r.lc = r.l; r.mc = r.m;
        #endif
        constexpr unsigned W = sizeof(I) * 8; r.w = K % W; r.lo = (uint64_t)contiguous_mask11<I, I(0), I(K % W)>::value; r.hi = (uint64_t)contiguous_mask11<I, I(K % W), I(W)>::value;
        o.push_back(r); Fill<I, K + 1, N>::go(o);
    }
};
template<class I, unsigned N> struct Fill<I, N, N> { static void go(std::vector<Row<I>> &) {} };
template<class I> static void ct(Src &s)
{
    static std::vector<Row<I>> *t = nullptr; if(!t) { t = new std::vector<Row<I>>(); Fill<I, 0, sizeof(I) * 8 * 3 + 60>::go(*t); }
    Row<I> const& r = (*t)[s.draw(t->size())]; s.nontrivial(strf("ct %zu %llx", sizeof(I), (unsigned long long)r.v)); s.note(strf("constant %llx of %zu bytes", (unsigned long long)r.v, sizeof(I)));
    PBT_CHECKM(r.l == ref_lsb(r.v) && r.lc == r.l, "compile-time lsb of %llx is %u/%u", (unsigned long long)r.v, r.l, r.lc); PBT_CHECKM(r.m == ref_msb(r.v) && r.mc == r.m, "compile-time msb of %llx is %u/%u", (unsigned long long)r.v, r.m, r.mc);
    PBT_CHECKM(r.lo == ref_mask<I>(0, r.w) && r.hi == ref_mask<I>(r.w, sizeof(I) * 8), "compile-time masks at bit %u of %zu bytes: %llx %llx", r.w, sizeof(I), (unsigned long long)r.lo, (unsigned long long)r.hi);
}
PBT_TEST(compile_time_forms, 1) { switch(s.draw(4)) { case 0: ct<uint8_t>(s); break; case 1: ct<uint16_t>(s); break; case 2: ct<uint32_t>(s); break; default: ct<uint64_t>(s); } }
static_assert(contiguous_mask11<uint32_t, 3, 3>::value == 0, ""); static_assert(contiguous_mask11<int, 1, 4>::value == 14, "");

// powers: exact whenever the result (and, for negative exponents, the truncated division) is representable
template<class B, class E> static void pow_go(Src &s)
{
    typedef __int128 W; B b; E e; W r = 1;
    switch(s.draw(5)) { case 0: b = (B)s.irange(-3, 12); break; case 1: b = (B)s.range(0, 300); break; case 2: b = s.coin() ? std::numeric_limits<B>::max() : std::numeric_limits<B>::min(); break; default: b = (B)s.u64(); }
    bool neg = std::is_signed<E>::value && s.chance(1, 4);
    if(neg) { if(b == 0) b = 1; if(b == (B)-1 && std::is_signed<B>::value && 0) b = 2; e = s.coin() ? (E)s.irange(-20, -1) : sizeof(E) <= 2 ? std::numeric_limits<E>::min() : (E)s.irange(-3000, -1); if(b == 1) r = 1; else if(std::is_signed<B>::value && b == (B)-1) r = ((long long)e % 2) ? -1 : 1; else r = 0; }
    else { E n = 0; size_t want = s.draw(70); while((size_t)n < want && n < std::numeric_limits<E>::max()) { W nr = r * (W)b; if(nr > (W)std::numeric_limits<B>::max() || nr < (W)std::numeric_limits<B>::min()) break; r = nr; ++n; } e = n; }
    s.note(strf("(%lld)^(%lld), %zu/%zu bytes", (long long)b, (long long)e, sizeof(B), sizeof(E))); s.nontrivial(strf("%zu %d %zu %lld %lld", sizeof(B), (int)std::is_signed<B>::value, sizeof(E), (long long)b, (long long)e));
    B got = ipow(b, e); PBT_CHECKM(got == (B)r, "ipow(%lld,%lld) is %lld, expected %lld", (long long)b, (long long)e, (long long)got, (long long)r);
}
template<class B> static void pow_e(Src &s) { switch(s.draw(6)) { case 0: pow_go<B, int>(s); break; case 1: pow_go<B, unsigned>(s); break; case 2: pow_go<B, int8_t>(s); break; case 3: pow_go<B, uint8_t>(s); break; case 4: pow_go<B, int64_t>(s); break; default: pow_go<B, size_t>(s); } }
PBT_TEST(powers, 3) { switch(s.draw(6)) { case 0: pow_e<int>(s); break; case 1: pow_e<uint64_t>(s); break; case 2: pow_e<int64_t>(s); break; case 3: pow_e<int8_t>(s); break; case 4: pow_e<uint8_t>(s); break; default: pow_e<unsigned>(s); } }
template<class B, B base, class E> static void fixed_go(Src &s)
{
    bool neg = std::is_signed<E>::value && s.chance(1, 4); __int128 r = 1; E e = 0;
    if(neg) { e = s.coin() ? (E)s.irange(-20, -1) : sizeof(E) == 1 ? std::numeric_limits<E>::min() : (E)-100; r = base == 1 ? 1 : base == (B)-1 ? ((long long)e % 2 ? -1 : 1) : 0; }
    else { size_t want = s.draw(70); while((size_t)e < want) { __int128 nr = r * (__int128)base; if(nr > (__int128)std::numeric_limits<B>::max() || nr < (__int128)std::numeric_limits<B>::min()) break; r = nr; ++e; } }
    s.note(strf("fixed base %lld exponent %lld", (long long)base, (long long)e)); s.nontrivial(strf("f %lld %lld %zu %zu", (long long)base, (long long)e, sizeof(B), sizeof(E)));
    B a = ipow<B, base>(e), b = ipow<B, int, (int)base>(e), c = ipow<B, int64_t, (int64_t)base>(e); PBT_CHECKM(a == (B)r && b == a && c == a, "ipow<%lld>(%lld) is %lld/%lld/%lld, expected %lld", (long long)base, (long long)e, (long long)a, (long long)b, (long long)c, (long long)r);
}
template<class B, class E> static void fixed_b(Src &s) { switch(s.draw(6)) { case 0: fixed_go<B, 1, E>(s); break; case 1: fixed_go<B, 2, E>(s); break; case 2: fixed_go<B, 3, E>(s); break; case 3: fixed_go<B, 10, E>(s); break; case 4: fixed_go<B, (B)(std::is_signed<B>::value ? -1 : 5), E>(s); break; default: fixed_go<B, (B)(std::is_signed<B>::value ? -3 : 7), E>(s); } }
PBT_TEST(powers_of_constants, 1) { switch(s.draw(6)) { case 0: fixed_b<int, int>(s); break; case 1: fixed_b<int64_t, int8_t>(s); break; case 2: fixed_b<uint64_t, unsigned>(s); break; case 3: fixed_b<uint32_t, uint8_t>(s); break; case 4: fixed_b<uint16_t, int>(s); break; default: fixed_b<int8_t, int>(s); } }
// real bases, where negative powers do not vanish: powers of two are exact
template<class B, class E> static void pow_real(Src &s)
{
    int k = (int)s.irange(-3, 3); int e = (int)s.irange(-30, 30); B b = (B)ldexp(1.0, k), want = (B)ldexp(1.0, k * e); if(s.coin()) { b = -b; if(e % 2) want = -want; } s.note(strf("(%g)^(%d)", (double)b, e)); s.nontrivial(strf("r %zu %g %d", sizeof(B), (double)b, e));
    PBT_CHECKM(ipow(b, (E)e) == want, "ipow(%g,%d) is %g, expected %g", (double)b, e, (double)ipow(b, (E)e), (double)want); if(e >= 0) PBT_CHECK(ipow(b, (unsigned)e) == want);
    B w2 = (B)ldexp(1.0, e), w4 = (B)ldexp(1.0, 2 * e); PBT_CHECKM((ipow<B, int, 2>((E)e)) == w2 && (ipow<B, long, 4>((E)e)) == w4 && (ipow<B, int, -1>((E)e)) == (e % 2 ? (B)-1 : (B)1), "2^%d is %g, 4^%d is %g", e, (double)(ipow<B, int, 2>((E)e)), e, (double)(ipow<B, long, 4>((E)e)));
    if(e >= 0) PBT_CHECK((ipow<B, int, 2>((unsigned)e)) == w2);
}
PBT_TEST(real_powers, 1) { switch(s.draw(3)) { case 0: pow_real<double, int>(s); break; case 1: pow_real<float, int8_t>(s); break; default: pow_real<double, int64_t>(s); } }
#if __cplusplus >= 201402L
static_assert(ipow(3, 4) == 81 && ipow<int, 2>(10) == 1024 && ipow<int, int, 2>(10u) == 1024 && ipow(2, -1) == 0 && ipow(-1, -3) == -1, ""); static_assert(contiguous_mask<unsigned>(2, 5) == 28, "");
#endif

// memory: overlap, fill, zero, alignment
PBT_TEST(overlap, 3)
{
    char mem[64]; size_t a = s.range(0, 40), b = s.range(0, 40), na = s.range(0, 20), nb = s.range(0, 20); bool want = std::max(a, b) < std::min(a + na, b + nb); s.note(strf("[%zu,%zu) and [%zu,%zu)", a, a + na, b, b + nb)); s.nontrivial(strf("%zu %zu %zu %zu", a, b, na, nb));
    PBT_CHECKM(mem_overlaps(mem + a, mem + b, na, nb) == want && mem_overlaps(mem + b, mem + a, nb, na) == want, "overlap of [%zu,%zu) and [%zu,%zu) reported as %d", a, a + na, b, b + nb, (int)!want);
}
PBT_TEST(repeat_pattern, 3)
{
    size_t n = s.coin() ? s.range(0, 5) : s.range(0, 200), k = s.coin() ? s.range(0, 9) : s.range(0, 300); std::string p = s.bytes(n); if(p.size() != n) p.resize(n, 'x'); std::string want; for(size_t i = 0; i < k; ++i) want += p; s.note(strf("%zu times %zu bytes", k, n)); if(n * k > 1) s.nontrivial(strf("%zu %zu ", n, k) + p);
    std::string pat = p; Buf o(want.size()); mem_repeat(o.ptr, pat.data(), n, k); PBT_CHECKM(std::string(o.ptr, want.size()) == want, "%zu repetitions of %s give %s", k, shown(p).c_str(), shown(std::string(o.ptr, want.size())).c_str()); o.check("mem_repeat"); PBT_CHECK(pat == p);
}
PBT_ENUM(repeat_small, 40 * 130) { size_t q = s.draw(40 * 130), n = q / 130, k = q % 130; s.nontrivial(q); std::string p, want; for(size_t i = 0; i < n; ++i) p += (char)('a' + i * 7 % 26); for(size_t i = 0; i < k; ++i) want += p; Buf o(want.size()); mem_repeat(o.ptr, p.data(), n, k); PBT_CHECKM(std::string(o.ptr, want.size()) == want, "%zu repetitions of %zu bytes", k, n); o.check("mem_repeat"); }
template<class T> static void zero_go(Src &s)
{
    size_t n = s.range(1, 20), a = s.range(0, n), k = s.range(0, n - a), op = s.draw(3); T buf[20]; memset((void*)buf, 0x5a, sizeof buf); size_t lo = a * sizeof(T), hi = lo + k * sizeof(T); s.nontrivial(strf("%zu %zu %zu %zu", sizeof(T), op, a, k)); s.note(strf("zero %zu elements of %zu bytes at %zu", k, sizeof(T), a));
    if(op == 0) mem_zero(buf + a, k); else if(op == 1) { hi = lo + k; mem_zero((void*)(buf + a), k); } else { if(a == n) return; hi = lo + sizeof(T); mem_zero(buf + a); }
    for(size_t i = 0; i < sizeof buf; ++i) PBT_CHECKM(((unsigned char*)buf)[i] == (i >= lo && i < hi ? 0 : 0x5a), "zero-fill %zu of [%zu,%zu): byte %zu is %x", op, lo, hi, i, ((unsigned char*)buf)[i]);
}
PBT_TEST(zero_fill, 1) { struct P3 { char c[3]; }; struct P24 { long x; char y; int z[3]; }; switch(s.draw(4)) { case 0: zero_go<char>(s); break; case 1: zero_go<uint32_t>(s); break; case 2: zero_go<P3>(s); break; default: zero_go<P24>(s); } }
template<class T> static void align_go(Src &s) { uintptr_t p = (uintptr_t)s.u64(); if(s.coin()) p = p >> s.draw(40) << s.draw(40); size_t al = size_t(1) << s.draw(s.coin() ? 12 : 40); s.note(strf("%llx on %zu", (unsigned long long)p, al)); s.nontrivial(strf("%llx %zu", (unsigned long long)p, al)); PBT_CHECKM(is_aligned((T*)p, al) == (p % al == 0), "is_aligned(%llx, %zu)", (unsigned long long)p, al); PBT_CHECKM(is_aligned((T*)p) == (p % alignof(T) == 0), "is_aligned(%llx), natural alignment %zu", (unsigned long long)p, alignof(T)); }
PBT_TEST(alignment, 1) { struct alignas(64) A64 { char c; }; struct P24 { short x; char y; }; switch(s.draw(4)) { case 0: align_go<char>(s); break; case 1: align_go<uint64_t>(s); break; case 2: align_go<P24>(s); break; default: align_go<A64>(s); } }
PBT_TEST(remainders, 1)
{
    size_t z = s.coin() ? s.draw(300) : (size_t)(s.u64() >> s.draw(64)), m = s.coin() ? 1 + s.draw(100) : 1 + (size_t)(s.u64() >> (1 + s.draw(62))); s.note(strf("%zu, %zu", z, m)); s.nontrivial(strf("%zu %zu", z, m));
    PBT_CHECKM(min_remainder(z, m) == (z < m ? m - z : 0), "min_remainder(%zu,%zu) is %zu", z, m, min_remainder(z, m)); size_t r = mult_remainder(z, m); PBT_CHECKM(r < m && (size_t)(((__int128)z + r) % m) == 0, "mult_remainder(%zu,%zu) is %zu", z, m, r);
}
template<size_t N> struct Sz { char c[N]; };
template<size_t N, size_t M> struct Pads { static void go(std::vector<size_t> &o) { o.push_back(N); o.push_back(M); o.push_back(sizeof(MinSized<Sz<N>, M>)); o.push_back(sizeof(MultSized<Sz<N>, M>)); o.push_back(sizeof(MinMultSized<Sz<N>, M, 16>)); o.push_back(sizeof(UbufSized<Sz<N>>)); Pads<N, M - 1>::go(o); } };
template<size_t N> struct Pads<N, 0> { static void go(std::vector<size_t> &) {} };
PBT_TEST(padded_sizes, 1)
{
    static std::vector<size_t> *t = nullptr; if(!t) { t = new std::vector<size_t>(); Pads<1, 20>::go(*t); Pads<3, 20>::go(*t); Pads<8, 20>::go(*t); Pads<17, 20>::go(*t); Pads<64, 70>::go(*t); Pads<65, 40>::go(*t); }
    size_t const* r = t->data() + 6 * s.draw(t->size() / 6); size_t n = r[0], m = r[1]; s.nontrivial(strf("pad %zu %zu", n, m)); PBT_CHECKM(r[2] == std::max(n, m), "MinSized<%zu,%zu> has %zu bytes", n, m, r[2]); PBT_CHECKM(r[3] == (n + m - 1) / m * m, "MultSized<%zu,%zu> has %zu bytes", n, m, r[3]); PBT_CHECKM(r[4] == (std::max(n, m) + 15) / 16 * 16, "MinMultSized<%zu,%zu,16> has %zu bytes", n, m, r[4]); PBT_CHECKM(r[5] == (std::max<size_t>(n, 64) + 15) / 16 * 16, "UbufSized<%zu> has %zu bytes", n, r[5]);
}
// sizes
template<class O, class I> static void sz_go(Src &s)
{
    typedef __int128 W; W imax = (W)std::numeric_limits<I>::max(), omax = (W)std::numeric_limits<O>::max(); bool narrow = imax > omax; bool claimed = is_narrower_size<O, I>::value; s.label("pair");
    PBT_CHECKM(claimed == narrow, "is_narrower_size<%d:%zu, %d:%zu> is %d", (int)std::is_signed<O>::value, sizeof(O), (int)std::is_signed<I>::value, sizeof(I), (int)claimed);
    W lim = std::min(imax, omax), v; switch(s.draw(4)) { case 0: v = (W)(s.u64() & 0x7fffffffffffffffull) % (lim + 1); break; case 1: v = lim - (W)s.draw(3); break; case 2: v = (W)s.draw(100); break; default: v = (W)1 << s.draw(64); if(v > lim) v = lim; } if(v < 0) v = 0; I in = (I)v; s.note(strf("%llu", (unsigned long long)in)); s.nontrivial(strf("%zu %zu %d %d %llu", sizeof(O), sizeof(I), (int)std::is_signed<O>::value, (int)std::is_signed<I>::value, (unsigned long long)in));
    O out = szconv<O>(in); PBT_CHECKM((W)out == v, "szconv of %llu gives %lld", (unsigned long long)in, (long long)out);
    #ifndef NDEBUG
    if(narrow) { W over; switch(s.draw(4)) { case 0: over = omax + 1; break; case 1: over = imax; break; case 2: over = omax + 1 + (W)s.draw(10); break; default: over = (W)1 << s.draw(64); } if(over > imax) over = imax; if(over <= omax) over = omax + 1; I bad = (I)over; s.note(strf("over %llu", (unsigned long long)bad)); PBT_CHECKM(raises([&]{ (void)szconv<O>(bad); }), "szconv of %llu into %zu bytes was not reported", (unsigned long long)bad, sizeof(O)); }
    #endif
}
template<class I> static void sz_in(Src &s) { switch(s.draw(8)) { case 0: sz_go<int8_t, I>(s); break; case 1: sz_go<uint8_t, I>(s); break; case 2: sz_go<int16_t, I>(s); break; case 3: sz_go<uint16_t, I>(s); break; case 4: sz_go<int32_t, I>(s); break; case 5: sz_go<uint32_t, I>(s); break; case 6: sz_go<int64_t, I>(s); break; default: sz_go<uint64_t, I>(s); } }
PBT_TEST(size_conversions, 2) { switch(s.draw(8)) { case 0: sz_in<int8_t>(s); break; case 1: sz_in<uint8_t>(s); break; case 2: sz_in<int16_t>(s); break; case 3: sz_in<uint16_t>(s); break; case 4: sz_in<int32_t>(s); break; case 5: sz_in<uint32_t>(s); break; case 6: sz_in<int64_t>(s); break; default: sz_in<uint64_t>(s); } }
// characters
template<class C> static void ws_go(Src &s, C const* const ref)
{
    typedef c4::char_traits<C> T; size_t n = T::num_whitespace_chars; PBT_CHECKM(n == 6, "%zu whitespace characters", n); C c = (C)(s.coin() ? s.draw(128) : ref[s.draw(6)]); s.nontrivial(strf("ws %d %zu", (int)c, sizeof(C))); s.note(strf("%d", (int)c)); bool want = false, in = false; for(int i = 0; i < 6; ++i) want = want || ref[i] == c; for(size_t i = 0; i < n; ++i) in = in || T::whitespace_chars[i] == c;
    PBT_CHECKM(c4::isspace(c) == want && in == want, "character %d: isspace %d, listed %d, expected %d", (int)c, (int)c4::isspace(c), (int)in, (int)want); PBT_CHECK(T::whitespace_chars[n] == C(0));
}
PBT_TEST(characters, 1)
{
    if(s.coin()) ws_go<char>(s, " \f\n\r\t\v"); else ws_go<wchar_t>(s, L" \f\n\r\t\v");
    size_t b = s.coin() ? s.draw(100) : (size_t)(s.u64() >> s.draw(64)); PBT_CHECKM((num_needed_chars<char, size_t>(b)) == b, "%zu bytes", b); size_t w = num_needed_chars<wchar_t, size_t>(b); PBT_CHECKM((__int128)w * sizeof(wchar_t) >= (__int128)b && (w == 0 || (__int128)(w - 1) * sizeof(wchar_t) < (__int128)b), "%zu wide characters for %zu bytes", w, b); unsigned b32 = (unsigned)s.u64(); PBT_CHECK((num_needed_chars<wchar_t, unsigned>(b32)) == b32 / 4 + (b32 % 4 != 0));
}
// pairs
struct E0 { }; struct E1 { }; struct Val { int v; }; struct NT { std::string s; };
template<class F, class S> static void pair_go(Src &s, F const& f, S const& g, bool (*ef)(F const&, F const&), bool (*eg)(S const&, S const&), size_t bound, bool fvals)
{
    (void)s; tight_pair<F, S> p(f, g); PBT_CHECK(ef(p.first(), f) && eg(p.second(), g)); tight_pair<F, S> const& c = p; PBT_CHECK(&c.first() == &p.first() && &c.second() == &p.second()); PBT_CHECKM(sizeof(p) <= bound, "pair of %zu and %zu bytes has %zu", sizeof(F), sizeof(S), sizeof(p)); tight_pair<F, S> q(p); PBT_CHECK(ef(q.first(), f) && eg(q.second(), g));
    alignas(64) char mem[sizeof(p) + 64]; memset(mem, 0x77, sizeof mem); tight_pair<F, S> *d = new ((void*)mem) tight_pair<F, S>(); if(fvals) PBT_CHECKM(ef(d->first(), F()) && eg(d->second(), S()), "a default pair is not value-initialized"); typedef tight_pair<F, S> TP; 
    F f2 = F(); S g2 = S(); d->first() = f2; d->second() = g; PBT_CHECK(ef(d->first(), f2) || std::is_empty<F>::value); PBT_CHECK(eg(d->second(), g)); d->second() = g2; d->first() = f; PBT_CHECK(ef(d->first(), f) && (eg(d->second(), g2))); d->~TP();
}
static bool same(Val const& a, Val const& b) { return a.v == b.v; } static bool same(NT const& a, NT const& b) { return a.s == b.s; } template<class T> static bool same(T const& a, T const& b) { return a == b; } static bool same(E0 const&, E0 const&) { return true; } static bool same(E1 const&, E1 const&) { return true; } template<class T> static bool eqf(T const& a, T const& b) { return same(a, b); }
template<class F, class S> static void pr(Src &s, F f, S g, size_t bound) { pair_go<F, S>(s, f, g, &eqf<F>, &eqf<S>, bound, true); }
PBT_TEST(pairs, 1)
{
    size_t k = s.draw(9); int x = (int)s.draw(1000) - 500; std::string t = s.str(30, "ab"); Val v; v.v = x; Val v2; v2.v = x + 7; NT n; n.s = t; NT n2; n2.s = t + "2"; s.nontrivial(strf("%zu %d ", k, x) + t); s.note(strf("pair kind %zu", k));
    switch(k) { case 0: pr(s, v, v2, 2 * sizeof(Val)); break; case 1: pr(s, n, n2, 2 * sizeof(NT)); break; case 2: pr(s, E0(), E0(), 1); break; case 3: pr(s, E0(), E1(), 1); break; case 4: pr(s, E0(), x, sizeof(int)); break; case 5: pr(s, x, E1(), sizeof(int)); break; case 6: pr(s, n, x, sizeof(NT) + 8); break; case 7: pr(s, E0(), n, sizeof(NT)); break; default: pr(s, (char)x, (long)x, 16); }
}
// sequences
template<class S> struct Seq; template<class T, T... I> struct Seq<integer_sequence<T, I...>> { static std::vector<uint64_t> get() { std::vector<uint64_t> v{(uint64_t)I...}; return v; } };
template<size_t N> struct Seqs { static void go(std::vector<std::vector<uint64_t>> &o) { Seqs<N - 1>::go(o); o.push_back(Seq<make_index_sequence<N>>::get()); } }; template<> struct Seqs<0> { static void go(std::vector<std::vector<uint64_t>> &o) { o.push_back(Seq<make_index_sequence<0>>::get()); } };
template<unsigned N> struct SeqsI { static void go(std::vector<std::vector<uint64_t>> &o) { SeqsI<N - 1>::go(o); o.push_back(Seq<make_integer_sequence<unsigned, N>>::get()); } }; template<> struct SeqsI<0> { static void go(std::vector<std::vector<uint64_t>> &o) { o.push_back(Seq<make_integer_sequence<unsigned, 0>>::get()); } };
PBT_TEST(index_sequences, 1)
{
    static std::vector<std::vector<uint64_t>> *t = nullptr, *u = nullptr; if(!t) { t = new std::vector<std::vector<uint64_t>>(); u = new std::vector<std::vector<uint64_t>>(); Seqs<140>::go(*t); SeqsI<40>::go(*u); }
    bool w = s.coin(); size_t n = s.draw(w ? 41 : 141); std::vector<uint64_t> const& v = w ? (*u)[n] : (*t)[n]; s.nontrivial(strf("seq %zu %d", n, (int)w)); PBT_CHECKM(v.size() == n, "a sequence of %zu has %zu elements", n, v.size()); for(size_t i = 0; i < n; ++i) PBT_CHECKM(v[i] == i, "element %zu of a sequence of %zu is %llu", i, n, (unsigned long long)v[i]); static_assert(index_sequence_for<int, char, long>::size() == 3, "");
}
// regions longer than 32 bits can count (only their addresses are used)
PBT_TEST(huge_overlap, 1)
{
    char *m = huge::region(); if(!m) { s.label("no large region"); return; } size_t R = size_t(1) << 33, a = huge::pos(s, R), b = huge::pos(s, R), na = std::min(R - a, huge::pos(s, R)), nb = std::min(R - b, huge::pos(s, R)); if(s.coin()) nb = 0, nb = std::min(R - b, (size_t)s.range(0, 40)); bool want = std::max(a, b) < std::min(a + na, b + nb); s.note(strf("[%zu,%zu) and [%zu,%zu)", a, a + na, b, b + nb)); s.nontrivial(strf("%zu %zu %zu %zu", a, b, na, nb));
    PBT_CHECKM(mem_overlaps(m + a, m + b, na, nb) == want && mem_overlaps(m + b, m + a, nb, na) == want, "overlap of [%zu,%zu) and [%zu,%zu) reported as %d", a, a + na, b, b + nb, (int)!want);
}
