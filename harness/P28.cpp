// P28: FNV-1a hashing, and the random engines against their published definitions
#include "pbt.hpp"
#include <c4/hash.hpp>
#include <c4/ext/rng/rng.hpp>
#include <sstream>
#include <memory>
using namespace pbt;
static uint64_t ref64(std::string const& s) { uint64_t h = 0xcbf29ce484222325ull; for(size_t i = 0; i < s.size(); ++i) { h ^= (unsigned char)s[i]; h *= 0x100000001b3ull; } return h; }
static uint32_t ref32(std::string const& s) { uint32_t h = 0x811c9dc5u; for(size_t i = 0; i < s.size(); ++i) { h ^= (unsigned char)s[i]; h *= 0x01000193u; } return h; }
PBT_TEST(hash, 4)
{
    std::string t = s.coin() ? s.str(40, nullptr) : s.str(12, "ab\xff\x80"); if(s.chance(1, 30)) { size_t k = s.range(1, 300); std::string u; for(size_t i = 0; i < k; ++i) u += t; t = u; } t = s.stretch(t); if(!t.empty()) s.nontrivial(t); s.note(shown(t.substr(0, 60)));
    Buf b(t, (char)s.draw(256)); size_t h = c4::hash_bytes(b.ptr, t.size()); size_t want = sizeof(size_t) == 8 ? (size_t)ref64(t) : (size_t)ref32(t); PBT_CHECKM(h == want, "hash of %s is %zx, expected %zx", shown(t).c_str(), h, want);
    c4::fnv1a_t<64> f64; c4::fnv1a_t<32> f32; size_t i = 0; PBT_CHECK(f64.digest() == 0xcbf29ce484222325ull && f32.digest() == 0x811c9dc5u);
    while(i < t.size()) { size_t k = s.range(0, std::min<size_t>(t.size() - i, t.size() > 1000 ? t.size() / (1 + s.draw(8)) : 12)); if(k == 0 && s.draw(2) == 0) k = 1; Buf c(t.substr(i, k)); f64.update(c.ptr, k); f32.update(c.ptr, k); i += k; PBT_CHECKM(f64.digest() == ref64(t.substr(0, i)), "64-bit digest after %zu bytes", i); PBT_CHECKM(f32.digest() == ref32(t.substr(0, i)), "32-bit digest after %zu bytes of %s is %x", i, shown(t).c_str(), f32.digest()); }
    f64.update(nullptr, 0); f32.update(b.ptr, 0); PBT_CHECKM(f64.digest() == ref64(t) && f32.digest() == ref32(t), "digest in chunks differs"); b.check("hash");
}
template<size_t N> static void hash_array(Src &s)
{
    std::string t = s.bytes(s.coin() ? 8 : 40); t.resize(N, (char)s.draw(3)); if(s.coin()) t[s.draw(N)] = (char)s.draw(256); std::unique_ptr<char[]> own(new char[N]); memcpy(own.get(), t.data(), N); char const (&a)[N] = *(char const(*)[N])own.get(); s.note(strf("array of %zu", N)); s.nontrivial(t);
    PBT_CHECKM(c4::hash_bytes(a) == (sizeof(size_t) == 8 ? (size_t)ref64(t) : (size_t)ref32(t)), "hash of an array of %zu", N);
}
PBT_TEST(hash_arrays, 1)
{
    switch(s.draw(8)) { case 0: hash_array<8>(s); break; case 1: hash_array<1>(s); break; case 2: hash_array<3>(s); break; case 3: hash_array<17>(s); break; case 4: hash_array<64>(s); break; case 5: hash_array<256>(s); break; case 6: hash_array<300>(s); break; default: hash_array<5000>(s); break; }
    PBT_CHECK(c4::hash_bytes("abc") == (sizeof(size_t) == 8 ? (size_t)ref64(std::string("abc\0", 4)) : (size_t)ref32(std::string("abc\0", 4))));
}
// reference engines
struct R { uint64_t a, b; int kind; bool operator== (R const& o) const { return kind == 2 ? a == o.a && b == o.b : a == o.a; }
    uint32_t next()
    {
        if(kind == 0) { uint64_t z = (a += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return (uint32_t)((z ^ (z >> 31)) >> 31); }
        if(kind == 1) { uint64_t r = a * 0xd989bcacc137dcd5ull; a ^= a >> 11; a ^= a << 31; a ^= a >> 18; return (uint32_t)(r >> 32); }
        uint64_t o = a; a = o * 6364136223846793005ull + b; uint32_t x = (uint32_t)(((o >> 18) ^ o) >> 27); unsigned r = (unsigned)(o >> 59); return r ? (x >> r) | (x << (32 - r)) : x;
    } };
template<class E> struct Init; template<> struct Init<c4::rng::splitmix> { static R def() { R r = {1, 0, 0}; return r; } static R from(uint64_t s) { R r = {s, 0, 0}; return r; } }; template<> struct Init<c4::rng::xorshift> { static R def() { R r = {0xc1f651c67c62c6e0ull, 0, 1}; return r; } static R from(uint64_t s) { R r = {s, 0, 1}; return r; } }; template<> struct Init<c4::rng::pcg> { static R def() { R r = {0x853c49e6748fea9bull, 0xda3e39cb94b95bdbull, 2}; return r; } static R from(uint64_t s) { R r = {s, s << 1, 2}; return r; } };
template<class E> static E seeded(uint64_t v, std::true_type) { return E(v); } template<class E> static E seeded(uint64_t v, std::false_type) { E e; e.seed(v); return e; }
template<class E> static void engine(Src &s)
{
    static_assert(E::min() == 0 && E::max() == 0xffffffffu, ""); static_assert(std::is_same<typename E::result_type, uint32_t>::value, ""); typedef std::is_constructible<E, uint64_t> CT;
    enum { N = 4 }; E e[N]; R r[N]; for(int i = 0; i < N; ++i) r[i] = Init<E>::def(); size_t n = s.range(1, 40); std::string log;
    for(size_t k = 0; k < n; ++k)
    {
        int i = (int)s.draw(N), j = (int)s.draw(N); size_t op = s.draw(7); log += strf("%zu:%d%d ", op, i, j); s.note(strf("op %zu on %d,%d", op, i, j));
        switch(op) {
        case 0: case 1: { size_t c = s.range(1, 20); for(size_t q = 0; q < c; ++q) { uint32_t g = e[i](), w = r[i].next(); PBT_CHECKM(g == w, "draw %zu of engine %d is %08x, expected %08x", q, i, g, w); } break; }
        case 2: { uint64_t c = s.coin() ? s.draw(5) : s.draw(200); e[i].discard(c); for(uint64_t q = 0; q < c; ++q) r[i].next(); break; }
        case 3: { uint64_t v = s.coin() ? s.draw(10) : s.u64(); log += strf("%llx ", (unsigned long long)v); e[i].seed(v); r[i].a = v; break; }
        case 4: { uint64_t v = s.coin() ? s.draw(10) : s.u64(); log += strf("%llx ", (unsigned long long)v); e[i] = seeded<E>(v, CT()); R q = CT::value ? Init<E>::from(v) : Init<E>::from(v); r[i] = q; break; }
        case 5: e[i] = e[j]; r[i] = r[j]; break;
        default: e[i] = E(); r[i] = Init<E>::def(); break;
        }
        for(int a = 0; a < N; ++a) for(int b = 0; b < N; ++b) PBT_CHECKM((e[a] == e[b]) == (r[a] == r[b]) && (e[a] != e[b]) == !(r[a] == r[b]), "comparison of engines %d and %d", a, b);
    }
    for(int i = 0; i < N; ++i) for(int q = 0; q < 3; ++q) { uint32_t g = e[i](), w = r[i].next(); PBT_CHECKM(g == w, "final draw of engine %d is %08x, expected %08x", i, g, w); } s.nontrivial(log);
}
PBT_TEST(engines, 4) { switch(s.draw(3)) { case 0: engine<c4::rng::splitmix>(s); break; case 1: engine<c4::rng::xorshift>(s); break; default: engine<c4::rng::pcg>(s); } }
