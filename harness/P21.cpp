// P21: spans against a model of (offset, size, capacity end, origin) over one memory block
#include "huge.hpp"
#include <c4/span.hpp>
#include <memory>
using namespace c4; using namespace pbt;
/** model of a span: elements [o, o+n) of the block; room up to ce; recoverable from b0. null: no memory at all */
struct M { size_t o, n, ce, b0; bool null; size_t cap() const { return ce - o; } size_t end() const { return o + n; } };
static std::string show(M const& m) { return m.null ? std::string("null") : strf("[%zu,%zu) cap %zu from %zu", m.o, m.o + m.n, m.cap(), m.b0); }
template<class S> struct kind; // 0: span, 1: spanrs, 2: spanrsl
template<class T, class I> struct kind<span<T, I>> { enum { k = 0 }; };
template<class T, class I> struct kind<spanrs<T, I>> { enum { k = 1 }; };
template<class T, class I> struct kind<spanrsl<T, I>> { enum { k = 2 }; };
template<class T, class I> void extra(span<T, I> const&, M const&, T *) {}
template<class T, class I> void extra(spanrs<T, I> const& s, M const& m, T *mem)
{
    span<T, I> p = s; PBT_CHECKM(p.data() == s.data() && p.size() == s.size() && p.capacity() == s.size(), "conversion of spanrs to span: %s", show(m).c_str());
}
template<class T, class I> void extra(spanrsl<T, I> const& s, M const& m, T *mem)
{
    PBT_CHECKM((size_t)s.offset() == m.o - m.b0, "offset() is %zu, expected %zu (%s)", (size_t)s.offset(), m.o - m.b0, show(m).c_str());
    span<T, I> p = s; PBT_CHECK(p.data() == s.data() && p.size() == s.size());
    spanrs<T, I> q = s; PBT_CHECK(q.data() == s.data() && q.size() == s.size() && q.capacity() == s.capacity());
    if(m.null) return;
    spanrsl<T, I> o = s.original(); PBT_CHECKM(o.data() == mem + m.b0 && (size_t)o.size() == m.ce - m.b0 && o.capacity() == o.size() && o.offset() == 0, "original() of %s is [%td,+%zu) cap %zu offset %zu", show(m).c_str(), o.data() - mem, (size_t)o.size(), (size_t)o.capacity(), (size_t)o.offset());
    spanrsl<T, I> ss = s; auto o1 = ss.template original<span>(); PBT_CHECK(o1.data() == mem + m.b0 && (size_t)o1.size() == m.ce - m.b0);
    auto o2 = ss.template original<spanrs>(); PBT_CHECK(o2.data() == mem + m.b0 && (size_t)o2.size() == m.ce - m.b0 && o2.capacity() == o2.size());
}
template<class S, class T> void verify(S &s, M const& m, T *mem, size_t memn, const char *what)
{
    typedef typename S::size_type I; S const& c = s;
    T *d = m.null ? nullptr : mem + m.o;
    PBT_CHECKM(s.data() == d && c.data() == d && (size_t)s.size() == m.n && (size_t)s.capacity() == m.cap(), "after %s: [%td,+%zu) cap %zu, expected %s", what, s.data() - mem, (size_t)s.size(), (size_t)s.capacity(), show(m).c_str());
    PBT_CHECK(s.empty() == (m.n == 0)); PBT_CHECK(s.begin() == d && s.end() == d + m.n && c.begin() == d && c.end() == d + m.n && c.cbegin() == d && c.cend() == d + m.n);
    PBT_CHECK((size_t)s.elm_size() == sizeof(T) && (size_t)s.value_size() == sizeof(T) && (size_t)s.type_size() == sizeof(T)); if(m.n * sizeof(T) < 100) PBT_CHECK((size_t)s.byte_size() == m.n * sizeof(T));
    size_t i = m.n; for(auto it = s.rbegin(); it != s.rend(); ++it) { PBT_CHECK(i > 0); --i; PBT_CHECK(&*it == d + i); } PBT_CHECK(i == 0);
    i = m.n; for(auto it = c.rbegin(); it != c.rend(); ++it) { PBT_CHECK(i > 0); --i; PBT_CHECK(&*it == d + i); } PBT_CHECK(i == 0); PBT_CHECK(c.crend() - c.crbegin() == (ptrdiff_t)m.n);
    if(m.n) { PBT_CHECK(&s.front() == d && &c.front() == d && &s.back() == d + m.n - 1 && &c.back() == d + m.n - 1); for(i = 0; i < m.n; ++i) PBT_CHECK(&s[(I)i] == d + i && &c[(I)i] == d + i); }
    typename S::const_type k = s; PBT_CHECK(k.data() == d && k.size() == s.size() && k.capacity() == s.capacity()); extra(s, m, mem); (void)memn;
}
template<class S> struct assign3 { template<class T, class I> static bool go(S &, T *, I, I) { return false; } };
template<class T, class I> struct assign3<spanrs<T, I>> { static bool go(spanrs<T, I> &s, T *p, I n, I c) { s.assign(p, n, c); return true; } };
template<class T, class I> struct assign3<spanrsl<T, I>> { static bool go(spanrsl<T, I> &s, T *p, I n, I c) { s.assign(p, n, c); return true; } };
template<class S> struct orig { static bool go(S &) { return false; } };
template<class T, class I> struct orig<spanrsl<T, I>> { static bool go(spanrsl<T, I> &s) { s = s.original(); return true; } };
template<class A, class B, class T> void compare(A const& a, M const& ma, B const& b, M const& mb, T const* mem)
{
    std::vector<T> x(mem + ma.o, mem + ma.o + ma.n), y(mem + mb.o, mem + mb.o + mb.n); std::string w = show(ma) + " and " + show(mb);
    PBT_CHECKM((a == b) == (x == y), "== of %s", w.c_str()); PBT_CHECKM((a != b) == (x != y), "!= of %s", w.c_str()); PBT_CHECKM((a < b) == (x < y), "< of %s", w.c_str());
    PBT_CHECKM((a > b) == (x > y), "> of %s", w.c_str()); PBT_CHECKM((a <= b) == (x <= y), "<= of %s", w.c_str()); PBT_CHECKM((a >= b) == (x >= y), ">= of %s", w.c_str());
}
template<class S, class T, class I> void history(Src &s, size_t maxn)
{
    const bool K0 = kind<S>::k == 0; size_t N = s.range(0, maxn); std::unique_ptr<T[]> own(new T[N ? N : 1]); T *mem = own.get(); for(size_t i = 0; i < N; ++i) mem[i] = (T)s.draw(3);
    enum { P = 3 }; S sp[P]; M m[P]; for(int i = 0; i < P; ++i) { m[i] = M{0, 0, 0, 0, true}; verify(sp[i], m[i], mem, N, "default construction"); }
    size_t steps = s.range(1, 14); s.nontrivial(N);
    for(size_t st = 0; st < steps; ++st) {
        size_t a = s.draw(P), b = s.draw(P), op = s.draw(20); S &x = sp[a]; M &mx = m[a]; size_t n = mx.n; s.nontrivial(op * 9 + a * 3 + b); std::string what;
        switch(op) {
        case 0: { size_t o = s.range(0, N), k = s.range(0, N - o); mx = M{o, k, o + k, o, false}; if(s.coin()) x.assign(mem + o, (I)k); else x = S(mem + o, (I)k); what = strf("s%zu.assign(%zu,%zu)", a, o, k); break; }
        case 1: case 2: { size_t o = s.range(0, N), c = s.range(0, N - o), k = s.range(0, c); what = strf("s%zu.assign(%zu,%zu,%zu)", a, o, k, c); if(assign3<S>::go(x, mem + o, (I)k, (I)c)) mx = M{o, k, o + c, o, false}; break; }
        case 3: { size_t f = s.range(0, n), k = s.range(0, n - f); what = strf("s%zu=s%zu.subspan(%zu,%zu)", b, a, f, k); sp[b] = x.subspan((I)f, (I)k); M r = mx; r.o += f; r.n = k; if(K0) r.ce = r.end(); m[b] = r; break; }
        case 4: { size_t f = s.range(0, n); what = strf("s%zu=s%zu.subspan(%zu)", b, a, f); sp[b] = x.subspan((I)f); M r = mx; r.o += f; r.n = n - f; m[b] = r; break; }
        case 5: { size_t f = s.range(0, n), l = s.range(f, n); what = strf("s%zu=s%zu.range(%zu,%zu)", b, a, f, l); sp[b] = x.range((I)f, (I)l); M r = mx; r.o += f; r.n = l - f; if(K0) r.ce = r.end(); m[b] = r; break; }
        case 6: { size_t f = s.range(0, n); what = strf("s%zu=s%zu.range(%zu)", b, a, f); sp[b] = x.range((I)f); M r = mx; r.o += f; r.n = n - f; m[b] = r; break; }
        case 7: { size_t k = s.range(0, n); what = strf("s%zu=s%zu.first(%zu)", b, a, k); sp[b] = x.first((I)k); M r = mx; r.n = k; if(K0) r.ce = r.end(); m[b] = r; break; }
        case 8: { size_t k = s.range(0, n); what = strf("s%zu=s%zu.last(%zu)", b, a, k); sp[b] = x.last((I)k); M r = mx; r.o += n - k; r.n = k; m[b] = r; if(K0) m[b].ce = m[b].end(); break; }
        case 9: { size_t k = s.range(0, mx.cap()); what = strf("s%zu.resize(%zu)", a, k); x.resize((I)k); mx.n = k; if(K0) mx.ce = mx.end(); break; }
        case 10: { if(!n) break; size_t k = s.range(0, n - 1); what = strf("s%zu.rtrim(%zu)", a, k); x.rtrim((I)k); mx.n -= k; if(K0) mx.ce = mx.end(); break; }
        case 11: { if(!n) break; size_t k = s.range(0, n - 1); what = strf("s%zu.ltrim(%zu)", a, k); x.ltrim((I)k); mx.n -= k; mx.o += k; break; }
        case 12: { if(!s.chance(1, 2)) break; what = strf("s%zu.clear()", a); x.clear(); mx.n = 0; if(K0) mx.ce = mx.o; break; }
        case 13: { what = strf("s%zu=s%zu.original()", a, a); if(!mx.null && orig<S>::go(x)) { mx.o = mx.b0; mx.n = mx.ce - mx.b0; } break; }
        case 14: { what = strf("s%zu=s%zu", b, a); sp[b] = x; m[b] = mx; break; }
        case 15: { if(mx.null && !m[b].null) PBT_CHECKM(!x.is_subspan(sp[b]), "a null span contains another"); if(mx.null || m[b].null) break; what = strf("is_subspan(s%zu,s%zu)", a, b); bool e = m[b].o >= mx.o && m[b].end() <= mx.end(); PBT_CHECKM(x.is_subspan(sp[b]) == e, "is_subspan of %s in %s is %d", show(m[b]).c_str(), show(mx).c_str(), !e); break; }
        case 16: { if(mx.null || m[b].null) break; size_t e = m[b].o >= mx.o && m[b].o <= mx.end() ? m[b].o - mx.o : 0; what = strf("compll(s%zu,s%zu)", a, b); S r = x.compll(sp[b]); M mr = mx; mr.n = e; if(K0) mr.ce = mr.end(); verify(r, mr, mem, N, what.c_str()); break; }
        case 17: { if(mx.null || m[b].null) break; bool in = m[b].end() >= mx.o && m[b].end() <= mx.end(); M mr = mx; if(in) { mr.o = m[b].end(); mr.n = mx.end() - mr.o; } else mr.n = 0; if(K0) mr.ce = mr.end(); what = strf("complr(s%zu,s%zu)", a, b); S r = x.complr(sp[b]); if(in || true) verify(r, mr, mem, N, what.c_str()); break; }
        case 18: { what = strf("same_span(s%zu,s%zu)", a, b); bool e = mx.null == m[b].null && mx.o == m[b].o && mx.n == m[b].n; PBT_CHECK(x.same_span(sp[b]) == e); span<T, int> o(sp[b].data(), (int)sp[b].size()); PBT_CHECKM(x.same_span(o) == e, "same_span across index types"); break; }
        default: { what = strf("compare(s%zu,s%zu)", a, b); compare(x, mx, sp[b], m[b], mem); spanrs<T, int> o(sp[b].data(), (int)sp[b].size()); compare(x, mx, o, m[b], mem); if(n) { size_t i = s.draw(n); T v = (T)s.draw(3); x[(I)i] = v; PBT_CHECK(mem[mx.o + i] == v); } break; }
        }
        s.note(what); for(int i = 0; i < P; ++i) verify(sp[i], m[i], mem, N, what.c_str());
    }
}
template<class T, class I> void kinds(Src &s, size_t maxn) { switch(s.draw(3)) { case 0: s.note("span"); history<span<T, I>, T, I>(s, maxn); break; case 1: s.note("spanrs"); history<spanrs<T, I>, T, I>(s, maxn); break; default: s.note("spanrsl"); history<spanrsl<T, I>, T, I>(s, maxn); break; } }
PBT_TEST(histories, 6)
{
    switch(s.draw(5)) { case 0: kinds<int, size_t>(s, 12); break; case 1: kinds<char, uint8_t>(s, s.coin() ? 12 : 255); break; case 2: kinds<short, int>(s, 12); break; case 3: kinds<double, int8_t>(s, s.coin() ? 12 : 127); break; default: kinds<char, uint32_t>(s, s.coin() ? 12 : 400); break; }
}
struct Keyed { short key; unsigned junk; bool operator== (Keyed const& t) const { return key == t.key; } bool operator!= (Keyed const& t) const { return key != t.key; } bool operator< (Keyed const& t) const { return key < t.key; } };
template<class S, class T> void content(Src &s, std::vector<T> x, std::vector<T> y)
{   // two spans over separate exact blocks
    std::unique_ptr<T[]> a(new T[x.size() + y.size()]); (void)a; std::unique_ptr<char[]> px(new char[x.size() * sizeof(T) + 1]), py(new char[y.size() * sizeof(T) + 1]); T *ax = (T*)malloc(x.size() * sizeof(T) + !x.size()), *ay = (T*)malloc(y.size() * sizeof(T) + !y.size()); if(x.size()) memcpy(ax, x.data(), x.size() * sizeof(T)); if(y.size()) memcpy(ay, y.data(), y.size() * sizeof(T));
    S p(ax, (typename S::size_type)x.size()), q(ay, (typename S::size_type)y.size()); bool e[] = {x == y, x != y, x < y, x > y, x <= y, x >= y}, g[] = {p == q, p != q, p < q, p > q, p <= q, p >= q}; static const char *nm[] = {"==", "!=", "<", ">", "<=", ">="};
    free(ax); free(ay); for(int i = 0; i < 6; ++i) PBT_CHECKM(e[i] == g[i], "span %s span is %d for contents of %zu and %zu elements", nm[i], g[i], x.size(), y.size());
}
PBT_TEST(comparison_by_content, 3)
{
    std::vector<int> x, y; size_t c = s.len(40), nx = s.len(6), ny = s.len(6); for(size_t i = 0; i < c; ++i) { int v = (int)s.irange(-2, 2); x.push_back(v); y.push_back(v); } for(size_t i = 0; i < nx; ++i) x.push_back((int)s.irange(-2, 2)); for(size_t i = 0; i < ny; ++i) y.push_back((int)s.irange(-2, 2));
    s.note(strf("common %zu, then %zu and %zu", c, nx, ny)); if(x.size() && y.size()) { s.nontrivial(hash_str((char*)x.data(), x.size() * 4)); s.nontrivial(hash_str((char*)y.data(), y.size() * 4)); }
    content<span<int>>(s, x, y); content<spanrs<int>>(s, x, y); content<spanrsl<int>>(s, x, y); content<span<const int, int>>(s, x, y);
    std::vector<unsigned char> ux(x.begin(), x.end()), uy(y.begin(), y.end()); content<span<unsigned char>>(s, ux, uy);
    // the elements are compared as values, with their own operators: not by representation
    std::vector<signed char> cx(x.begin(), x.end()), cy(y.begin(), y.end()); content<span<signed char>>(s, cx, cy); std::vector<short> hx(x.begin(), x.end()), hy(y.begin(), y.end()); content<spanrs<short>>(s, hx, hy);
    bool neg = s.coin(); std::vector<double> dx(x.begin(), x.end()), dy(y.begin(), y.end()); for(double &d : dy) if(d == 0 && neg) d = -0.0; content<span<double>>(s, dx, dy); std::vector<float> fx(dx.begin(), dx.end()), fy(dy.begin(), dy.end()); content<spanrsl<float>>(s, fx, fy);
    std::vector<Keyed> kx, ky; unsigned junk = (unsigned)s.draw(1000); for(int v : x) kx.push_back(Keyed{(short)v, junk = junk * 5 + 1}); for(int v : y) ky.push_back(Keyed{(short)v, junk = junk * 5 + 1}); content<span<Keyed>>(s, kx, ky); content<spanrs<Keyed, int>>(s, kx, ky);
    if(x.size()) { size_t k = s.draw(dx.size()); dx[k] = std::numeric_limits<double>::quiet_NaN(); span<double> n(dx.data(), dx.size()), m(dx.data(), dx.size()); PBT_CHECKM(!(n == m) && n != m, "spans with a NaN among their elements compare equal"); }
}
// spans of different kinds over the same element type compare by content, and initializer lists are referred to as they are
PBT_TEST(mixed_kinds, 2)
{
    std::vector<int> x, y; size_t c = s.len(12), nx = s.len(3), ny = s.len(3); for(size_t i = 0; i < c; ++i) { int v = (int)s.irange(-1, 1); x.push_back(v); y.push_back(v); } for(size_t i = 0; i < nx; ++i) x.push_back((int)s.irange(-1, 1)); for(size_t i = 0; i < ny; ++i) y.push_back((int)s.irange(-1, 1)); x.reserve(1); y.reserve(1);
    s.note(strf("common %zu, then %zu and %zu", c, nx, ny)); s.nontrivial(hash_str((char*)x.data(), x.size() * 4)); s.nontrivial(hash_str((char*)y.data(), y.size() * 4) + 1);
    span<int> a(x.data(), x.size()); spanrs<int> b(y.data(), y.size()); spanrsl<int, int> d(y.data(), (int)y.size()); span<int, uint8_t> e(y.data(), (uint8_t)y.size());
    #define MIX(q) { bool w[] = {x == y, x != y, x < y, x > y, x <= y, x >= y}, g[] = {a == q, a != q, a < q, a > q, a <= q, a >= q}, h[] = {y == x, y != x, y < x, y > x, y <= x, y >= x}, k[] = {q == a, q != a, q < a, q > a, q <= a, q >= a}; for(int i = 0; i < 6; ++i) PBT_CHECKM(w[i] == g[i] && h[i] == k[i], "comparison %d of span and " #q " is %d/%d for contents of %zu and %zu elements", i, g[i], k[i], x.size(), y.size()); }
    MIX(b) MIX(d) MIX(e)
    std::initializer_list<const int> il0 = {1, 2, 3}, il1 = {7}, il2 = {4, 5, 6, 7, 8}; auto const& il = c % 3 == 0 ? il0 : c % 3 == 1 ? il1 : il2; cspan<int> f(aggregate, il), f2; cspanrs<int> g(aggregate, il), g2; cspanrsl<int> h(aggregate, il), h2; f2.assign(aggregate, il); g2.assign(aggregate, il); h2.assign(aggregate, il);
    PBT_CHECK(f.data() == il.begin() && f.size() == il.size() && f2.data() == f.data() && f2.size() == f.size()); PBT_CHECK(g.data() == il.begin() && g.size() == il.size() && g.capacity() == il.size() && g2.data() == g.data() && g2.size() == g.size() && g2.capacity() == g.capacity()); PBT_CHECK(h.data() == il.begin() && h.size() == il.size() && h.capacity() == il.size() && h.offset() == 0 && h2.data() == h.data() && h2.size() == h.size() && h2.capacity() == h.capacity() && h2.offset() == 0);
    spanrsl<int> z(x.data(), x.size() / 2, x.size()); PBT_CHECK(z.data() == x.data() && z.size() == x.size() / 2 && z.capacity() == x.size() && z.offset() == 0); size_t o = s.range(0, x.size()); z.assign(x.data() + o, 0, x.size() - o, o); PBT_CHECK(z.data() == x.data() + o && z.size() == 0 && z.capacity() == x.size() - o && z.offset() == o);
}
#ifndef NDEBUG
template<class S, class T, class I> void refused(Src &s)
{   // checked builds: a request outside the span is reported
    size_t N = s.range(0, 8), o = s.range(0, N), n = s.range(0, N - o); T *mem = (T*)malloc(N * sizeof(T) + 1); memset(mem, 0, N * sizeof(T)); S x(mem + o, (I)n); S const& cx = x; I big = std::numeric_limits<I>::max(), neg = std::is_signed<I>::value ? (I)-1 : big; I d = s.coin() ? (I)s.range(1, 5) : s.coin() ? (I)(big - (I)n) : (I)(big - (I)n - (I)s.range(0, 9)); I bad = (I)((I)n + d); I f = (I)s.range(0, n);
    static const char *nm[] = {"[]", "subspan(f)", "subspan(f,n)", "range(f)", "range(f,l)", "range(l<f)", "first", "last", "resize", "rtrim", "ltrim", "front", "back"}; size_t op = s.draw(13); bool use_neg = s.chance(1, 3); if(use_neg) bad = neg; s.note(strf("%s of a span of %zu with %lld", nm[op], n, (long long)bad)); s.nontrivial(strf("%zu %zu %lld %d", op, n, (long long)bad, (int)f)); bool r = false;
    switch(op) {
    case 0: if(!use_neg && s.coin()) bad = (I)n; r = s.coin() ? raises([&]{ (void)x[bad]; }) : raises([&]{ (void)cx[bad]; }); break;
    case 1: r = raises([&]{ x.subspan(bad); }); break;
    case 2: r = s.coin() ? raises([&]{ x.subspan(bad, 0); }) : raises([&]{ x.subspan(f, bad); }); break;
    case 3: r = raises([&]{ x.range(bad); }); break;
    case 4: r = raises([&]{ x.range(f, bad); }); break;
    case 5: if(!n) { r = true; break; } { I l = (I)s.range(0, n - 1); r = raises([&]{ x.range((I)(l + 1), l); }); } break;
    case 6: r = raises([&]{ x.first(bad); }); break;
    case 7: r = raises([&]{ x.last(bad); }); break;
    case 8: if(use_neg && std::is_signed<I>::value) { r = true; break; } r = raises([&]{ x.resize(bad); }); break;
    case 9: r = raises([&]{ x.rtrim(bad); }); break;
    case 10: r = raises([&]{ x.ltrim(bad); }); break;
    case 11: x.clear(); r = s.coin() ? raises([&]{ (void)x.front(); }) : raises([&]{ (void)cx.front(); }); break;
    default: x.clear(); r = s.coin() ? raises([&]{ (void)x.back(); }) : raises([&]{ (void)cx.back(); }); break;
    }
    PBT_CHECKM(r, "%s with %lld on a span of %zu elements was not reported", nm[op], (long long)bad, n); free(mem);
}
PBT_TEST(out_of_range, 2)
{
    switch(s.draw(5)) { case 0: refused<span<int>, int, size_t>(s); break; case 1: refused<spanrs<char, int>, char, int>(s); break; case 2: refused<spanrsl<int>, int, size_t>(s); break; case 3: refused<span<short, uint8_t>, short, uint8_t>(s); break; default: refused<span<int, int64_t>, int, int64_t>(s); break; }
}
#endif
// spans of more elements than 32 bits can count
template<class S, class T> void big(Src &s, T *mem, size_t N)
{
    typedef typename S::size_type I; const bool K0 = kind<S>::k == 0; S x(mem, (I)N); M m = M{0, N, N, 0, false}; size_t steps = s.range(1, 8); s.nontrivial(N);
    for(size_t st = 0; st < steps; ++st) {
        size_t n = m.n, f = std::min(n, huge::pos(s, n)), k = std::min(n - f, huge::pos(s, n)), op = s.draw(12); M p = m; S q = x; std::string what = strf("op %zu (%zu, %zu) on %s", op, f, k, show(m).c_str()); s.note(what); s.nontrivial(op); if(op >= 6 && op < 8 && f == n) continue;
        switch(op) {
        case 0: x = x.subspan((I)f, (I)k); m.o += f; m.n = k; break;
        case 1: x = x.subspan((I)f); m.o += f; m.n -= f; break;
        case 2: x = x.range((I)f, (I)(f + k)); m.o += f; m.n = k; break;
        case 3: x = x.first((I)f); m.n = f; break;
        case 4: x = x.last((I)f); m.o += n - f; m.n = f; break;
        case 5: f = std::min(m.cap(), huge::pos(s, m.cap())); x.resize((I)f); m.n = f; break;
        case 6: x.rtrim((I)f); m.n -= f; break;
        case 7: x.ltrim((I)f); m.o += f; m.n -= f; break;
        case 8: if(orig<S>::go(x)) { m.o = m.b0; m.n = m.ce - m.b0; } break;
        case 9: { size_t o = huge::pos(s, N), c = std::min(N - o, huge::pos(s, N)), z = std::min(c, huge::pos(s, N)); if(assign3<S>::go(x, mem + o, (I)z, (I)c)) m = M{o, z, o + c, o, false}; else { x.assign(mem + o, (I)z); m = M{o, z, o + z, o, false}; } break; }
        case 10: x = x.compll(x.subspan((I)f, (I)k)); m.n = f; break;
        default: x = x.complr(x.subspan((I)f, (I)k)); m.o += f + k; m.n -= f + k; break;
        }
        if(K0) m.ce = m.end(); extra(x, m, mem);
        PBT_CHECKM(x.data() == mem + m.o && (size_t)x.size() == m.n && (size_t)x.capacity() == m.cap() && x.end() == mem + m.end() && (size_t)x.byte_size() == m.n * sizeof(T) && x.empty() == !m.n, "%s: [%td,+%zu) cap %zu, expected %s", what.c_str(), x.data() - mem, (size_t)x.size(), (size_t)x.capacity(), show(m).c_str());
        if(m.n) { size_t i = std::min(m.n - 1, huge::pos(s, m.n)); PBT_CHECK(&x[(I)i] == mem + m.o + i && &x.back() == mem + m.end() - 1); }
        bool in = m.o >= p.o && m.end() <= p.end(); PBT_CHECKM(m.o == p.end() || q.is_subspan(x) == in, "%s: is_subspan", what.c_str()); PBT_CHECK(q.same_span(x) == (p.o == m.o && p.n == m.n));
    }
}
template<class T, class I> void bigs(Src &s, T *mem, size_t N) { switch(s.draw(3)) { case 0: big<span<T, I>, T>(s, mem, N); break; case 1: big<spanrs<T, I>, T>(s, mem, N); break; default: big<spanrsl<T, I>, T>(s, mem, N); break; } }
PBT_TEST(huge_spans, 1)
{
    char *m = huge::region(); if(!m) { s.label("no large region"); return; } switch(s.draw(3)) { case 0: bigs<char, size_t>(s, m, huge::size(s, 33)); break; case 1: bigs<char, int64_t>(s, m, huge::size(s, 33)); break; default: bigs<short, uint64_t>(s, (short*)m, huge::size(s, 32)); break; }
}
// spans of arrays have all their elements, and no others
template<class S, class T, size_t N> void of_array(size_t pos, T v)
{
    typedef typename S::const_type C; std::unique_ptr<T[]> own(new T[N + 2]()); T (&a)[N] = *(T(*)[N])(own.get() + 1); S x(a), y; y.assign(a); S z(own.get(), 1); z.assign(a); C c(a);
    for(S const* q : {&x, &y, &z}) PBT_CHECKM(q->data() == a && (size_t)q->size() == N && (size_t)q->capacity() == N && q->begin() == a && q->end() == a + N && !q->empty(), "a span of an array of %zu has %zu elements and capacity %zu", N, (size_t)q->size(), (size_t)q->capacity());
    PBT_CHECKM(c.data() == a && (size_t)c.size() == N, "a constant span of an array of %zu has %zu elements", N, (size_t)c.size()); pos %= N; x[(typename S::size_type)pos] = v; PBT_CHECK(a[pos] == v && c[(typename S::size_type)pos] == v); for(size_t i = 0; i < N + 2; ++i) PBT_CHECK(i == pos + 1 || own[i] == T());
}
template<class T, size_t N> void of_arrays(Src &s)
{
    size_t pos = s.edge_size(N - 1), k = s.draw(6); T v = (T)s.draw(100); s.note(strf("array of %zu objects of %zu bytes, kind %zu, element %zu", N, sizeof(T), k, pos)); s.nontrivial(strf("%zu %zu %zu %zu", N, sizeof(T), k, pos));
    switch(k) { case 0: of_array<span<T>, T, N>(pos, v); break; case 1: of_array<spanrs<T>, T, N>(pos, v); break; case 2: of_array<spanrsl<T>, T, N>(pos, v); break; case 3: of_array<span<T, int>, T, N>(pos, v); break; case 4: of_array<spanrs<T, unsigned short>, T, N>(pos, v); break; default: of_array<spanrsl<T, int>, T, N>(pos, v); break; }
}
PBT_TEST(arrays, 1)
{
    switch(s.draw(9)) { case 0: of_arrays<int, 1>(s); break; case 1: of_arrays<char, 2>(s); break; case 2: of_arrays<double, 7>(s); break; case 3: of_arrays<char, 64>(s); break; case 4: of_arrays<short, 255>(s); break; case 5: of_arrays<int, 256>(s); break; case 6: of_arrays<uint64_t, 33>(s); break; case 7: of_arrays<char, 5000>(s); break; default: of_arrays<int, 300>(s); break; }
}
