// P30: a string view refers to exactly the characters it was given, however it was given them
#include "strgen.hpp"
#include <sstream>
#include <ostream>
using namespace c4; using namespace pbt;
template<class V> static void is(V const& v, const char *p, size_t n, const char *what)
{
    PBT_CHECKM(v.str == p && v.len == n, "%s gave (%p,%zu), expected (%p,%zu)", what, (void const*)v.str, v.len, (void const*)p, n);
    PBT_CHECK(v.size() == n && v.data() == p && v.begin() == p && v.end() == p + n && v.empty() == (n == 0) && v.not_empty() == (n != 0) && v.has_str() == (n != 0 && p[0] != 0));
    V m = v; size_t k = 0; for(auto const& c : m) { PBT_CHECK(&c == p + k); ++k; } PBT_CHECK(k == n);
    if(n) { V const c = v; PBT_CHECK(&c.front() == p && &c.back() == p + n - 1 && &m.front() == p && &m.back() == p + n - 1 && &c[0] == p && &m[n-1] == p + n - 1 && &c[n/2] == p + n/2); }
}
#define IS(expr, p, n) is((expr), p, n, #expr)
// every way of making or changing a view of N characters which live at an array
struct Text { std::string t; };
template<size_t N> static void arrays(std::string const& t)
{
    char a[N]; for(size_t i = 0; i < N; ++i) a[i] = i < t.size() ? t[i] : 'z'; a[N-1] = '\0'; char const (&ca)[N] = a; std::string before(a, N);
    IS(csubstr(ca), a, N-1); IS(csubstr(a), a, N-1); IS(substr(a), a, N-1); IS(to_substr(a), a, N-1); IS(to_csubstr(ca), a, N-1);
    csubstr c("old"); c = ca; IS(c, a, N-1); c = csubstr("old"); c.assign(ca); IS(c, a, N-1); substr m; m = a; IS(m, a, N-1); char o[] = "old"; m = substr(o); m.assign(a); IS(m, a, N-1);
    csubstr r = m; IS(r, a, N-1); csubstr const& rr = m; IS(rr, a, N-1); PBT_CHECK(std::string(a, N) == before);
}
template<size_t N> struct Arrays { static void go(size_t n, std::string const& t) { if(n == N) arrays<N>(t); else Arrays<N-1>::go(n, t); } };
template<> struct Arrays<0> { static void go(size_t, std::string const&) {} };
PBT_TEST(arrays, 4) { size_t n = 1 + s.draw(24); std::string t = s.bytes(24); s.note(strf("array of %zu: %s", n, shown(t).c_str())); s.nontrivial(t + (char)n); if(s.chance(1, 10)) { s.note("long array"); switch(s.draw(4)) { case 0: arrays<64>(t); break; case 1: arrays<256>(t); break; case 2: arrays<257>(t); break; default: arrays<70000>(t); break; } } else Arrays<24>::go(n, t); }
PBT_TEST(pointers, 6)
{
    std::string t = s.stretch(s.coin() ? s.bytes(60) : s.str(60, "ab\\/ x")); size_t a = s.range(0, t.size()), b = s.range(a, t.size()), n = b - a; Buf buf(t + '\0', 'g'); char *p = buf.ptr + a; char const* cp = p; s.note(strf("[%zu,%zu) of %s", a, b, shown(t).c_str())); s.nontrivial(t + strf("%zu %zu", a, b));
    IS(csubstr(cp, n), p, n); IS(csubstr(p, n), p, n); IS(csubstr(cp, cp + n), p, n); IS(substr(p, n), p, n); IS(substr(p, p + n), p, n);
    csubstr c("old"); c.assign(cp, n); IS(c, p, n); c = csubstr("old"); c.assign(cp, cp + n); IS(c, p, n); char o[] = "old"; substr m(o); m.assign(p, n); IS(m, p, n); m = substr(o); m.assign(p, p + n); IS(m, p, n);
    // terminated strings: up to the terminator
    size_t z = strlen(p); IS(csubstr(cp), p, z); IS(csubstr(p), p, z); IS(substr(p), p, z); IS(to_csubstr(cp), p, z); IS(to_csubstr(p), p, z); IS(to_substr(p), p, z);
    c = csubstr("old"); c = cp; IS(c, p, z); c = csubstr("old"); c.assign(cp); IS(c, p, z); c = csubstr("old"); c.assign(p); IS(c, p, z); m = substr(o); m = p; IS(m, p, z); m = substr(o); m.assign(p); IS(m, p, z);
    // from other views
    substr v(p, n); csubstr w(v), x = v, y; y = v; IS(w, p, n); IS(x, p, n); IS(y, p, n); csubstr const& ref = v; IS(ref, p, n); IS(to_substr(v), p, n); IS(to_csubstr(v), p, n); IS(to_csubstr(w), p, n); substr v2(v), v3; v3 = v; IS(v2, p, n); IS(v3, p, n); csubstr mv(std::move(w)); IS(mv, p, n);
    v3.clear(); IS(v3, (char const*)nullptr, 0); x = nullptr; IS(x, (char const*)nullptr, 0); y.clear(); IS(y, (char const*)nullptr, 0); v2 = nullptr; IS(v2, (char const*)nullptr, 0); IS(csubstr(nullptr), (char const*)nullptr, 0); IS(csubstr(), (char const*)nullptr, 0); IS(substr(nullptr), (char const*)nullptr, 0); char const* null = nullptr; IS(csubstr(null), (char const*)nullptr, 0); IS(to_csubstr(null), (char const*)nullptr, 0); c.assign(null); IS(c, (char const*)nullptr, 0);
    // writing through the view changes that character, and no other
    if(n) { size_t i = s.draw(n); char ch = (char)s.draw(256); std::string want = t; want[a + i] = ch; v[i] = ch; PBT_CHECKM(buf.str() == want + '\0', "writing element %zu gave %s, expected %s", i, shown(buf.str()).c_str(), shown(want).c_str()); v.front() = 'F'; v.back() = 'B'; want[a] = 'F'; want[b-1] = 'B'; PBT_CHECK(buf.str() == want + '\0'); *v.begin() = 'x'; *(v.end() - 1) = 'y'; want[a] = 'x'; want[b-1] = 'y'; PBT_CHECK(buf.str() == want + '\0'); v.data()[0] = 'd'; want[a] = 'd'; PBT_CHECK(buf.str() == want + '\0'); }
    buf.check("view");
}
PBT_TEST(streams, 3)
{
    std::string t = s.stretch(s.bytes(60), 5000), u = s.bytes(10); Buf b(t, 'g'); s.note(shown(t) + " " + shown(u)); s.nontrivial(t + "|" + u); std::ostringstream os; os.width((std::streamsize)s.draw(3)); os << csubstr(b.ptr, b.len) << substr(b.ptr, b.len) << csubstr(u.data(), u.size()); if(s.coin()) os << csubstr(); PBT_CHECKM(os.str() == t + t + u, "streamed %s, expected %s", shown(os.str()).c_str(), shown(t + t + u).c_str()); PBT_CHECK(b.str() == t);
}
// swapping, re-seating and copying many views over one buffer, against a model of (start, length)
PBT_TEST(histories, 3)
{
    std::string t = s.bytes(30); Buf buf(t + '\0', 'g'); const size_t K = 3; csubstr v[K]; ssize_t st[K]; size_t ln[K]; for(size_t i = 0; i < K; ++i) { st[i] = -1; ln[i] = 0; } size_t steps = 1 + s.draw(12); std::string h;
    for(size_t k = 0; k < steps; ++k) {
        size_t i = s.draw(K), j = s.draw(K), op = s.draw(7); size_t a = s.range(0, t.size()), b = s.range(a, t.size()); h += strf("%zu:%zu,%zu[%zu,%zu) ", op, i, j, a, b); char const *p = buf.ptr;
        if(op == 0) { v[i] = v[j]; st[i] = st[j]; ln[i] = ln[j]; } else if(op == 1) { v[i].assign(p + a, b - a); st[i] = (ssize_t)a; ln[i] = b - a; } else if(op == 2) { v[i] = csubstr(p + a, p + b); st[i] = (ssize_t)a; ln[i] = b - a; } else if(op == 3) { v[i].clear(); st[i] = -1; ln[i] = 0; }
        else if(op == 4) { std::swap(v[i], v[j]); std::swap(st[i], st[j]); std::swap(ln[i], ln[j]); } else if(op == 5) { v[i] = p + a; st[i] = (ssize_t)a; ln[i] = strlen(p + a); } else if(st[i] >= 0) { size_t x = s.range(0, ln[i]), y = s.range(x, ln[i]); v[i] = v[i].range(x, y); st[i] += (ssize_t)x; ln[i] = y - x; }
        for(size_t q = 0; q < K; ++q) is(v[q], st[q] < 0 ? nullptr : buf.ptr + st[q], ln[q], "view after an operation");
    }
    s.note(shown(t) + " " + h); s.nontrivial(t + h); buf.check("view history");
}
