// P16: comparison is one consistent lexicographic order across all string kinds
#include "strgen.hpp"
#include <c4/std/string.hpp>
#include <c4/std/vector.hpp>
#if __cplusplus >= 201703L
#include <c4/std/string_view.hpp>
#endif
using namespace c4; using namespace pbt;
static int sgn(long long x) { return x < 0 ? -1 : x > 0; }
static int model(std::string const& a, std::string const& b)
{
    for(size_t i = 0; i < a.size() && i < b.size(); ++i) if(a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return a.size() < b.size() ? -1 : a.size() > b.size();
}
#define OPS(x, y, m, what) do { \
    PBT_CHECKM(((x) == (y)) == ((m) == 0), "operator== (" what ") of %s and %s", qa.c_str(), qb.c_str()); PBT_CHECKM(((x) != (y)) == ((m) != 0), "operator!= (" what ") of %s and %s", qa.c_str(), qb.c_str()); \
    PBT_CHECKM(((x) <  (y)) == ((m) <  0), "operator< (" what ") of %s and %s",  qa.c_str(), qb.c_str()); PBT_CHECKM(((x) >  (y)) == ((m) >  0), "operator> (" what ") of %s and %s",  qa.c_str(), qb.c_str()); \
    PBT_CHECKM(((x) <= (y)) == ((m) <= 0), "operator<= (" what ") of %s and %s", qa.c_str(), qb.c_str()); PBT_CHECKM(((x) >= (y)) == ((m) >= 0), "operator>= (" what ") of %s and %s", qa.c_str(), qb.c_str()); } while(0)
template<size_t K> struct Lit { template<class V> static void go(V v, std::string const& a, std::string const& b, std::string const& qa, std::string const& qb)
{
    if(b.size() != K) { Lit<K-1>::go(v, a, b, qa, qb); return; }
    char lit[K + 1]; memcpy(lit, b.data(), K); lit[K] = (char)('a' + (a.size() & 3)); int m = model(a, b); const char (&l)[K+1] = lit; OPS(v, l, m, "view, literal"); OPS(l, v, -m, "literal, view");
} };
template<> struct Lit<0> { template<class V> static void go(V v, std::string const& a, std::string const& b, std::string const& qa, std::string const& qb) { if(!b.empty()) return; int m = a.empty() ? 0 : 1; OPS(v, "", m, "view, literal"); OPS("", v, -m, "literal, view"); } };

static void compare_all(std::string const& a, std::string const& b, bool na, bool nb)
{
    strgen::View va(a, 'a', na), vb(b, 'a', nb); csubstr ca = va.c(), cb = vb.c(); substr ma = va.m(), mb = vb.m(); std::string qa = shown(a), qb = shown(b); int m = model(a, b);
    PBT_CHECKM(sgn(ca.compare(cb)) == m && sgn(cb.compare(ca)) == -m, "compare of %s and %s: %d/%d", qa.c_str(), qb.c_str(), ca.compare(cb), cb.compare(ca)); PBT_CHECKM(sgn(ma.compare(mb)) == m && sgn(ma.compare(b.data(), b.size())) == m, "compare of %s and %s", qa.c_str(), qb.c_str());
    OPS(ca, cb, m, "csubstr, csubstr"); OPS(ma, mb, m, "substr, substr"); OPS(ca, mb, m, "csubstr, substr"); OPS(ma, cb, m, "substr, csubstr");
    OPS(ca, b, m, "csubstr, std::string"); OPS(a, cb, m, "std::string, csubstr"); OPS(ma, b, m, "substr, std::string"); OPS(a, mb, m, "std::string, substr");
    std::vector<char> xa(a.begin(), a.end()), xb(b.begin(), b.end()); OPS(ca, xb, m, "csubstr, vector"); OPS(xa, cb, m, "vector, csubstr"); OPS(ma, xb, m, "substr, vector"); OPS(xa, mb, m, "vector, substr");
    #if __cplusplus >= 201703L
    std::string_view wa(a.data(), a.size()), wb(vb.c().str, b.size()); OPS(ca, wb, m, "csubstr, string_view"); OPS(wa, cb, m, "string_view, csubstr"); 
    #endif
    Lit<20>::go(ca, a, b, qa, qb); Lit<20>::go(ma, a, b, qa, qb);
    if(b.size() == 1) { char c = b[0]; OPS(ca, c, m, "csubstr, char"); OPS(c, ca, -m, "char, csubstr"); OPS(ma, c, m, "substr, char"); OPS(c, ma, -m, "char, substr"); PBT_CHECK(sgn(ca.compare(c)) == m); }
    if(b.find('\0') == std::string::npos) { const char *z = b.c_str(); csubstr zc(z); PBT_CHECK(zc.len == b.size() && zc.str == z); OPS(ca, zc, m, "csubstr, C string"); }
    PBT_CHECK((ca == nullptr) == va.null && (ca != nullptr) == !va.null);
}
static std::string other(Src &s, std::string const& a, const char *al)
{
    switch(s.draw(8)) {
    case 6: case 7: return a.substr(0, s.range(0, a.size())) + s.str(12, al);
    case 0: return a; case 1: return a + (al ? al[s.draw(strlen(al))] : (char)s.draw(256)); case 2: return a.substr(0, s.range(0, a.size()));
    case 3: { std::string b = a; if(!b.empty()) b[s.draw(b.size())] = (char)s.draw(256); return b; }
    case 4: { std::string b = a; if(!b.empty()) b[b.size()-1] ^= (char)(1u << s.draw(8)); return b; }
    default: return s.str(12, al);
    }
}
PBT_TEST(pairs, 6)
{
    const char *al = strgen::alphabet(s); std::string a = s.stretch(s.str(s.chance(1, 4) ? 80 : s.coin() ? 24 : 12, al)), b = other(s, a, al); bool na = s.coin(), nb = s.coin(); s.note(shown(a) + " vs " + shown(b)); if(!a.empty() && !b.empty()) s.nontrivial(a + "|" + b); compare_all(a, b, na, nb);
}
PBT_TEST(single_characters, 2)
{
    std::string a = s.str(3, s.coin() ? "ab" : nullptr), b(1, strgen::chr(s, a, nullptr)); s.note(shown(a) + " vs " + shown(b)); s.nontrivial(a + "|" + b); compare_all(a, b, s.coin(), false);
}
PBT_TEST(triples, 2)
{
    const char *al = strgen::alphabet(s); std::string a = s.str(s.coin() ? 8 : 40, al), b = other(s, a, al), c = other(s, s.coin() ? a : b, al); s.note(shown(a) + " " + shown(b) + " " + shown(c)); s.nontrivial(a + "|" + b + "|" + c);
    csubstr x(a.data(), a.size()), y(b.data(), b.size()), z(c.data(), c.size());
    PBT_CHECKM(!(x <= y && y <= z) || x <= z, "not transitive: %s %s %s", shown(a).c_str(), shown(b).c_str(), shown(c).c_str()); PBT_CHECKM(!(x == y && y == z) || x == z, "equality not transitive: %s %s %s", shown(a).c_str(), shown(b).c_str(), shown(c).c_str());
    PBT_CHECK(((int)(x < y) + (int)(x == y) + (int)(x > y)) == 1);
}
PBT_ENUM(single_byte_pairs, 65536) { size_t k = s.draw(65536); std::string a(1, (char)(k >> 8)), b(1, (char)(k & 255)); s.note(shown(a) + " vs " + shown(b)); s.nontrivial(k); csubstr x(a.data(), 1); int m = model(a, b); std::string qa = shown(a), qb = shown(b); csubstr y(b.data(), 1); OPS(x, y, m, "view, view"); OPS(x, b[0], m, "view, char"); OPS(b[0], x, -m, "char, view"); OPS(x, b, m, "view, std::string"); }
// views longer than any 32-bit count (the memory is reserved but never filled in)
#include <sys/mman.h>
static char* big() { static char *p = []() -> char* { void *m = mmap(nullptr, ((size_t)1 << 32) + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return m == MAP_FAILED ? nullptr : (char*)m; }(); return p; }
PBT_TEST(long_views, 1)
{
    char *p = big(); if(!p) return;
    std::string a = s.str(4, "ab"), b = s.coin() ? a : s.str(4, "ab"); if(b.empty()) b = "a"; size_t base = s.coin() ? (size_t)1 << 31 : (size_t)1 << 32, n = base - 8 + s.draw(17); memset(p, 0, 16); memcpy(p, a.data(), a.size());
    std::string qa = strf("%s and zeros, %zu characters", shown(a).c_str(), n), qb = shown(b); s.note(qa + " vs " + qb); s.nontrivial(qa + qb); std::string full = a + std::string(16, '\0'); int m = model(full, b);
    csubstr v(p, n), w(b.data(), b.size()); substr mv(p, n); OPS(v, w, m, "long view, view"); OPS(w, v, -m, "view, long view"); OPS(mv, b, m, "long view, std::string"); PBT_CHECK(sgn(v.compare(w)) == m && sgn(w.compare(v)) == -m);
    if(b.size() == 1) { char c = b[0]; OPS(v, c, m, "long view, char"); OPS(c, v, -m, "char, long view"); OPS(mv, c, m, "long view, char"); PBT_CHECKM(sgn(v.compare(c)) == m, "compare(char) of %s and %s", qa.c_str(), qb.c_str()); }
}
