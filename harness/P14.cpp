// P14: sub-views, trimming and stripping return the defined part of the original
#include "huge.hpp"
#include "strgen.hpp"
using namespace c4; using namespace pbt;
static const size_t N = (size_t)-1;
template<class V> static void part(V whole, V got, std::string const& t, size_t b, size_t n, const char *what)
{
    PBT_CHECKM(got.str == whole.str + b && got.len == n, "%s on %s gave [%zd,+%zu), expected [%zu,+%zu)", what, shown(t).c_str(), (ssize_t)(got.str - whole.str), got.len, b, n);
}
/** like part(), but an empty result may sit anywhere inside the original */
template<class V> static void text(V whole, V got, std::string const& t, size_t b, size_t n, const char *what)
{
    if(n) { part(whole, got, t, b, n, what); return; }
    PBT_CHECKM(got.len == 0 && got.str >= whole.str && got.str <= whole.str + whole.len, "%s on %s gave [%zd,+%zu), expected an empty part", what, shown(t).c_str(), (ssize_t)(got.str - whole.str), got.len);
}
#define P(expr, b, n) part<V>(v, expr, t, b, n, #expr)
#define T(expr, b, n) text<V>(v, expr, t, b, n, #expr)
template<class V> static void positions(V v, std::string const& t, size_t a, size_t b)
{   // 0 <= a <= b <= len
    size_t L = t.size();
    P(v.sub(a), a, L - a); P(v.sub(a, b - a), a, b - a); P(v.sub(a, V::npos), a, L - a); P(v.range(a, b), a, b - a); P(v.range(a), a, L - a); P(v.range(a, V::npos), a, L - a);
    P(v.first(a), 0, a); P(v.first(V::npos), 0, L); P(v.last(a), L - a, a); P(v.last(V::npos), 0, L); P(v.offs(a, L - b), a, b - a);
    P(v.left_of(a), 0, a); P(v.left_of(V::npos), 0, L); P(v.left_of(a, false), 0, a); P(v.left_of(V::npos, false), 0, L); P(v.left_of(V::npos, true), 0, L);
    P(v.right_of(V::npos), L, 0); P(v.right_of(V::npos, true), L, 0); P(v.right_of(V::npos, false), L, 0); P(v.right_of(a, true), a, L - a);
    if(a < L) { P(v.left_of(a, true), 0, a + 1); P(v.right_of(a), a + 1, L - a - 1); P(v.right_of(a, false), a + 1, L - a - 1); PBT_CHECK(&v[a] == v.str + a && v[a] == t[a]); PBT_CHECK(&v.front() == v.str && &v.back() == v.str + L - 1 && v.front() == t[0] && v.back() == t[L-1]); }
    V m = v.range(a, b); P(v.left_of(m), 0, a); P(v.right_of(m), b, L - b);
    PBT_CHECK(v.size() == L && v.empty() == (L == 0) && v.not_empty() == (L != 0) && v.begin() == v.data() && v.end() == v.data() + L && v.has_str() == (L > 0 && t[0] != 0));
    // containment and overlap of two ranges of one buffer
    PBT_CHECKM(m.is_sub(v) && v.is_super(m) , "range [%zu,%zu) of %s is not reported as part of it", a, b, shown(t).c_str());
}
template<class V> static void relations(V v, std::string const& t, size_t a, size_t b, size_t c, size_t d)
{
    V x = v.range(a, b), y = v.range(c, d);
    bool sup = b > a ? (c >= a && d <= b) : (c == a && d == a);
    PBT_CHECKM(x.is_super(y) == sup && y.is_sub(x) == sup, "[%zu,%zu) is_super [%zu,%zu): %d/%d", a, b, c, d, x.is_super(y), y.is_sub(x));
    bool ov = std::max(a, c) < std::min(b, d);
    PBT_CHECKM(x.overlaps(y) == ov && y.overlaps(x) == ov, "[%zu,%zu) overlaps [%zu,%zu): %d/%d", a, b, c, d, x.overlaps(y), y.overlaps(x));
    if(sup) { text<V>(x, x.left_of(y), t.substr(a, b - a), 0, c - a, "left_of(sub)"); text<V>(x, x.right_of(y), t.substr(a, b - a), d - a, b - d, "right_of(sub)"); }
    PBT_CHECK(!x.is_sub(V()) && !V().overlaps(x) && !x.overlaps(V()) && !V().is_super(x));
}
PBT_TEST(positions, 4)
{
    const char *al = strgen::alphabet(s); std::string t = s.stretch(s.str(s.chance(1, 4) ? 80 : 24, al)); strgen::View tv(t, 'a', false); size_t p[4]; for(auto &x : p) x = s.range(0, t.size()); std::sort(p, p + 2); std::sort(p + 2, p + 4);
    s.note(strf("%s [%zu,%zu) [%zu,%zu)", shown(t).c_str(), p[0], p[1], p[2], p[3])); if(!t.empty()) s.nontrivial(t + strf("%zu %zu %zu %zu", p[0], p[1], p[2], p[3]));
    positions<csubstr>(tv.c(), t, p[0], p[1]); positions<substr>(tv.m(), t, p[0], p[1]); relations<csubstr>(tv.c(), t, p[0], p[1], p[2], p[3]); relations<substr>(tv.m(), t, p[0], p[1], p[2], p[3]);
}
template<class V> static void trims(V v, std::string const& t, csubstr p, std::string const& ps, char c)
{
    auto lead = [&](std::string const& set) { size_t i = 0; while(i < t.size() && set.find(t[i]) != std::string::npos) ++i; return i; };
    auto trail = [&](std::string const& set) { size_t i = t.size(); while(i > 0 && set.find(t[i-1]) != std::string::npos) --i; return i; };
    std::string cs(1, c); size_t L = t.size(), lc = lead(cs), rc = trail(cs), lp = lead(ps), rp = trail(ps);
    T(v.triml(c), lc, L - lc); T(v.triml(p), lp, L - lp); T(v.trimr(c), 0, rc); T(v.trimr(p), 0, rp);
    T(v.trim(c), lc, rc > lc ? rc - lc : 0); T(v.trim(p), lp, rp > lp ? rp - lp : 0);
    bool b = L >= ps.size() && t.compare(0, ps.size(), ps) == 0, e = L >= ps.size() && t.compare(L - ps.size(), ps.size(), ps) == 0;
    T(v.stripl(p), b ? ps.size() : 0, b ? L - ps.size() : L); T(v.stripr(p), 0, e ? L - ps.size() : L);
    bool q = L >= 2 && (t[0] == '"' || t[0] == '\'') && t[L-1] == t[0] && t[L-2] != '\\';
    T(v.unquoted(), q ? 1 : 0, q ? L - 2 : L);
}
PBT_TEST(trimming, 4)
{
    const char *al = strgen::alphabet(s); std::string t = s.stretch(s.str(s.chance(1, 4) ? 80 : 20, al)); if(s.chance(1, 4)) { char q = s.coin() ? '"' : '\''; t = (s.chance(1, 8) ? std::string() : std::string(1, q)) + t + (s.chance(1, 4) ? "\\" : "") + q; }
    std::string p = s.coin() ? strgen::pattern(s, t, al, t.size() > 200 ? 600 : 5) : (s.coin() ? t.substr(0, std::min<size_t>(t.size(), s.draw(6))) : t.substr(t.size() - std::min<size_t>(t.size(), s.draw(6)))); char c = strgen::chr(s, t, al); if(!t.empty() && s.coin()) c = s.coin() ? t[0] : t.back();
    s.note(strf("%s chars %s / %s", shown(t).c_str(), shown(p).c_str(), shown(std::string(1, c)).c_str())); if(t.size() > 1) s.nontrivial(t + "|" + p + c);
    strgen::View tv(t, s.coin() ? c : '"', s.coin()), pv(p, c, s.coin());
    trims<csubstr>(tv.c(), t, pv.c(), p, c); trims<substr>(tv.m(), t, pv.c(), p, c);
    PBT_CHECK(tv.b.str() == t);
}
PBT_ENUM(small_scope, 364 * 13)
{   // every text over {a,b,"} up to 5 characters, every pattern up to 2
    size_t k = s.draw(364 * 13); auto dec = [](size_t i){ size_t L = 0, n = 1; while(i >= n) { i -= n; n *= 3; ++L; } std::string r; for(size_t j = 0; j < L; ++j) { r += "ab\""[i % 3]; i /= 3; } return r; };
    std::string t = dec(k / 13), p = dec(k % 13); s.note(shown(t) + " " + shown(p)); s.nontrivial(t + "|" + p); strgen::View tv(t, 'a', false), pv(p, 'a', false);
    for(char c : {'a', 'b', '"'}) trims<csubstr>(tv.c(), t, pv.c(), p, c);
    if(k % 13 == 0) for(size_t a = 0; a <= t.size(); ++a) for(size_t b = a; b <= t.size(); ++b) { positions<csubstr>(tv.c(), t, a, b); for(size_t c = 0; c <= t.size(); ++c) for(size_t d = c; d <= t.size(); ++d) relations<csubstr>(tv.c(), t, a, b, c, d); }
}
#ifndef NDEBUG
// checked builds: a request outside the string is reported, it does not give a view outside of it
PBT_TEST(out_of_range, 1)
{
    std::string t = s.str(10, "ab"); strgen::View tv(t, 'a', false); csubstr v = tv.c(); size_t L = t.size(), over = L + 1 + (s.coin() ? s.draw(4) : s.draw(1000)), a = s.range(0, L); s.note(strf("%s position %zu beyond its end", shown(t).c_str(), over)); s.nontrivial(strf("%zu %zu %zu", L, over, a)); csubstr r;
    #define BAD(expr) PBT_CHECKM(raises([&]{ r = (expr); }), "%s on %s gave [%zd,+%zu) instead of an error", #expr, shown(t).c_str(), (ssize_t)(r.str - v.str), r.len)
    BAD(v.sub(over)); BAD(v.sub(a, over - a)); BAD(v.sub(over, 0)); BAD(v.range(a, over)); BAD(v.range(over)); BAD(v.first(over)); BAD(v.last(over)); BAD(v.offs(a, over - a)); BAD(v.offs(over, 0)); BAD(v.offs(0, over));
    BAD(v.left_of(over)); BAD(v.right_of(over)); BAD(v.left_of(over, false)); BAD(v.right_of(over, true)); BAD(v.right_of(L)); BAD(v.right_of(L, false)); BAD(v.left_of(L, true));
    if(a > 0) BAD(v.range(a, a - 1));
    char c = 0; PBT_CHECK(raises([&]{ c = v[over - 1]; })); if(L == 0) { PBT_CHECK(raises([&]{ c = v.front(); })); PBT_CHECK(raises([&]{ c = v.back(); })); } (void)c;
}
#endif
// views longer than 32 bits can count
template<class V> static void big(Src &s, V v)
{
    std::string t("(a view of " + std::to_string(v.len) + " characters)"); size_t L = v.len, a = huge::pos(s, L), b = huge::pos(s, L); if(a > b) std::swap(a, b); s.note(strf("length %zu, positions %zu %zu", L, a, b)); s.nontrivial(strf("%zu %zu %zu", L, a, b));
    P(v.sub(a), a, L - a); P(v.sub(a, b - a), a, b - a); P(v.range(a, b), a, b - a); P(v.range(a), a, L - a); P(v.first(a), 0, a); P(v.last(a), L - a, a); P(v.offs(a, L - b), a, b - a); P(v.left_of(a), 0, a); P(v.right_of(a, true), a, L - a); if(a < L) { P(v.left_of(a, true), 0, a + 1); P(v.right_of(a), a + 1, L - a - 1); PBT_CHECK(&v[a] == v.str + a && &v.back() == v.str + (L - 1)); }
    V m = v.range(a, b), o = v.range(b); P(v.left_of(m), 0, a); P(v.right_of(m), b, L - b); PBT_CHECK(m.is_sub(v) && v.is_super(m) && (m.len == L || m.len == 0 || !m.is_super(v)) && v.overlaps(m) == (m.len != 0) && !m.overlaps(o) && v.size() == L && v.end() == v.begin() + L && (size_t)(v.end() - v.begin()) == L);
    huge::Watch w; if(w.spent()) { s.label("time for long scans spent"); return; }
    char *c = const_cast<char*>(v.str); { huge::Put p(c, "  ab/cd"), q(c + L - 18, "/dir.x/file.ext  "), e(c + L - 1, " ");
    P(v.triml(' '), 2, L - 2); P(v.trimr(' '), 0, L - 3); P(v.trim(' '), 2, L - 5); P(v.trim(" b"), 2, L - 5); P(v.stripl("  a"), 3, L - 3); P(v.stripr("t   "), 0, L - 4); PBT_CHECK(v.begins_with("  ab") && v.ends_with("ext   ") && v.begins_with_any(" ") && v.ends_with_any(" ") && v.first_not_of(' ') == 2 && v.last_not_of(' ') == L - 4 && v.last_of('/') == L - 12 && v.find('a', 1) == 2 && v.last_of("x.") == L - 5);
    V f = v.trimr(' '); text<V>(f, f.basename(), t, L - 11, 8, "basename"); text<V>(f, f.dirname(), t, 0, L - 11, "dirname"); text<V>(f, f.extshort(), t, L - 6, 3, "extshort"); text<V>(f, f.pop_right('/'), t, L - 11, 8, "pop_right"); text<V>(f, f.gpop_left('/'), t, 0, L - 12, "gpop_left"); text<V>(f, f.pop_left('/'), t, 0, 4, "pop_left"); text<V>(f, f.gpop_right('/'), t, 5, L - 8, "gpop_right"); }
    { huge::Put p(c, "'"), q(c + L - 1, "'"); P(v.unquoted(), 1, L - 2); }
}
PBT_TEST(huge_views, 1)
{
    char *m = huge::region(); if(!m) { s.label("no large region"); return; } size_t L = huge::size(s, 33, 4); if(s.coin()) big<csubstr>(s, csubstr(m, L)); else big<substr>(s, substr(m, L));
}
