// P13: string-view searching agrees with the plain definition
#include "huge.hpp"
#include "strgen.hpp"
using namespace c4; using namespace pbt;
static const size_t N = (size_t)-1;
static bool in(std::string const& set, char c) { return set.find(c) != std::string::npos; }
static size_t m_find(std::string const& t, std::string const& p, size_t start)
{
    for(size_t i = start; i <= t.size() && p.size() <= t.size() - i; ++i) { size_t j = 0; while(j < p.size() && t[i+j] == p[j]) ++j; if(j == p.size()) return i; }
    return N;
}
static size_t m_first(std::string const& t, std::string const& set, size_t start, bool want) { for(size_t i = start; i < t.size(); ++i) if(in(set, t[i]) == want) return i; return N; }
static size_t m_last(std::string const& t, std::string const& set, size_t end, bool want) { size_t i = end == N ? t.size() : end; while(i-- > 0) if(in(set, t[i]) == want) return i; return N; }
static size_t m_count(std::string const& t, std::string const& p, size_t start) { size_t n = 0, i = start; while((i = m_find(t, p, i)) != N) { ++n; i += p.size(); } return n; }
#define EQ(expr, expected) do { size_t got_ = (expr), exp_ = (expected); PBT_CHECKM(got_ == exp_, "%s on %s gave %zd, expected %zd", #expr, shown(t).c_str(), (ssize_t)got_, (ssize_t)exp_); } while(0)
#define EQB(expr, expected) do { bool got_ = (expr), exp_ = (expected); PBT_CHECKM(got_ == exp_, "%s on %s gave %d", #expr, shown(t).c_str(), (int)got_); } while(0)
template<class V> static void is_part(V whole, V got, std::string const& t, size_t pos, size_t n, const char *what)
{
    if(pos == N) { PBT_CHECKM(got.len == 0, "%s on %s gave %zu characters, expected none", what, shown(t).c_str(), got.len); return; }
    PBT_CHECKM(got.str == whole.str + pos && got.len == n, "%s on %s gave [%zd,+%zu), expected [%zu,+%zu)", what, shown(t).c_str(), (ssize_t)(got.str - whole.str), got.len, pos, n);
}
template<class V> static void all_searches(V v, csubstr p, std::string const& t, std::string const& ps, char c, size_t start, size_t end, size_t num)
{
    std::string cs(1, c);
    EQ(v.find(p, start), m_find(t, ps, start)); EQ(v.find(c, start), m_find(t, cs, start)); EQ(v.find(p), m_find(t, ps, 0)); EQ(v.find(c), m_find(t, cs, 0));
    EQ(v.find(p, V::npos), N); EQ(v.find(c, V::npos), N); EQ(v.first_of(c, V::npos), N); EQ(v.first_of(p, V::npos), N);
    EQ(v.count(c, start), m_count(t, cs, start)); EQ(v.count(c), m_count(t, cs, 0));
    if(!ps.empty()) { EQ(v.count(p, start), m_count(t, ps, start)); EQ(v.count(p), m_count(t, ps, 0)); }
    is_part(v, v.select(c, start), t, m_find(t, cs, start), 1, "select(char)"); is_part(v, v.select(p, start), t, m_find(t, ps, start), ps.size(), "select(pattern)");
    is_part(v, v.select(c), t, m_find(t, cs, 0), 1, "select(char)"); is_part(v, v.select(p), t, m_find(t, ps, 0), ps.size(), "select(pattern)");
    EQ(v.first_of(c, start), m_first(t, cs, start, true)); EQ(v.first_of(p, start), m_first(t, ps, start, true)); EQ(v.first_of(c), m_first(t, cs, 0, true)); EQ(v.first_of(p), m_first(t, ps, 0, true));
    EQ(v.last_of(c, end), m_last(t, cs, end, true)); EQ(v.last_of(p, end), m_last(t, ps, end, true)); EQ(v.last_of(c), m_last(t, cs, N, true)); EQ(v.last_of(p), m_last(t, ps, N, true));
    EQ(v.last_of(c, V::npos), m_last(t, cs, N, true)); EQ(v.last_of(p, V::npos), m_last(t, ps, N, true));
    EQ(v.first_not_of(c), m_first(t, cs, 0, false)); EQ(v.first_not_of(c, start), m_first(t, cs, start, false)); EQ(v.first_not_of(p), m_first(t, ps, 0, false)); EQ(v.first_not_of(p, start), m_first(t, ps, start, false));
    EQ(v.last_not_of(c), m_last(t, cs, N, false)); EQ(v.last_not_of(c, end), m_last(t, cs, end, false)); EQ(v.last_not_of(p), m_last(t, ps, N, false)); EQ(v.last_not_of(p, end), m_last(t, ps, end, false));
    EQ(v.last_not_of(c, V::npos), m_last(t, cs, N, false)); EQ(v.last_not_of(p, V::npos), m_last(t, ps, N, false));
    EQB(v.begins_with(c), !t.empty() && t[0] == c); EQB(v.ends_with(c), !t.empty() && t.back() == c);
    EQB(v.begins_with(p), t.size() >= ps.size() && t.compare(0, ps.size(), ps) == 0); EQB(v.ends_with(p), t.size() >= ps.size() && t.compare(t.size() - ps.size(), ps.size(), ps) == 0);
    EQB(v.begins_with(c, num), t.size() >= num && t.compare(0, num, std::string(num, c)) == 0); EQB(v.ends_with(c, num), t.size() >= num && t.compare(t.size() - num, num, std::string(num, c)) == 0);
    EQB(v.begins_with_any(p), !t.empty() && in(ps, t[0])); EQB(v.ends_with_any(p), !t.empty() && in(ps, t.back()));
}
static void both(strgen::View const& tv, strgen::View const& pv, std::string const& t, std::string const& p, char c, size_t start, size_t end, size_t num)
{
    all_searches<csubstr>(tv.c(), pv.c(), t, p, c, start, end, num);
    all_searches<substr>(tv.m(), pv.c(), t, p, c, start, end, num);
    PBT_CHECKM(tv.b.str() == t && pv.b.str() == p, "a search changed %s or %s", shown(t).c_str(), shown(p).c_str());
}
PBT_TEST(search, 6)
{
    const char *al = strgen::alphabet(s); std::string t = s.stretch(s.str(s.chance(1, 50) ? 300 : s.chance(1, 4) ? 70 : 24, al)), p = strgen::pattern(s, t, al, t.size() > 200 && s.coin() ? 300 : s.chance(1, 8) ? 40 : 6); char c = strgen::chr(s, t, al);
    size_t start = s.range(0, t.size()), end = s.range(0, t.size()), num = s.range(0, std::min<size_t>(t.size() + 2, 8)); if(t.size() && s.chance(1, 4)) { num = s.range(0, t.size()); }
    s.note(strf("text=%s pattern=%s char=%s start=%zu end=%zu num=%zu", shown(t).c_str(), shown(p).c_str(), shown(std::string(1, c)).c_str(), start, end, num)); if(t.size() >= 2 && !p.empty()) s.nontrivial(t + "|" + p + strf("|%zu %zu", start, end));
    // the bytes next to the views would complete or extend a match
    char guard = s.coin() ? c : (p.empty() ? 'a' : p[s.draw(p.size())]);
    both(strgen::View(t, guard, s.coin()), strgen::View(p, guard, s.coin()), t, p, c, start, end, num);
}
// every text over {a,b} up to 6 characters x every pattern over {a,b} up to 3
PBT_ENUM(small_scope, 127 * 15)
{
    size_t k = s.draw(127 * 15); auto dec = [](size_t i){ size_t L = 0; while(i >= ((size_t)1 << L)) { i -= (size_t)1 << L; ++L; } std::string r(L, 'a'); for(size_t j = 0; j < L; ++j) if(i >> j & 1) r[j] = 'b'; return r; };
    std::string t = dec(k / 15), p = dec(k % 15); s.note(shown(t) + " " + shown(p)); s.nontrivial(t + "|" + p);
    for(char g = 'a'; g <= 'b'; ++g) {
        strgen::View tv(t, g, false), pv(p, g, false);
        for(size_t st = 0; st <= t.size(); ++st) for(char c = 'a'; c <= 'b'; ++c) both(tv, pv, t, p, c, st, st, st);
    }
}
PBT_TEST(any_of_several, 2)
{
    const char *al = strgen::alphabet(s); std::string t = s.stretch(s.str(20, al), 5000); size_t n = s.range(2, 5); std::vector<std::string> ps; std::vector<strgen::View*> vs; std::vector<csubstr> cs; std::string d;
    for(size_t i = 0; i < n; ++i) { std::string p = strgen::pattern(s, t, al, 4); if(p.empty()) p = "a"; ps.push_back(p); vs.push_back(new strgen::View(p, 'a', false)); cs.push_back(vs.back()->c()); d += shown(p) + " "; }
    strgen::View tv(t, ps[0][0], s.coin()); s.note(shown(t) + " any of " + d); if(!t.empty()) s.nontrivial(t + d);
    size_t which = N, pos = N;
    for(size_t i = 0; i < t.size() && pos == N; ++i) for(size_t k = 0; k < n; ++k) if(t.compare(i, ps[k].size(), ps[k]) == 0) { which = k; pos = i; break; }
    csubstr v = tv.c(); auto chk = [&](size_t w, size_t p, bool b, const char *what) { PBT_CHECKM(w == which && p == pos && b == (pos != N), "%s: which=%zd pos=%zd bool=%d, expected which=%zd pos=%zd; text %s any of %s", what, (ssize_t)w, (ssize_t)p, b, (ssize_t)which, (ssize_t)pos, shown(t).c_str(), d.c_str()); };
    { auto r = v.first_of_any_iter(cs.begin(), cs.end()); chk(r.which, r.pos, (bool)r, "first_of_any_iter"); }
    { auto r = tv.m().first_of_any_iter(cs.data(), cs.data() + n); chk(r.which, r.pos, (bool)r, "first_of_any_iter"); }
    if(n == 2) { auto r = v.first_of_any(cs[0], cs[1]); chk(r.which, r.pos, (bool)r, "first_of_any/2"); }
    if(n == 3) { auto r = v.first_of_any(cs[0], cs[1], cs[2]); chk(r.which, r.pos, (bool)r, "first_of_any/3"); }
    if(n == 4) { auto r = v.first_of_any(cs[0], cs[1], cs[2], cs[3]); chk(r.which, r.pos, (bool)r, "first_of_any/4"); }
    if(n == 5) { auto r = v.first_of_any(cs[0], cs[1], cs[2], cs[3], cs[4]); chk(r.which, r.pos, (bool)r, "first_of_any/5"); }
    for(auto *p : vs) delete p;
}
PBT_TEST(brackets, 3)
{
    bool bytes = s.chance(1, 4); char o = bytes ? (char)s.draw(256) : "([{<"[s.draw(4)], c = bytes ? (char)s.draw(256) : ")]}>"[s.draw(4)]; if(o == c) c = (char)(o + 1);
    std::string al; al += o; al += c; al += 'x'; std::string t; size_t n = s.len(24); for(size_t i = 0; i < n; ++i) t += al[s.draw(3)]; if(s.chance(1, 48)) { size_t d = s.edge_size(70000), m = d + (size_t)s.draw(3) - 1; t = std::string(d, o) + t + std::string(m, c) + t; } else t = s.stretch(t);
    s.note(strf("%s open %s close %s", shown(t).c_str(), shown(std::string(1, o)).c_str(), shown(std::string(1, c)).c_str())); if(n > 2) s.nontrivial(t);
    strgen::View tv(t, c, s.coin());
    size_t b = N, e = N, depth = 0;
    for(size_t i = 0; i < t.size(); ++i) { if(t[i] == o) { if(b == N) b = i; else ++depth; } else if(t[i] == c && b != N) { if(depth == 0) { e = i; break; } --depth; } }
    is_part(tv.c(), tv.c().pair_range_nested(o, c), t, e == N ? N : b, e - b + 1, "pair_range_nested"); is_part(tv.m(), tv.m().pair_range_nested(o, c), t, e == N ? N : b, e - b + 1, "pair_range_nested");
    // plain pairs: first open up to the next close; nesting in between is a caller error
    size_t b1 = t.find(o), e1 = b1 == std::string::npos ? std::string::npos : t.find(c, b1 + 1);
    bool nested = e1 != std::string::npos && t.substr(b1 + 1, e1 - b1 - 1).find(o) != std::string::npos;
    if(!nested) { bool none = b1 == std::string::npos || e1 == std::string::npos; is_part(tv.c(), tv.c().pair_range(o, c), t, none ? N : b1, e1 - b1 + 1, "pair_range"); is_part(tv.m(), tv.m().pair_range(o, c), t, none ? N : b1, e1 - b1 + 1, "pair_range"); }
}
PBT_TEST(quotes, 2)
{
    char q = s.coin() ? '"' : (s.coin() ? '\'' : '|'), esc = s.coin() ? '\\' : '^'; std::string al; al += q; al += esc; al += 'x'; std::string t; size_t n = s.len(20); for(size_t i = 0; i < n; ++i) t += al[s.draw(3)]; t = s.stretch(t);
    s.note(strf("%s quote %c escape %c", shown(t).c_str(), q, esc)); if(n > 2) s.nontrivial(t); strgen::View tv(t, q, s.coin());
    auto model = [&](char es, size_t *b, size_t *len) { *b = N; size_t i = t.find(q); if(i == std::string::npos) return; for(size_t j = i + 1; j < t.size(); ++j) if(t[j] == q && t[j-1] != es) { *b = i; *len = j - i + 1; return; } };
    size_t b, len = 0; model(esc, &b, &len); { csubstr v = tv.c(); is_part(v, v.pair_range_esc(q, esc), t, b, len, "pair_range_esc"); } { substr v = tv.m(); is_part(v, v.pair_range_esc(q, esc), t, b, len, "pair_range_esc"); }
    model('\\', &b, &len); { csubstr v = tv.c(); is_part(v, v.pair_range_esc(q), t, b, len, "pair_range_esc (default escape)"); }
}
// results and starting positions that 32 bits cannot hold
template<class V> static void far(Src &s, V v, size_t p)
{
    std::string t(strf("(a view of %zu characters)", v.len)); char *c = const_cast<char*>(v.str); { huge::Put put(c + p, "..ab,ab-a.;b..."); size_t a = p + s.draw(3);
    EQ(v.find('a', a), p + 2); EQ(v.find("ab", a), p + 2); EQ(v.find("ab-", a), p + 5); EQ(v.find("ab", p + 3), p + 5); EQ(v.find(";b", a), p + 10); EQ(v.first_of(',', a), p + 4); EQ(v.first_of("-,", a), p + 4); EQ(v.first_of("-;", a), p + 7); EQ(v.first_not_of('.', a), p + 2); EQ(v.first_not_of("ab.", a), p + 4);
    EQ(v.last_of('b', p + 9), p + 6); EQ(v.last_of(",-", p + 12), p + 7); EQ(v.last_not_of('.', p + 15), p + 11); EQ(v.last_not_of("b;.", p + 15), p + 8);
    is_part(v, v.select("ab", p + 3), t, p + 5, 2, "select"); is_part(v, v.select(';', a), t, p + 10, 1, "select");
    if(p + 15 == v.len) { EQ(v.count('b', a), 3); EQ(v.count("ab", a), 2); } }
}
PBT_TEST(huge_positions, 1)
{
    char *m = huge::region(); huge::Watch w; if(!m || w.spent()) { s.label("no large region"); return; } size_t L = huge::size(s, 33), p = std::min(huge::pos(s, L), L - 16); if(s.coin()) p = L - 15; s.note(strf("text at %zu of %zu", p, L)); s.nontrivial(strf("%zu %zu", L, p)); if(s.coin()) far<csubstr>(s, csubstr(m, L), p); else far<substr>(s, substr(m, L), p);
}
