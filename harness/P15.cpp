// P15: splitting and path handling enumerate every piece exactly once in order
#include "strgen.hpp"
using namespace c4; using namespace pbt;
typedef std::vector<std::pair<size_t,size_t>> Pieces; // offset, length
static Pieces pieces_of(std::string const& t, char sep, size_t start)
{
    Pieces r; if(t.empty()) return r;
    size_t b = start; for(size_t i = start; i < t.size(); ++i) if(t[i] == sep) { r.emplace_back(b, i - b); b = i + 1; }
    r.emplace_back(b, t.size() - b); return r;
}
template<class V> static void splits(V v, std::string const& t, char sep, size_t start)
{
    Pieces exp = pieces_of(t, sep, start), got; size_t limit = exp.size() + 3;
    { size_t pos = start; V out; while(got.size() < limit && v.next_split(sep, &pos, &out)) { got.emplace_back((size_t)(out.str - v.str), out.len); } PBT_CHECKM(got == exp, "next_split of %s by %s from %zu gave %zu pieces, expected %zu", shown(t).c_str(), shown(std::string(1, sep)).c_str(), start, got.size(), exp.size()); }
    got.clear(); auto sp = v.split(sep, start); for(auto it = sp.begin(), e = sp.end(); it != e && got.size() < limit; ++it) { PBT_CHECK(!(it == e)); got.emplace_back((size_t)((*it).str - v.str), it->len); }
    PBT_CHECKM(got == exp, "split of %s by %s from %zu gave %zu pieces, expected %zu", shown(t).c_str(), shown(std::string(1, sep)).c_str(), start, got.size(), exp.size());
    got.clear(); for(V p : v.split(sep, start)) { got.emplace_back((size_t)(p.str - v.str), p.len); if(got.size() > limit) break; } PBT_CHECKM(got == exp, "range-for over split of %s by %s from %zu gave %zu pieces, expected %zu", shown(t).c_str(), shown(std::string(1, sep)).c_str(), start, got.size(), exp.size());
    got.clear(); auto it = sp.begin(); for(size_t i = 0; i < exp.size(); ++i) { auto prev = it++; got.emplace_back((size_t)((*prev).str - v.str), (*prev).len); } PBT_CHECKM(got == exp && it == sp.end(), "post-incremented split of %s by %s from %zu", shown(t).c_str(), shown(std::string(1, sep)).c_str(), start);
    if(start == 0 && !t.empty()) { std::string j; for(size_t i = 0; i < exp.size(); ++i) { if(i) j += sep; j += t.substr(got[i].first, got[i].second); } PBT_CHECK(j == t); got.clear(); for(V p : v.split(sep)) { got.emplace_back((size_t)(p.str - v.str), p.len); if(got.size() > limit) break; } PBT_CHECK(got == exp); }
}
struct R { size_t b, n; };
template<class V> static void same(V v, V got, std::string const& t, R e, const char *what, char sep)
{
    bool ok = e.n ? (got.str == v.str + e.b && got.len == e.n) : got.len == 0 && (got.str == nullptr || (got.str >= v.str && got.str <= v.str + v.len));
    PBT_CHECKM(ok, "%s of %s by %s gave %s, expected %s", what, shown(t).c_str(), shown(std::string(1, sep)).c_str(), shown(std::string(got.str ? got.str : "", got.len)).c_str(), shown(t.substr(e.b, e.n)).c_str());
}
static R m_pop_right(std::string const& t, char sep, bool skip)
{
    size_t L = t.size(), end = L; if(skip) { while(end > 0 && t[end-1] == sep) --end; if(end == 0) return R{0, 0}; }
    size_t b = end; while(b > 0 && t[b-1] != sep) --b; return R{b, L - b};
}
static R m_gpop_left(std::string const& t, char sep, bool skip)
{
    R r = m_pop_right(t, sep, skip); if(r.n == 0 && skip) return R{0, 0};
    size_t e = r.b; if(skip) { while(e > 0 && t[e-1] == sep) --e; } else if(e > 0) --e; return R{0, e};
}
static R m_pop_left(std::string const& t, char sep, bool skip)
{
    size_t L = t.size(), b = 0; if(skip) { while(b < L && t[b] == sep) ++b; if(b == L) return R{0, 0}; }
    size_t e = b; while(e < L && t[e] != sep) ++e; return R{0, e};
}
static R m_gpop_right(std::string const& t, char sep, bool skip)
{
    R r = m_pop_left(t, sep, skip); size_t L = t.size(); if(r.n == 0 && skip) { bool all = t.find_first_not_of(sep) == std::string::npos; if(all) return R{0, 0}; }
    size_t b = r.n; if(skip) { while(b < L && t[b] == sep) ++b; } else if(b < L) ++b; return R{b, L - b};
}
template<class V> static void pops(V v, std::string const& t, char sep)
{
    for(int k = 0; k < 2; ++k) { bool skip = k; const char *w = skip ? " (skip empty)" : "";
        same<V>(v, v.pop_right(sep, skip), t, m_pop_right(t, sep, skip), (std::string("pop_right") + w).c_str(), sep); same<V>(v, v.pop_left(sep, skip), t, m_pop_left(t, sep, skip), (std::string("pop_left") + w).c_str(), sep);
        same<V>(v, v.gpop_right(sep, skip), t, m_gpop_right(t, sep, skip), (std::string("gpop_right") + w).c_str(), sep); same<V>(v, v.gpop_left(sep, skip), t, m_gpop_left(t, sep, skip), (std::string("gpop_left") + w).c_str(), sep);
    }
    size_t e = t.size(); while(e > 0 && t[e-1] == sep) --e; size_t b = e; while(b > 0 && t[b-1] != sep) --b;
    same<V>(v, v.basename(sep), t, R{b, e - b}, "basename", sep); same<V>(v, v.dirname(sep), t, e == 0 ? R{0, t.size()} : R{0, b}, "dirname", sep);
}
template<class V> static void paths(V v, std::string const& t)
{
    same<V>(v, v.extshort(), t, m_pop_right(t, '.', false), "extshort", '.'); same<V>(v, v.extlong(), t, m_gpop_right(t, '.', false), "extlong", '.');
    same<V>(v, v.name_wo_extshort(), t, m_gpop_left(t, '.', false), "name_wo_extshort", '.'); same<V>(v, v.name_wo_extlong(), t, m_pop_left(t, '.', false), "name_wo_extlong", '.');
    same<V>(v, v.pop_right(), t, m_pop_right(t, '/', false), "pop_right (default)", '/'); same<V>(v, v.pop_left(), t, m_pop_left(t, '/', false), "pop_left (default)", '/');
    same<V>(v, v.gpop_right(), t, m_gpop_right(t, '/', false), "gpop_right (default)", '/'); same<V>(v, v.gpop_left(), t, m_gpop_left(t, '/', false), "gpop_left (default)", '/');
    size_t e = t.size(); while(e > 0 && t[e-1] == '/') --e; size_t b = e; while(b > 0 && t[b-1] != '/') --b; same<V>(v, v.basename(), t, R{b, e - b}, "basename (default)", '/'); same<V>(v, v.dirname(), t, e == 0 ? R{0, t.size()} : R{0, b}, "dirname (default)", '/');
}
PBT_TEST(split, 4)
{
    const char *al = strgen::alphabet(s); std::string t = s.stretch(s.str(s.chance(1, 40) ? 200 : s.chance(1, 4) ? 70 : 20, al)); char sep = strgen::chr(s, t, al); size_t start = s.coin() || t.empty() ? 0 : s.draw(t.size()); s.note(strf("%s sep %s from %zu", shown(t).c_str(), shown(std::string(1, sep)).c_str(), start)); if(t.size() > 1) s.nontrivial(t + sep + strf("%zu", start));
    strgen::View tv(t, sep, s.coin()); splits<csubstr>(tv.c(), t, sep, start); splits<substr>(tv.m(), t, sep, start); PBT_CHECK(tv.b.str() == t);
}
PBT_TEST(pop_and_path, 4)
{
    const char *al = strgen::alphabet(s); if(s.coin()) al = "/.ab"; std::string t = s.stretch(s.str(s.chance(1, 4) ? 80 : 20, al)); char sep = strgen::chr(s, t, al); s.note(strf("%s sep %s", shown(t).c_str(), shown(std::string(1, sep)).c_str())); if(t.size() > 1) s.nontrivial(t + sep);
    strgen::View tv(t, s.coin() ? sep : '.', s.coin()); pops<csubstr>(tv.c(), t, sep); pops<substr>(tv.m(), t, sep); paths<csubstr>(tv.c(), t); paths<substr>(tv.m(), t);
}
PBT_ENUM(small_scope, 3280)
{   // every text over {a,/,.} up to 7 characters
    size_t i = s.draw(3280); size_t L = 0, n = 1; while(i >= n) { i -= n; n *= 3; ++L; } std::string t; for(size_t j = 0; j < L; ++j) { t += "/a."[i % 3]; i /= 3; } s.note(shown(t)); s.nontrivial(t);
    strgen::View tv(t, '/', false); paths<csubstr>(tv.c(), t); for(char sep : {'/', '.', 'b'}) { pops<csubstr>(tv.c(), t, sep); for(size_t st = 0; st < std::max<size_t>(1, L); ++st) splits<csubstr>(tv.c(), t, sep, st); }
}
