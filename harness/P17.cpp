// P17: in-place editing changes exactly the addressed characters
#include "huge.hpp"
#include "strgen.hpp"
using namespace c4; using namespace pbt;
/** the view is the middle of a larger live buffer, whose other characters must survive */
struct Ed { std::string pre, post; Buf b; Ed(std::string const& p, std::string const& t, std::string const& q) : pre(p), post(q), b(p + t + q, 'a') {} substr v(size_t n) { return substr(b.ptr + pre.size(), n); }
    void expect(std::string const& t, std::string const& orig, const char *what) { std::string e = pre + t + post; PBT_CHECKM(b.str() == e, "%s on %s left %s, expected %s", what, shown(orig).c_str(), shown(b.str()).c_str(), shown(e).c_str()); b.check(what); } };
static std::string surround(Src &s) { return s.coin() ? std::string() : s.str(3, "ab"); }
PBT_TEST(edits, 6)
{
    const char *al = strgen::alphabet(s); std::string t = s.stretch(s.str(s.chance(1, 4) ? 80 : 24, al)), e = t; Ed d(surround(s), t, surround(s)); substr v = d.v(t.size()); size_t L = t.size(), a = s.range(0, L), b = s.range(a, L); if(t.size() > 1) s.nontrivial(t + strf(" %zu %zu ", a, b));
    size_t op = s.draw(13); s.nontrivial(op);
    switch(op) {
    case 0: { char c = strgen::chr(s, t, al); s.note("fill " + shown(t)); v.fill(c); e.assign(L, c); d.expect(e, t, "fill"); break; }
    case 1: s.note("reverse " + shown(t)); v.reverse(); std::reverse(e.begin(), e.end()); d.expect(e, t, "reverse"); break;
    case 2: s.note(strf("reverse_sub %s %zu %zu", shown(t).c_str(), a, b - a)); v.reverse_sub(a, b - a); std::reverse(e.begin() + a, e.begin() + b); d.expect(e, t, "reverse_sub"); break;
    case 3: s.note(strf("reverse_range %s %zu %zu", shown(t).c_str(), a, b)); v.reverse_range(a, b); std::reverse(e.begin() + a, e.begin() + b); d.expect(e, t, "reverse_range"); break;
    case 4: s.note("toupper " + shown(t)); v.toupper(); for(auto &c : e) if(c >= 'a' && c <= 'z') c = (char)(c - 32); d.expect(e, t, "toupper"); break;
    case 5: s.note("tolower " + shown(t)); v.tolower(); for(auto &c : e) if(c >= 'A' && c <= 'Z') c = (char)(c + 32); d.expect(e, t, "tolower"); break;
    case 6: case 7: case 8: {
        size_t n = b - a; s.note(strf("erase %s [%zu,%zu)", shown(t).c_str(), a, b)); substr r; const char *w;
        if(op == 6) { r = v.erase(a, n); w = "erase(pos,num)"; } else if(op == 7) { r = v.erase_range(a, b); w = "erase_range"; } else { if(L == 0) break; r = v.erase(csubstr(v.str + a, n)); w = "erase(sub)"; }
        e.erase(a, n); PBT_CHECKM(r.str == v.str && r.len == L - n && std::string(r.str, r.len) == e, "%s on %s [%zu,%zu) returned %s, expected %s", w, shown(t).c_str(), a, b, shown(std::string(r.str, r.len)).c_str(), shown(e).c_str());
        // the vacated tail is unspecified; everything outside the view must be intact
        std::string all = d.b.str(); PBT_CHECKM(all.substr(0, d.pre.size()) == d.pre && all.substr(d.pre.size() + L) == d.post, "%s on %s [%zu,%zu) changed characters outside the view", w, shown(t).c_str(), a, b); d.b.check(w); break; }
    case 9: { char c = strgen::chr(s, t, al), r = s.coin() ? c : strgen::chr(s, t, al); bool def = s.coin(); size_t from = def ? 0 : a; s.note(strf("replace %s %d->%d from %zu", shown(t).c_str(), c, r, from)); size_t n = 0; for(size_t i = from; i < L; ++i) if(e[i] == c) { e[i] = r; ++n; } size_t g = def ? v.replace(c, r) : v.replace(c, r, from); PBT_CHECKM(g == n, "replace(char) on %s returned %zu, expected %zu", shown(t).c_str(), g, n); d.expect(e, t, "replace(char)"); PBT_CHECK(v.replace(c, r, substr::npos) == 0); d.expect(e, t, "replace(char, npos)"); break; }
    case 10: { std::string set = strgen::pattern(s, t, al, 4); char r = strgen::chr(s, t, al); bool def = s.coin(); size_t from = def ? 0 : a; strgen::View sv(set, 'a', s.coin()); s.note(strf("replace any of %s in %s with %d from %zu", shown(set).c_str(), shown(t).c_str(), r, from)); size_t n = 0; for(size_t i = from; i < L; ++i) if(set.find(e[i]) != std::string::npos) { e[i] = r; ++n; } size_t g = def ? v.replace(sv.c(), r) : v.replace(sv.c(), r, from); PBT_CHECKM(g == n, "replace(chars) on %s returned %zu, expected %zu", shown(t).c_str(), g, n); d.expect(e, t, "replace(chars)"); break; }
    default: { std::string src = s.stretch(s.str(30, al)); strgen::View sv(src, 'a', s.coin()); int k = (int)s.draw(3); size_t ifirst = k ? a : 0, num = k == 2 ? s.range(0, L - a) : L - ifirst; size_t n = std::min(num, src.size()); s.note(strf("copy_from %s into %s at %zu num %zu", shown(src).c_str(), shown(t).c_str(), ifirst, num)); e.replace(ifirst, n, src, 0, n);
        if(k == 0) v.copy_from(sv.c()); else if(k == 1) v.copy_from(sv.c(), ifirst); else v.copy_from(sv.c(), ifirst, num); d.expect(e, t, "copy_from"); PBT_CHECK(sv.b.str() == src); break; }
    }
}
static std::string m_replace_all(std::string const& t, std::string const& p, std::string const& r, size_t pos)
{
    std::string o = t.substr(0, std::min(pos, t.size())); size_t i = o.size();
    while(i < t.size()) { if(t.compare(i, p.size(), p) == 0) { o += r; i += p.size(); } else o += t[i++]; }
    return o;
}
template<class V> static void replace_all(V v, std::string const& t, std::string const& p, std::string const& r, size_t pos, bool def, std::vector<size_t> const& sizes)
{
    std::string e = m_replace_all(t, p, r, pos); strgen::View pv(p, p[0], false), rv(r, 'a', r.size() & 1);
    for(size_t sz : sizes) {
        Buf dst(sz, '#', '#'); size_t n = def ? v.replace_all(substr(dst.ptr, dst.len), pv.c(), rv.c()) : v.replace_all(substr(dst.ptr, dst.len), pv.c(), rv.c(), pos);
        PBT_CHECKM(n == e.size(), "replace_all on %s of %s by %s from %zu needs %zu characters, expected %zu (destination of %zu)", shown(t).c_str(), shown(p).c_str(), shown(r).c_str(), pos, n, e.size(), sz);
        if(n <= sz) { PBT_CHECKM(dst.first(n) == e, "replace_all on %s of %s by %s from %zu gave %s, expected %s", shown(t).c_str(), shown(p).c_str(), shown(r).c_str(), pos, shown(dst.first(n)).c_str(), shown(e).c_str()); for(size_t i = n; i < sz; ++i) PBT_CHECKM(dst.ptr[i] == '#', "replace_all wrote beyond its result: %s", shown(dst.str()).c_str()); }
        dst.check("replace_all");
    }
    size_t q = v.replace_all(substr(), pv.c(), rv.c(), pos); PBT_CHECK(q == e.size());
}
PBT_TEST(pattern_replacement, 4)
{
    const char *al = strgen::alphabet(s); std::string t = s.stretch(s.str(s.chance(1, 4) ? 80 : 24, al), 5000), p = strgen::pattern(s, t, al, t.size() > 200 && s.coin() ? 300 : 4), r = s.stretch(s.str(8, al), 600); if(p.empty()) p = "a"; bool def = s.coin(); size_t pos = def ? 0 : s.chance(1, 8) ? (size_t)-1 : s.range(0, t.size());
    s.note(strf("replace_all in %s: %s -> %s from %zd", shown(t).c_str(), shown(p).c_str(), shown(r).c_str(), (ssize_t)pos)); if(t.size() > 1) s.nontrivial(t + "|" + p + "|" + r + strf("%zu", pos)); size_t need = m_replace_all(t, p, r, pos).size();
    strgen::View tv(t, p[0], s.coin()); std::vector<size_t> sizes{need, need + 1, need ? need - 1 : 0, s.range(0, need + 8), 0}; replace_all<csubstr>(tv.c(), t, p, r, pos, def, sizes); replace_all<substr>(tv.m(), t, p, r, pos, def, sizes); PBT_CHECK(tv.b.str() == t);
}
PBT_ENUM(small_scope, 127 * 6 * 4)
{   // every text over {a,b} up to 6, patterns a b aa ab ba aba, replacements "" x ab aab, every position and destination size
    static const char *ps[] = {"a", "b", "aa", "ab", "ba", "aba"}, *rs[] = {"", "x", "ab", "aab"}; size_t k = s.draw(127 * 24); std::string p = ps[k % 6], r = rs[k / 6 % 4]; size_t i = k / 24, L = 0; while(i >= ((size_t)1 << L)) { i -= (size_t)1 << L; ++L; } std::string t(L, 'a'); for(size_t j = 0; j < L; ++j) if(i >> j & 1) t[j] = 'b';
    s.note(shown(t) + " " + p + "->" + r); s.nontrivial(k); strgen::View tv(t, 'a', false); for(size_t pos = 0; pos <= L; ++pos) { size_t need = m_replace_all(t, p, r, pos).size(); std::vector<size_t> sz; for(size_t n = 0; n <= need + 1; ++n) sz.push_back(n); replace_all<csubstr>(tv.c(), t, p, r, pos, false, sz); }
}
// edits at positions that 32 bits cannot hold
PBT_TEST(huge_edits, 1)
{
    char *m = huge::region(); huge::Watch w; if(!m || w.spent()) { s.label("no large region"); return; }
    size_t L = huge::size(s, 33), p = std::min(huge::pos(s, L), L - 40); if(p > (size_t(1) << 20) && L - p > (size_t(1) << 20) && s.coin()) p = L - 40 - s.range(0, 20); std::string t; for(int i = 0; i < 24; ++i) t += "abcd"[s.draw(4)]; std::string x = s.str(8, "xyz"); size_t a = s.range(0, 24), k = s.range(0, 24 - a), op = s.draw(6); if(op == 3 && L - p > 4096) p = L - 40;
    s.note(strf("op %zu at %zu (%zu, %zu) of %zu: %s %s", op, p, a, k, L, shown(t).c_str(), shown(x).c_str())); s.nontrivial(strf("%zu %zu", L, p)); huge::Put put(m + p, t), rest(m + p + 24, std::string(16, (char)0)); substr v(m, L); std::string e = t + std::string(16, (char)0);
    switch(op) {
    case 0: v.copy_from(csubstr(x.data(), x.size()), p + a); for(size_t i = 0; i < x.size(); ++i) e[a + i] = x[i]; break;
    case 1: { size_t n = s.range(0, 12); v.copy_from(csubstr(x.data(), x.size()), p + a, n); for(size_t i = 0; i < x.size() && i < n; ++i) e[a + i] = x[i]; break; }
    case 2: v.reverse_sub(p + a, k); std::reverse(e.begin() + (ptrdiff_t)a, e.begin() + (ptrdiff_t)(a + k)); break;
    case 3: { substr r = v.erase(p + a, k); PBT_CHECK(r.str == m && r.len == L - k); std::string z = e.substr(0, a) + e.substr(a + k); if(L - p < 40) z.resize(L - p - k); PBT_CHECKM(memcmp(m + p, z.data(), std::min(z.size(), L - k - p)) == 0, "erase at %zu left %s", p + a, shown(std::string(m + p, 30)).c_str()); return; }
    case 4: v.reverse_range(p + a, p + a + k); std::reverse(e.begin() + (ptrdiff_t)a, e.begin() + (ptrdiff_t)(a + k)); break;
    default: { substr r = v.sub(p); r = r.sub(a, k); r.fill('f'); for(size_t i = 0; i < k; ++i) e[a + i] = 'f'; }
    }
    std::string g(m + p, 40); PBT_CHECKM(g == e, "%s, expected %s", shown(g).c_str(), shown(e).c_str()); PBT_CHECK(m[0] == 0 || p < 1); PBT_CHECKM(p <= 0xffffffffu + 64ul || (m[p & 0xffffffffu] == 0 && m[(p & 0xffffffffu) + a] == 0), "the text at %zu was touched", p & 0xffffffffu);
}
