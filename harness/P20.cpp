// P20: enum and bitmask names convert to values and back consistently
#include "pbt.hpp"
#include <c4/enum.hpp>
#include <c4/bitmask.hpp>
#include <sstream>
#include <deque>
using namespace c4; using namespace pbt;
// generated symbol tables, behind enum types of several underlying types and table sizes
enum E1 : uint32_t {}; enum E2 : int32_t {}; enum E3 : uint8_t {}; enum class C1 : uint32_t {}; enum class C2 : uint64_t {}; enum class C3 : int16_t {}; enum class C4 : uint64_t {};
template<class E> struct Tab { enum { N = 1 }; };
template<> struct Tab<E1> { enum { N = 6 }; }; template<> struct Tab<E2> { enum { N = 4 }; }; template<> struct Tab<E3> { enum { N = 8 }; }; template<> struct Tab<C1> { enum { N = 5 }; }; template<> struct Tab<C2> { enum { N = 9 }; }; template<> struct Tab<C3> { enum { N = 1 }; }; template<> struct Tab<C4> { enum { N = 70 }; };
template<class E> struct Data { static typename EnumSymbols<E>::Sym syms[Tab<E>::N]; static size_t cls, pfx; static std::deque<std::string> names; };
template<class E> typename EnumSymbols<E>::Sym Data<E>::syms[Tab<E>::N]; template<class E> size_t Data<E>::cls; template<class E> size_t Data<E>::pfx; template<class E> std::deque<std::string> Data<E>::names;
namespace c4 {
#define ENUM(E) template<> const EnumSymbols<E> esyms<E>() { return EnumSymbols<E>(Data<E>::syms); } template<> size_t eoffs_cls<E>() { return Data<E>::cls; } template<> size_t eoffs_pfx<E>() { return Data<E>::pfx; }
ENUM(E1) ENUM(E2) ENUM(E3) ENUM(C1) ENUM(C2) ENUM(C3) ENUM(C4)
}
template<class E> struct Model
{
    typedef typename std::underlying_type<E>::type I; typedef Data<E> D; enum { N = Tab<E>::N };
    std::vector<std::string> names; std::vector<I> vals; size_t cls, pfx;
    size_t offs(int t) const { return t == EOFFS_NONE ? 0 : t == EOFFS_CLS ? cls : (pfx ? pfx : cls); }
    std::string name(size_t i, int t) const { return names[i].substr(offs(t)); }
    int find(std::string const& t) const { for(size_t i = 0; i < N; ++i) for(int k = 0; k < 3; ++k) if(name(i, k) == t) return (int)i; return -1; }
    int find(I v) const { for(size_t i = 0; i < N; ++i) if(vals[i] == v) return (int)i; return -1; }
    Model(Src &s, bool mask)
    {
        std::string c = s.coin() ? (s.chance(1, 4) ? "C" : "Cls::") : "", p = s.coin() ? (s.chance(1, 4) ? "k" : "BM_") : ""; cls = c.size(); pfx = p.empty() ? 0 : c.size() + p.size(); D::names.clear(); bool wide = mask && s.chance(1, 3);
        for(size_t i = 0; i < N; ++i) {
            std::string sfx = std::string(1, "FAx_zZa"[s.draw(7)]) + s.str(4, "FA_1x9zZ0"); if(s.chance(1, 300)) sfx += std::string(s.edge_size(300), 'x'); if(i && s.coin()) sfx = D::names[s.draw(i)].substr(c.size() + p.size()) + sfx; for(size_t j = 0; j < i; ++j) if(D::names[j] == c + p + sfx) { sfx += 'F'; j = (size_t)-1; }
            D::names.push_back(c + p + sfx); names.push_back(c + p + sfx);
            I v; if(!mask) v = s.integer<I>(); else if(s.chance(1, 8)) v = 0; else { v = 0; size_t k = s.coin() ? 1 : s.range(1, 4); for(size_t j = 0; j < k; ++j) v = (I)(v | (I)((I)1 << s.draw(wide ? sizeof(I) * 8 - std::is_signed<I>::value : std::min<size_t>(sizeof(I) * 8 - 1, 12)))); if(i && s.chance(1, 4)) v = (I)(v | vals[s.draw(i)]); }
            vals.push_back(v); D::syms[i].value = (E)v; D::syms[i].name = D::names.back().c_str();
        }
        D::cls = cls; D::pfx = pfx;
        std::string d = strf("cls=%zu pfx=%zu", cls, pfx); for(size_t i = 0; i < N; ++i) d += strf(" %s=%lld", names[i].c_str(), (long long)vals[i]); s.note(d); s.nontrivial(d);
    }
};
/** an exact zero-terminated heap copy */
struct Z { Buf b; Z(std::string const& t) : b(t + std::string(1, '\0'), 'F') {} const char *p() const { return b.ptr; } };
template<class E> static void enums(Src &s)
{
    Model<E> m(s, false); typedef typename Model<E>::I I; enum { N = Tab<E>::N }; auto es = esyms<E>(); PBT_CHECK(es.size() == N && !es.empty() && es.begin() + N == es.end());
    for(int t = 0; t < 3; ++t) PBT_CHECKM(eoffs<E>((EnumOffsetType)t) == m.offs(t), "eoffs(%d) = %zu", t, eoffs<E>((EnumOffsetType)t));
    for(size_t i = 0; i < N; ++i) {
        PBT_CHECK(es[i].name == m.names[i] && es[i].value == (E)m.vals[i]); size_t first = (size_t)m.find(m.vals[i]); auto *p = es.find((E)m.vals[i]);
        PBT_CHECKM(p && p == es.begin() + first && es.get((E)m.vals[i]) == p, "find(value of %s)", m.names[i].c_str()); PBT_CHECKM(e2str<E>((E)m.vals[i]) == m.names[first], "e2str gave %s", e2str<E>((E)m.vals[i]));
        for(int t = 0; t < 3; ++t) {
            std::string n = m.name(i, t); PBT_CHECKM(es[i].name_offs((EnumOffsetType)t) == n, "name_offs(%d) of %s", t, m.names[i].c_str()); PBT_CHECKM(e2stroffs<E>((E)m.vals[i], (EnumOffsetType)t) == m.name(first, t), "e2stroffs(%d) of %s", t, m.names[i].c_str());
            int k = m.find(n); Z z(n); Buf raw(n, 'F'); auto *q = es.find(z.p()), *r = es.find(raw.ptr, raw.len);
            PBT_CHECKM(q == es.begin() + k, "find(\"%s\") gave %s, expected %s", n.c_str(), q ? q->name : "(none)", m.names[(size_t)k].c_str()); PBT_CHECKM(r == es.begin() + k, "find(\"%s\", %zu) gave %s, expected %s", n.c_str(), n.size(), r ? r->name : "(none)", m.names[(size_t)k].c_str());
            PBT_CHECK(str2e<E>(z.p()) == (E)m.vals[(size_t)k] && es.get(z.p()) == q && es.get(raw.ptr, raw.len) == q);
        }
        PBT_CHECK(e2stroffs<E>((E)m.vals[i]) == m.name(first, EOFFS_PFX));
    }
    // names and values that may not be in the table
    for(int k = 0; k < 6; ++k) {
        std::string n = m.names[s.draw(N)]; switch(s.draw(6)) { case 0: n = n.substr(0, s.range(0, n.size())); break; case 1: n += "FA_1x9"[s.draw(6)]; break; case 2: n = n.substr(s.range(0, n.size())); break; case 3: if(!n.empty()) n[s.draw(n.size())] = "FA_1x9"[s.draw(6)]; break; case 4: n = s.str(6, "FA_1x9"); break; default: n = n.substr(s.range(0, std::min(n.size(), m.offs(EOFFS_PFX)))); n = n.substr(0, s.range(0, n.size())); break; }
        int e = m.find(n); Z z(n); Buf raw(n, 'F'); auto *q = es.find(z.p()), *r = es.find(raw.ptr, raw.len); s.note("lookup " + shown(n)); if(e < 0) s.label("unlisted name");
        PBT_CHECKM(q == (e < 0 ? nullptr : es.begin() + e), "find(\"%s\") gave %s", n.c_str(), q ? q->name : "(none)"); PBT_CHECKM(r == (e < 0 ? nullptr : es.begin() + e), "find(\"%s\", %zu) gave %s", n.c_str(), n.size(), r ? r->name : "(none)");
        if(e < 0) { PBT_CHECK(raises([&]{ str2e<E>(z.p()); })); PBT_CHECK(raises([&]{ es.get(z.p()); })); PBT_CHECK(raises([&]{ es.get(raw.ptr, raw.len); })); }
        I v = s.coin() ? s.integer<I>() : (I)(m.vals[s.draw(N)] + (I)s.irange(-1, 1)); int x = m.find(v); auto *w = es.find((E)v); PBT_CHECK(w == (x < 0 ? nullptr : es.begin() + x)); if(x < 0) { PBT_CHECK(raises([&]{ e2str<E>((E)v); })); PBT_CHECK(raises([&]{ es.get((E)v); })); }
    }
    PBT_CHECK(raises([&]{ (void)es[N]; }));
}
PBT_TEST(symbols, 4) { if(s.chance(1, 100)) { enums<C4>(s); return; } switch(s.draw(6)) { case 0: enums<E1>(s); break; case 1: enums<E2>(s); break; case 2: enums<E3>(s); break; case 3: enums<C1>(s); break; case 4: enums<C2>(s); break; default: enums<C3>(s); break; } }

/** evaluates a produced text by its definition: listed names (in the given spelling) or 0, joined by | */
template<class E> static bool eval(Model<E> const& m, std::string const& t, int offs, typename Model<E>::I *v)
{
    *v = 0; if(t == "0") { return true; } size_t b = 0;
    for(;;) { size_t e = t.find('|', b); std::string n = t.substr(b, e == std::string::npos ? e : e - b); bool ok = false; for(size_t i = 0; i < m.names.size() && !ok; ++i) if(m.name(i, offs) == n) { *v = (typename Model<E>::I)(*v | m.vals[i]); ok = true; } if(!ok) return false; if(e == std::string::npos) return true; b = e + 1; }
}
// values of scoped enumerations are accepted as such
template<class E, class I> static void scoped(I, EnumOffsetType, std::string const&, size_t, std::string const&, std::false_type) {}
template<class E, class I> static void scoped(I bits, EnumOffsetType o, std::string const& text, size_t need, std::string const& streamed, std::true_type)
{
    PBT_CHECKM(bm2str<E>((E)bits, nullptr, 0, o) == need, "bm2str of the scoped value needs a different size"); Buf b(need, '#', '#'); PBT_CHECK(bm2str<E>((E)bits, b.ptr, b.len, o) == need); b.check("bm2str"); PBT_CHECKM(b.first(need - 1) == text && b.ptr[need - 1] == 0, "bm2str of the scoped value is %s, of its bits %s", shown(b.str()).c_str(), shown(text).c_str());
    std::stringstream ss; bm2stream<E>(ss, (E)bits, o); PBT_CHECKM(ss.str() == streamed, "bm2stream of the scoped value is %s, of its bits %s", shown(ss.str()).c_str(), shown(streamed).c_str());
}
template<class E> static void masks(Src &s)
{
    Model<E> m(s, true); typedef typename Model<E>::I I; enum { N = Tab<E>::N };
    I bits = 0; if(s.chance(1, 8)) bits = (I)s.draw(0x1000); else { size_t k = s.range(0, std::min<size_t>(N, 4)); for(size_t j = 0; j < k; ++j) bits = (I)(bits | m.vals[s.draw(N)]); }
    I cover = 0; bool has_zero = false; for(I v : m.vals) { if((I)(v & bits) == v) cover = (I)(cover | v); if(v == 0) has_zero = true; }
    bool listed = cover == bits; s.note(strf("bits %lld", (long long)bits)); s.nontrivial((uint64_t)bits); if(bits && !listed) s.label("bits without a symbol");
    for(int t = 0; t < 3; ++t) {
        EnumOffsetType o = (EnumOffsetType)t;
        if(!listed) { PBT_CHECKM(raises([&]{ bm2str<E>(bits, nullptr, 0, o); }), "bm2str(%lld) has no symbols for some bits but reported no error", (long long)bits); std::stringstream ss; PBT_CHECKM(raises([&]{ bm2stream<E>(ss, bits, o); }), "bm2stream(%lld) has no symbols for some bits but reported no error, and wrote %s", (long long)bits, shown(ss.str()).c_str()); continue; }
        size_t need = bm2str<E>(bits, nullptr, 0, o); PBT_CHECKM(need >= 2 && need < 20000, "bm2str(%lld) needs %zu", (long long)bits, need); std::string text;
        for(size_t n : {need, need + 1, need + 20}) {
            Buf b(n, '#', '#'); size_t r = bm2str<E>(bits, b.ptr, b.len, o); PBT_CHECKM(r == need, "bm2str(%lld) wrote %zu, asked for %zu", (long long)bits, r, need); PBT_CHECKM(b.ptr[r-1] == 0 && strlen(b.ptr) == r - 1, "bm2str(%lld) is not terminated: %s", (long long)bits, shown(b.first(r)).c_str()); for(size_t i = r; i < n; ++i) PBT_CHECK(b.ptr[i] == '#'); b.check("bm2str"); text = b.first(r - 1);
            I back = str2bm<E>(b.ptr); PBT_CHECKM(back == bits, "str2bm(bm2str(%lld)=\"%s\") = %lld", (long long)bits, text.c_str(), (long long)back); PBT_CHECK(str2bm<E>(b.ptr, r) == bits); Buf ex(text, 'F'); PBT_CHECKM(str2bm<E>(ex.ptr, ex.len) == bits, "str2bm(\"%s\", %zu)", text.c_str(), ex.len);
        }
        I v; PBT_CHECKM(eval(m, text, t, &v) && v == bits, "bm2str(%lld) = \"%s\" is not made of the listed symbols", (long long)bits, text.c_str()); if(bits == 0) { if(!has_zero) PBT_CHECKM(text == "0", "bm2str(0) = %s", text.c_str()); else PBT_CHECK(text != "0"); }
        if(t == EOFFS_PFX) { PBT_CHECK(bm2str<E>(bits) == need); }
        for(size_t n = 1; n < need; n += need > 200 && n > 2 && need - n > 3 ? std::min(need / 8, need - n - 2) : 1) { Buf b(n, '#', '#'); PBT_CHECKM(raises([&]{ bm2str<E>(bits, b.ptr, b.len, o); }), "bm2str(%lld) into %zu of %zu characters raised no error", (long long)bits, n, need); b.check("bm2str"); }
        std::stringstream ss; bm2stream<E>(ss, bits, o); std::string st = ss.str(); PBT_CHECKM(eval(m, st, t, &v) && v == bits, "bm2stream(%lld) = \"%s\" is not made of the listed symbols", (long long)bits, st.c_str()); PBT_CHECKM(str2bm<E>(st.c_str()) == bits, "str2bm(bm2stream(%lld)=\"%s\") = %lld", (long long)bits, st.c_str(), (long long)str2bm<E>(st.c_str()));
        if(bits == 0) PBT_CHECK((st == "0") == !has_zero);
        scoped<E>(bits, o, text, need, st, std::integral_constant<bool, !std::is_convertible<E, I>::value>());
    }
}
PBT_TEST(bitmasks, 4) { if(s.chance(1, 100)) { masks<C4>(s); return; } switch(s.draw(6)) { case 0: masks<E1>(s); break; case 1: masks<E2>(s); break; case 2: masks<E3>(s); break; case 3: masks<C1>(s); break; case 4: masks<C2>(s); break; default: masks<C3>(s); break; } }
template<class E> static void mixed(Src &s)
{
    Model<E> m(s, true); typedef typename Model<E>::I I; enum { N = Tab<E>::N }; std::string t; I exp = 0; size_t k = s.range(1, 5);
    for(size_t j = 0; j < k; ++j) {
        if(j) t += '|';
        uint64_t x = s.draw((uint64_t)1 << std::min<size_t>(sizeof(I) * 8 - 1, 31));
        switch(s.draw(4)) { case 0: t += strf("%llu", (unsigned long long)x); exp = (I)(exp | (I)x); break; case 1: t += strf(s.coin() ? "0x%llx" : "0X%llX", (unsigned long long)x); exp = (I)(exp | (I)x); break; default: { std::string n = m.name(s.draw(N), (int)s.draw(3)); t += n; exp = (I)(exp | m.vals[(size_t)m.find(n)]); break; } }
    }
    s.note(shown(t)); s.nontrivial(t); Z z(t); Buf b(t, '1'); I g = str2bm<E>(z.p()), h = str2bm<E>(b.ptr, b.len); PBT_CHECKM(g == exp && h == exp, "str2bm(\"%s\") = %lld / %lld, expected %lld", t.c_str(), (long long)g, (long long)h, (long long)exp);
    { static const char bc[] = "#,;+-.&!\t\n/()\x01\x7f\xff"; std::string q = t; q.insert(s.draw(q.size() + 1), 1, bc[s.draw(sizeof(bc) - 1)]); s.note(shown(q)); PBT_CHECKM(raises([&]{ str2bm<E>(q.c_str()); }) && raises([&]{ str2bm<E>(q.data(), q.size()); }), "str2bm(%s) raised no error", shown(q).c_str()); }
    // replacing one piece by an unlisted name must be reported
    std::string bad = t + "|" + m.names[0] + "q"; PBT_CHECKM(raises([&]{ str2bm<E>(bad.c_str()); }), "str2bm(\"%s\") raised no error", bad.c_str());
    std::string part = m.name(s.draw(N), (int)s.draw(3)); part = part.substr(0, s.range(1, part.size())); if(m.find(part) < 0 && !(part[0] >= '0' && part[0] <= '9')) { bad = t + "|" + part; s.label("truncated name"); PBT_CHECKM(raises([&]{ str2bm<E>(bad.c_str()); }), "str2bm(\"%s\") raised no error although %s is not listed", bad.c_str(), part.c_str()); }
}
PBT_TEST(mixed_text, 3) { if(s.chance(1, 100)) { mixed<C4>(s); return; } switch(s.draw(6)) { case 0: mixed<E1>(s); break; case 1: mixed<E2>(s); break; case 2: mixed<E3>(s); break; case 3: mixed<C1>(s); break; case 4: mixed<C2>(s); break; default: mixed<C3>(s); break; } }
