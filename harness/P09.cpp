// P09: concatenation and formatting equal the composition of their parts
#include "anyarg.hpp"
using namespace c4; using namespace pbt; using namespace oracle; using anyarg::Any;

typedef std::vector<Any> Args;
template<class S> static void expect(const char *what, S const& got, std::string const& want)
{
    std::string g(got.begin(), got.end());
    PBT_CHECKM(g == want, "%s gave %s, expected %s", what, shown(g).c_str(), shown(want).c_str());
}
static size_t cat_n(substr b, Args const& a) { PBT_SPREAD(a, cat, b) }
static substr cat_sub_n(substr b, Args const& a) { PBT_SPREAD(a, cat_sub, b) }
static size_t format_n(substr b, csubstr f, Args const& a) { PBT_SPREAD(a, format, b, f) }
static substr format_sub_n(substr b, csubstr f, Args const& a) { PBT_SPREAD(a, format_sub, b, f) }
template<class S> static size_t catsep_n(substr b, S const& sep, Args const& a) { PBT_SPREAD(a, catsep, b, sep) }
template<class S> static substr catsep_sub_n(substr b, S const& sep, Args const& a) { PBT_SPREAD(a, catsep_sub, b, sep) }
template<class C> static void catrs_n(C *c, Args const& a) { PBT_SPREAD(a, catrs, c) }
template<class C> static csubstr catrs_append_n(C *c, Args const& a) { PBT_SPREAD(a, catrs_append, c) }
template<class C> static void formatrs_n(C *c, csubstr f, Args const& a) { PBT_SPREAD(a, formatrs, c, f) }
template<class C> static csubstr formatrs_append_n(C *c, csubstr f, Args const& a) { PBT_SPREAD(a, formatrs_append, c, f) }
template<class C, class S> static void catseprs_n(C *c, S const& sep, Args const& a) { PBT_SPREAD(a, catseprs, c, sep) }
template<class C, class S> static csubstr catseprs_append_n(C *c, S const& sep, Args const& a) { PBT_SPREAD(a, catseprs_append, c, sep) }
template<class C> static C catrs_ret(Args const& a) { switch(a.size()) { case 1: return catrs<C>(a[0]); case 2: return catrs<C>(a[0], a[1]); default: return catrs<C>(a[0], a[1], a[2]); } }
template<class C> static C catseprs_ret(Any const& sep, Args const& a) { switch(a.size()) { case 1: return catseprs<C>(sep, a[0]); case 2: return catseprs<C>(sep, a[0], a[1]); default: return catseprs<C>(sep, a[0], a[1], a[2]); } }
template<class C> static C formatrs_ret(csubstr f, Args const& a) { switch(a.size()) { case 1: return formatrs<C>(f, a[0]); case 2: return formatrs<C>(f, a[0], a[1]); default: return formatrs<C>(f, a[0], a[1], a[2]); } }

static void fixed(const char *what, std::string const& want, size_t room, bool real, fref<size_t(substr)> f, fref<substr(substr)> fs)
{
    Buf b(want.size() + room, '#');
    size_t r = f(substr(b.ptr, b.len)); b.check(what);
    PBT_CHECKM(r == want.size() && b.first(r) == want, "%s gave %zu characters %s, expected %s", what, r, shown(b.first(std::min(r, b.len))).c_str(), shown(want).c_str());
    substr v = fs(substr(b.ptr, b.len)); b.check(what);
    PBT_CHECKM(v.str == b.ptr && v.len == want.size() && b.first(v.len) == want, "%s_sub gave %s, expected %s", what, shown(v.str, v.len).c_str(), shown(want).c_str());
    if(!want.empty()) { Buf t(want.size() - 1, '#'); PBT_CHECKM(raises([&]{ fs(substr(t.ptr, t.len)); }), "%s_sub does not report that the buffer is too small", what); t.check(what); }
}
template<class C> static void containers(Src &s, const char *cn, Args const& a, Any const& sep, csubstr f, std::string const& wc, std::string const& ws, std::string const& wf)
{
    std::string init = s.stretch(s.bytes(40), 1100); size_t cap = s.len(200);
    auto mk = [&](C &c) { c.clear(); c.reserve(cap); c.assign(init.begin(), init.end()); };
    C c;
    mk(c); catrs_n(&c, a); expect((std::string("catrs ") + cn).c_str(), c, wc);
    mk(c); catseprs_n(&c, sep, a); expect("catseprs", c, ws);
    mk(c); catseprs_n(&c, sep.sub(), a); { std::string w; for(size_t i = 0; i < a.size(); ++i) w += (i ? sep.s : std::string()) + a[i].text; expect("catseprs(csubstr)", c, w); }
    mk(c); formatrs_n(&c, f, a); expect("formatrs", c, wf);
    auto app = [&](const char *what, std::string const& w, fref<csubstr(C*)> g) {
        mk(c); csubstr r = g(&c); expect(what, c, init + w);
        PBT_CHECKM(r.len == w.size() && std::string(r.begin(), r.end()) == w, "%s returned %s, expected the appended part %s", what, shown(r.str, r.len).c_str(), shown(w).c_str());
        if(r.len) PBT_CHECKM(r.str == &c[0] + init.size(), "%s does not return the appended part of the container", what);
    };
    app("catrs_append", wc, [&](C *p) { return catrs_append_n(p, a); });
    app("catseprs_append", ws, [&](C *p) { return catseprs_append_n(p, sep, a); });
    app("formatrs_append", wf, [&](C *p) { return formatrs_append_n(p, f, a); });
    if(a.size() >= 1 && a.size() <= 3) { expect("catrs<C>", catrs_ret<C>(a), wc); expect("catseprs<C>", catseprs_ret<C>(sep, a), ws); expect("formatrs<C>", formatrs_ret<C>(f, a), wf); }
}
PBT_TEST(lists, 10)
{
    size_t n = s.chance(1, 8) ? s.range(7, 12) : (size_t)s.draw(7); Args a; std::string d; Any sep = anyarg::gen(s, true, 5); bool real = sep.real();
    for(size_t i = 0; i < n; ++i) { a.push_back(anyarg::gen(s)); d += anyarg::desc(a[i]) + " "; real |= a[i].real(); }
    std::string f = anyarg::gen_format(s, n); Buf fb(f, '{'); csubstr cf(fb.ptr, fb.len);
    s.note(strf("args [%s] sep %s format %s", d.c_str(), anyarg::desc(sep).c_str(), shown(f).c_str())); if(n > 1) s.nontrivial(d + f);
    std::string wc, ws, wf = anyarg::model_format(f, a);
    for(size_t i = 0; i < n; ++i) { wc += a[i].text; if(i) ws += sep.text; ws += a[i].text; }
    size_t room = (real ? 400 : 0) + s.len(10);
    fixed("cat", wc, room, real, [&](substr b) { return cat_n(b, a); }, [&](substr b) { return cat_sub_n(b, a); });
    fixed("catsep", ws, room, real, [&](substr b) { return catsep_n(b, sep, a); }, [&](substr b) { return catsep_sub_n(b, sep, a); });
    fixed("format", wf, room, real, [&](substr b) { return format_n(b, cf, a); }, [&](substr b) { return format_sub_n(b, cf, a); });
    if(s.coin()) containers<std::string>(s, "std::string", a, sep, cf, wc, ws, wf); else containers<std::vector<char>>(s, "std::vector", a, sep, cf, wc, ws, wf);
}
// the native argument types, without the type-erased wrapper in between
PBT_TEST(native, 4)
{
    int i = s.integer<int>(); unsigned u = s.integer<unsigned>(); int64_t l = s.integer<int64_t>(); uint8_t u8 = s.integer<uint8_t>(); long long ll = s.integer<long long>(); size_t z = s.integer<size_t>();
    char c = (char)s.draw(256); bool b = s.coin(); std::string st = s.bytes(12), cst = s.str(8, "abc {}"); const char *cs = cst.c_str(); char arr[] = "an array"; std::vector<char> v(st.begin(), st.end());
    double dv = gen_real<double>(s); float fv = gen_real<float>(s); csubstr sub(st.data(), st.size()); void *p = (void*)(uintptr_t)s.u64(); size_t w = s.len(20);
    using anyarg::ample;
    std::string td = ample([&](substr x) { return dtoa(x, dv); }), tf = ample([&](substr x) { return ftoa(x, fv); }), t3 = ample([&](substr x) { return dtoa(x, dv, 3, FTOA_FLOAT); });
    #define IT(x) int_text((i128)(x), 10, false)
    s.note(strf("%d %u %s '%s' %a %a", i, u, i128s(l).c_str(), shown(st).c_str(), dv, (double)fv)); s.nontrivial(hash_str(st, (uint64_t)i * 31 + u));
    std::string r;
    catrs(&r, i, "lit", dv, c, sub, b, cs, st, v, fmt::left(i, w, '*'), fmt::hex(u), u8, arr, p, fv, l);
    expect("cat(native)", r, IT(i) + "lit" + td + c + st + (b ? "1" : "0") + cst + st + st + anyarg::padl(IT(i), w, '*') + int_text((i128)u, 16, true) + IT(u8) + "an array" + int_text((i128)(intptr_t)p, 16, true) + tf + IT(l));
    catseprs(&r, ", ", ll, z, fmt::right(dv, w), fmt::boolalpha(b), st, fmt::zpad(i, w), fmt::real(dv, 3));
    expect("catsep(native)", r, IT(ll) + ", " + IT(z) + ", " + anyarg::padr(td, w, ' ') + ", " + (b ? "true" : "false") + ", " + st + ", " + int_text((i128)i, 10, false, w) + ", " + t3);
    catseprs(&r, '\n', i, c, i); expect("catsep(char)", r, IT(i) + "\n" + c + "\n" + IT(i));
    catseprs(&r, i, st, st); expect("catsep(int)", r, st + IT(i) + st);
    formatrs(&r, "{}-{}:{}{}|{}", i, st, u, c, cs); expect("format(native)", r, IT(i) + "-" + st + ":" + IT(u) + c + "|" + cst);
    formatrs(&r, "no holes", i, st); expect("format(no holes)", r, "no holes");
    formatrs(&r, "{}{}{}", i); expect("format(missing)", r, IT(i) + "{}{}");
    std::vector<char> vc; formatrs(&vc, "{{}}", dv); expect("format(vector)", vc, "{" + td + "}");
    size_t n0 = vc.size(); csubstr q = catrs_append(&vc, st, i); PBT_CHECK(q.len == st.size() + IT(i).size() && q.str + q.len == &vc[0] + vc.size() && vc.size() == n0 + q.len);
}
