// P10: unpacking a string reverses packing it
#include "oracle_int.hpp"
#include "oracle_real.hpp"
#include <c4/format.hpp>
#include <c4/std/string.hpp>
using namespace c4; using namespace pbt; using namespace oracle;

/** a value which is written and then read back with its own type */
struct Val
{
    enum Kind { I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, BOOL, CHAR, TOKEN, PTR, MSTR, KINDS };
    int kind; int8_t i8; uint8_t u8; int16_t i16; uint16_t u16; int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; float f; double d; bool b; char c; csubstr tok; void *p;
    char store[600]; substr ms; std::string tokstr;
    Val() : kind(I32), i8(), u8(), i16(), u16(), i32(), u32(), i64(), u64(), f(), d(), b(), c('?'), tok(), p() { ms = substr(store, sizeof(store)); }
    Val(Val const& o) { *this = o; }
    Val& operator=(Val const& o) { kind=o.kind; i8=o.i8; u8=o.u8; i16=o.i16; u16=o.u16; i32=o.i32; u32=o.u32; i64=o.i64; u64=o.u64; f=o.f; d=o.d; b=o.b; c=o.c; p=o.p; tokstr=o.tokstr; tok=csubstr(tokstr.data(), tokstr.size()); memcpy(store, o.store, sizeof(store)); ms=substr(store, o.ms.len); return *this; }
    bool number() const { return kind <= F64 || kind == PTR; }
    template<class R, class F> R visit(F const& g)
    {
        switch(kind) {
        case I8: return g(i8); case U8: return g(u8); case I16: return g(i16); case U16: return g(u16); case I32: return g(i32); case U32: return g(u32); case I64: return g(i64); case U64: return g(u64);
        case F32: return g(f); case F64: return g(d); case BOOL: return g(b); case CHAR: return g(c); case TOKEN: return g(tok); case PTR: return g(p); default: return g(ms);
        }
    }
    bool eq(Val const& o) const
    {
        switch(kind) {
        case I8: return i8 == o.i8; case U8: return u8 == o.u8; case I16: return i16 == o.i16; case U16: return u16 == o.u16; case I32: return i32 == o.i32; case U32: return u32 == o.u32; case I64: return i64 == o.i64; case U64: return u64 == o.u64;
        case F32: return same(f, o.f); case F64: return same(d, o.d); case BOOL: return b == o.b; case CHAR: return c == o.c; case PTR: return p == o.p;
        case TOKEN: return std::string(tok.str, tok.len) == std::string(o.tok.str, o.tok.len);
        default: return std::string(ms.str, ms.len) == std::string(o.ms.str, o.ms.len);
        }
    }
};
struct Rd { csubstr b; template<class T> size_t operator() (T &v) const { return c4::from_chars_first(b, &v); } };
struct Wr { substr b;
    size_t operator() (float &v) const { return c4::to_chars(b, c4::fmt::real(v, 9, FTOA_FLEX)); }   // enough digits to be exact in every build
    size_t operator() (double &v) const { return c4::to_chars(b, c4::fmt::real(v, 17, FTOA_FLEX)); }
    template<class T> size_t operator() (T &v) const { return c4::to_chars(b, v); } };
static size_t from_chars_first(csubstr buf, Val *v) { Rd r = {buf}; return v->visit<size_t>(r); }
static size_t to_chars(substr buf, Val const& v) { Wr w = {buf}; return const_cast<Val&>(v).visit<size_t>(w); }

static Val gen(Src &s)
{
    Val v; v.kind = (int)s.draw(Val::KINDS);
    v.i8 = s.integer<int8_t>(); v.u8 = (uint8_t)v.i8; v.i64 = s.integer<int64_t>(); v.u64 = (uint64_t)v.i64; v.i16 = (int16_t)v.i64; v.u16 = (uint16_t)v.i64; v.i32 = (int32_t)v.i64; v.u32 = (uint32_t)v.i64;
    v.f = gen_real<float>(s, true); v.d = gen_real<double>(s, true); v.b = s.coin(); v.c = "abc,;1 -"[s.draw(8)]; v.p = (void*)(uintptr_t)v.u64;
    std::string t = s.str(8, "abcXYZ01.-\"'"); if(t.empty()) t = "w"; t = s.stretch(t, 500); v.tokstr = t; v.tok = csubstr(v.tokstr.data(), v.tokstr.size()); memcpy(v.store, t.data(), t.size()); v.ms = substr(v.store, t.size());
    return v;
}
static Val blank(Val const& m)
{
    Val v; v.kind = m.kind; memset(v.store, '?', sizeof(v.store)); v.i8 = 77; v.u8 = 78; v.i16 = 79; v.u16 = 80; v.i32 = 81; v.u32 = 82; v.i64 = 83; v.u64 = 84; v.f = 85; v.d = 86; v.b = !m.b; v.c = '?'; v.p = &v.p; return v;
}
static std::string text(Val const& v) { std::string b(1200, '\0'); size_t n = to_chars(substr(&b[0], b.size()), v); PBT_CHECK(n <= b.size()); b.resize(n); return b; }
/** a string starting with a character after which the previous value ends */
static std::string gen_sep(Src &s, Val const& prev, const char *rest)
{
    std::string r; 
    if(prev.number()) r = std::string(1, " ,;)]}\n\t"[s.draw(8)]);
    else if(prev.kind != Val::CHAR) r = std::string(1, " \n\t\r"[s.draw(4)]);
    return r + s.str(4, rest);
}
template<class V> static size_t uncat_n(csubstr b, V &v)
{
    PBT_SPREAD1(v, uncat, b)
}
template<class S, class V> static size_t uncatsep_n(csubstr b, S &sep, V &v)
{
    PBT_SPREAD1(v, uncatsep, b, sep)
}
template<class V> static size_t unformat_n(csubstr b, csubstr f, V &v)
{
    PBT_SPREAD(v, unformat, b, f)
}
static void expect(const char *what, std::string const& in, size_t got, size_t want, std::vector<Val> const& g, std::vector<Val> const& w)
{
    PBT_CHECKM(got == want, "%s(%s) consumed %zd characters, expected %zd", what, shown(in).c_str(), (ssize_t)got, (ssize_t)want);
    for(size_t i = 0; i < g.size(); ++i) PBT_CHECKM(g[i].eq(w[i]), "%s(%s): value %zu (kind %d) was read as %s instead of %s", what, shown(in).c_str(), i, g[i].kind, shown(text(g[i])).c_str(), shown(text(w[i])).c_str());
}
/** some text that cannot be read as the given value */
static std::string junk(Src &s, Val const& v)
{
    switch(v.kind) {
    case Val::CHAR: case Val::TOKEN: case Val::MSTR: return "";
    case Val::BOOL: return s.coin() ? "maybe" : "tru";
    case Val::F32: case Val::F64: return s.coin() ? "x1" : "e5";
    case Val::U8: case Val::U16: case Val::U32: case Val::U64: return s.coin() ? "-1" : "1x";
    default: return s.coin() ? "--1" : "1.5";
    }
}
static std::vector<Val> blanks(std::vector<Val> const& v) { std::vector<Val> r; for(auto const& x : v) r.push_back(blank(x)); return r; }
// values with explicit separator characters in between, read back as characters
PBT_TEST(uncat_list, 4)
{
    size_t n = 1 + s.draw(s.chance(1, 6) ? 9 : 4); std::vector<Val> v; std::string in;
    size_t bad = s.chance(1, 3) ? s.draw(n) : n; bool expect_fail = false;
    for(size_t i = 0; i < n; ++i) {
        Val x = gen(s); std::string t = text(x);
        if(i == bad) { std::string j = junk(s, x); if(!j.empty()) { t = j; expect_fail = true; } }
        if(x.kind != Val::CHAR && s.coin()) in += s.str(3, " \t"); // leading whitespace is skipped
        in += t;
        v.push_back(x);
        if(i + 1 < n) { Val c; c.kind = Val::CHAR; c.c = x.number() ? " ,;)]}\n"[s.draw(7)] : " \n\t"[s.draw(3)]; if(x.kind != Val::CHAR) { in += c.c; v.push_back(c); } }
    }
    if(v.size() > 12) return;
    size_t total = in.size(); Val const& last = v.back();
    if(s.coin()) in += last.number() ? std::string(" ,") + s.str(4, "12ab ") : last.kind == Val::CHAR ? "xyz" : " tail";
    s.note(shown(in)); if(n > 1) s.nontrivial(in);
    Buf b(in, '1'); csubstr cs(b.ptr, b.len);
    std::vector<Val> g = blanks(v);
    size_t r = uncat_n(cs, g);
    if(expect_fail) PBT_CHECKM(r == csubstr::npos, "uncat(%s) = %zd, expected failure", shown(in).c_str(), (ssize_t)r);
    else expect("uncat", in, r, total, g, v);
    // truncation of the last value
    if(!expect_fail) { g = blanks(v); g.push_back(blank(gen(s))); std::string t2 = in.substr(0, total); Buf b2(t2, '1'); if(g.size() <= 12) PBT_CHECKM(uncat_n(csubstr(b2.ptr, b2.len), g) == csubstr::npos, "uncat(%s) with one value too many did not fail", shown(t2).c_str()); }
}
PBT_TEST(uncatsep_list, 3)
{
    size_t n = 1 + s.draw(s.chance(1, 6) ? 11 : 5); std::vector<Val> v; std::string in; size_t bad = s.chance(1, 3) ? s.draw(n) : n; bool expect_fail = false; bool onlynum = true;
    for(size_t i = 0; i < n; ++i) { Val x = gen(s); v.push_back(x); onlynum = onlynum && x.number(); }
    // separator: a character (or, between numbers, a number or a word after a blank)
    int sk = (int)s.draw(3); Val sep; char c = onlynum ? " ,;\n"[s.draw(4)] : " \n"[s.draw(2)];
    if(sk == 0) { sep.kind = Val::CHAR; sep.c = c; } else { do { sep = gen(s); } while(sep.kind == Val::CHAR); }
    std::string st = text(sep); if(sk) st = " " + st + " ";
    for(size_t i = 0; i < n; ++i) {
        std::string t = text(v[i]);
        if(i == bad) { std::string j = junk(s, v[i]); if(!j.empty()) { t = j; expect_fail = true; } }
        if(v[i].kind == Val::CHAR) { if(i && sk) { v[i].c = ' '; t = ""; } else if(i + 1 < n && !sk) {} }
        if(i) in += st;
        in += t;
        if(v[i].kind == Val::CHAR && i && sk) continue;
    }
    for(size_t i = 1; i < n; ++i) if(v[i].kind == Val::CHAR && sk) return; // a character would be the blank itself
    size_t total = in.size();
    s.note(strf("sep %s in %s", shown(st).c_str(), shown(in).c_str())); if(n > 1) s.nontrivial(in);
    if(s.coin()) in += v.back().number() ? ",tail" : v.back().kind == Val::CHAR ? "tail" : " tail";
    Buf b(in, '1'); csubstr cs(b.ptr, b.len); std::vector<Val> g = blanks(v);
    size_t r; 
    if(sk == 0) { char rc = '?'; r = uncatsep_n(cs, rc, g); if(!expect_fail && n > 1) PBT_CHECKM(rc == c, "uncatsep(%s) read the separator as '%c'", shown(in).c_str(), rc); }
    else { Val rs = blank(sep); r = uncatsep_n(cs, rs, g); if(!expect_fail && n > 1) PBT_CHECKM(rs.eq(sep), "uncatsep(%s) read the separator wrong", shown(in).c_str()); }
    if(expect_fail) PBT_CHECKM(r == csubstr::npos, "uncatsep(%s) = %zd, expected failure", shown(in).c_str(), (ssize_t)r);
    else expect("uncatsep", in, r, total, g, v);
    if(!expect_fail && n < 5) { // one value more than there is
        std::string t2 = in.substr(0, total); Buf b2(t2, '1'); g = blanks(v); g.push_back(blank(v[0])); char rc = '?'; Val rs = blank(sep);
        size_t q = sk == 0 ? uncatsep_n(csubstr(b2.ptr, b2.len), rc, g) : uncatsep_n(csubstr(b2.ptr, b2.len), rs, g);
        PBT_CHECKM(q == csubstr::npos, "uncatsep(%s) with one value too many did not fail", shown(t2).c_str());
    }
}
PBT_TEST(unformat_list, 4)
{
    size_t n = s.draw(s.chance(1, 6) ? 12 : 6); std::vector<Val> v; std::string f, in; size_t bad = n && s.chance(1, 3) ? s.draw(n) : n; bool expect_fail = false;
    std::string lit = s.stretch(s.str(5, "ab{ }1,"), 600); while(lit.find("{}") != std::string::npos) lit.erase(lit.find("{}"), 2);
    if(!lit.empty() && lit[lit.size() - 1] == '{') lit[lit.size() - 1] = '_';
    f = lit; in = lit;
    for(size_t i = 0; i < n; ++i) {
        Val x = gen(s); v.push_back(x); std::string t = text(x);
        if(i == bad) { std::string j = junk(s, x); if(!j.empty()) { t = j; expect_fail = true; } }
        if(x.kind != Val::CHAR && s.chance(1, 3)) in += s.str(2, " "); // extra whitespace before the value is skipped
        f += "{}"; in += t;
        lit = (i + 1 < n || s.coin()) ? gen_sep(s, x, "ab{ 1,:") : std::string();
        if(!lit.empty() && lit[lit.size() - 1] == '{') lit[lit.size() - 1] = '_';
        f += lit; in += lit;
    }
    size_t total = in.size(); if(!lit.empty() && s.coin()) in += " more";
    s.note(strf("format %s in %s", shown(f).c_str(), shown(in).c_str())); if(n) s.nontrivial(f + "/" + in);
    Buf b(in, '1'), fb(f, '{'); csubstr cs(b.ptr, b.len), cf(fb.ptr, fb.len); std::vector<Val> g = blanks(v);
    size_t r = unformat_n(cs, cf, g);
    if(expect_fail) PBT_CHECKM(r == csubstr::npos, "unformat(%s, %s) = %zd, expected failure", shown(in).c_str(), shown(f).c_str(), (ssize_t)r);
    else expect("unformat", in, r, total, g, v);
    if(n && n < 5 && !expect_fail) { // surplus arguments are ignored
        std::vector<Val> h = blanks(v); h.push_back(blank(v[0])); size_t q = unformat_n(cs, cf, h); h.pop_back(); expect("unformat with a surplus argument", in, q, total, h, v);
    }
    if(n) { // nothing left for the last value
        size_t cut = in.find(text(v[0])); if(!expect_fail && cut != std::string::npos && cut == f.find("{}")) { std::string t2 = in.substr(0, cut); Buf b2(t2, '1'); g = blanks(v); PBT_CHECKM(unformat_n(csubstr(b2.ptr, b2.len), cf, g) == csubstr::npos, "unformat(%s, %s) did not fail", shown(t2).c_str(), shown(f).c_str()); }
    }
}
// writing with cat/catsep/format and reading back, same argument lists
PBT_TEST(pack_unpack, 3)
{
    Val a = gen(s), b = gen(s), c = gen(s); if(a.kind == Val::CHAR) a.kind = Val::I32; if(b.kind == Val::CHAR) b.kind = Val::F64; if(c.kind == Val::CHAR) c.kind = Val::U64;
    std::vector<Val> v = {a, b, c}; Buf buf(2048, '#'); substr w(buf.ptr, buf.len);
    csubstr r = catsep_sub(w, ' ', a, b, c); s.note(shown(r.str, r.len)); s.nontrivial(std::string(r.str, r.len));
    std::vector<Val> g = blanks(v); char sep = 0; size_t n = uncatsep(r, sep, g[0], g[1], g[2]); expect("uncatsep(catsep)", std::string(r.str, r.len), n, r.len, g, v); PBT_CHECK(sep == ' ');
    Buf buf2(2048, '#'); substr w2(buf2.ptr, buf2.len);
    r = cat_sub(w2, a, ' ', b, '\n', c); g = blanks(v); char s1 = 0, s2 = 0; n = uncat(r, g[0], s1, g[1], s2, g[2]); expect("uncat(cat)", std::string(r.str, r.len), n, r.len, g, v); PBT_CHECK(s1 == ' ' && s2 == '\n');
    Buf buf3(2048, '#'); substr w3(buf3.ptr, buf3.len);
    r = format_sub(w3, "a={} b={} c={} end", a, b, c); g = blanks(v); n = unformat(r, "a={} b={} c={} end", g[0], g[1], g[2]); expect("unformat(format)", std::string(r.str, r.len), n, r.len, g, v);
}
// reading a list is the composition of reading its values one after the other, for any string
PBT_TEST(composition, 3)
{
    std::string in = s.str(24, "0123456789-+.ex ,;aT\t"); size_t n = 1 + s.draw(s.chance(1, 6) ? 12 : 3); Buf b(in, '1'); csubstr cs(b.ptr, b.len);
    std::vector<Val> g, h; for(size_t i = 0; i < n; ++i) { Val x = gen(s); if(x.kind == Val::BOOL) x.kind = Val::I32; if(x.kind == Val::MSTR) x.kind = Val::TOKEN; g.push_back(blank(x)); h.push_back(blank(x)); }
    s.note(shown(in)); if(in.size() > 2) s.nontrivial(in);
    size_t want = 0; for(size_t i = 0; i < n && want != csubstr::npos; ++i) { size_t q = from_chars_first(cs.sub(want), &h[i]); want = q == csubstr::npos ? q : want + q; }
    size_t r = uncat_n(cs, g);
    PBT_CHECKM(r == want, "uncat(%s) = %zd, expected %zd", shown(in).c_str(), (ssize_t)r, (ssize_t)want);
    if(want != csubstr::npos) expect("uncat", in, r, want, g, h);
}
// the same for the separated and the format-string variants; the separator can be of any type, and has to be there between any two values
PBT_TEST(composition_separated, 2)
{
    std::string in = s.str(24, "0123456789-+.ex ,;aT\t"); size_t n = 1 + s.draw(s.chance(1, 6) ? 12 : 4); Buf b(in, '1'); csubstr cs(b.ptr, b.len); bool fm = s.coin(); std::vector<std::string> lit;
    std::vector<Val> g, h; for(size_t i = 0; i <= n; ++i) { Val x = gen(s); if(x.kind == Val::BOOL) x.kind = Val::I32; if(x.kind == Val::MSTR) x.kind = Val::TOKEN; g.push_back(blank(x)); h.push_back(blank(x)); lit.push_back(s.str(3, "ab 1,")); }
    Val sg = g.back(), sh = h.back(); g.pop_back(); h.pop_back(); s.note(shown(in)); if(in.size() > 2) s.nontrivial(in); size_t want = 0, r;
    auto next = [&](Val &v) { size_t q = from_chars_first(want <= cs.len ? cs.sub(want) : csubstr(), &v); want = q == csubstr::npos ? q : want + q; return want != csubstr::npos; };
    if(!fm) { for(size_t i = 0; i < n; ++i) if((i && !next(sh)) || !next(h[i])) break; r = uncatsep_n(cs, sg, g); }
    else { std::string f; for(size_t i = 0; i < n; ++i) f += lit[i] + "{}"; f += lit[n]; for(size_t i = 0; i < n; ++i) { want = std::min(want + lit[i].size(), cs.len); if(!next(h[i])) break; } if(want != csubstr::npos) want = std::min(want + lit[n].size(), cs.len); /* the text can end inside a literal */ Buf fb(f, '{'); r = unformat_n(cs, csubstr(fb.ptr, fb.len), g); }
    PBT_CHECKM(r == want, "%s(%s) = %zd, expected %zd", fm ? "unformat" : "uncatsep", shown(in).c_str(), (ssize_t)r, (ssize_t)want);
    if(want != csubstr::npos) { expect(fm ? "unformat" : "uncatsep", in, r, want, g, h); if(!fm && n > 1) PBT_CHECKM(sg.eq(sh), "uncatsep(%s): the separator was not read as written", shown(in).c_str()); }
}
// raw binary values in sequence: what cat() wrote is read back by uncat() from the same places
template<class A, class B, class C> static void raw_go(Src &s)
{
    size_t off = s.draw(17), pre = s.draw(3); union U { std::max_align_t al; char c[400]; }; static U mem; std::string fill = s.bytes(20); for(size_t i = 0; i < sizeof mem.c; ++i) mem.c[i] = fill.empty() ? (char)i : fill[i % fill.size()]; substr out(mem.c + off, 300);
    A a, a2; B b, b2; C c, c2; std::string ba = s.bytes(sizeof(A)), bb = s.bytes(sizeof(B)), bc = s.bytes(sizeof(C)); ba.resize(sizeof(A), 'p'); bb.resize(sizeof(B), 'q'); bc.resize(sizeof(C), 'r'); memcpy((void*)&a, ba.data(), sizeof a); memcpy((void*)&b, bb.data(), sizeof b); memcpy((void*)&c, bc.data(), sizeof c); memset((void*)&a2, 0x33, sizeof a2); memset((void*)&b2, 0x33, sizeof b2); memset((void*)&c2, 0x33, sizeof c2); int n = (int)s.draw(1000), n2 = -1; char sp = ' ', sp2 = 0;
    s.note(strf("raw values of %zu, %zu, %zu bytes at offset %zu", sizeof(A), sizeof(B), sizeof(C), off)); s.nontrivial(strf("raw %zu %zu %zu %zu %d", sizeof(A), sizeof(B), sizeof(C), off, n) + ba + bb + bc); fmt::raw_wrapper ra = fmt::raw(a2), rb = fmt::raw(b2), rc = fmt::raw(c2); size_t w, r;
    if(pre == 0) { w = cat(out, fmt::craw(a), fmt::craw(b), fmt::craw(c)); r = uncat(csubstr(out.str, w), ra, rb, rc); n2 = n; sp2 = sp; } else { w = cat(out, n, sp, fmt::craw(a), fmt::craw(b), fmt::craw(c)); r = uncat(csubstr(out.str, w), n2, sp2, ra, rb, rc); }
    PBT_CHECKM(w <= 300 && r == w, "uncat of raw values read %zu characters, cat wrote %zu", r, w); PBT_CHECKM(n2 == n && sp2 == sp && !memcmp(&a, &a2, sizeof a) && !memcmp(&b, &b2, sizeof b) && !memcmp(&c, &c2, sizeof c), "raw values were not read back");
}
struct R3 { char c[3]; }; struct R24 { char a; double d; short e; };
PBT_TEST(raw_sequences, 1) { switch(s.draw(5)) { case 0: raw_go<int, double, char>(s); break; case 1: raw_go<char, short, R24>(s); break; case 2: raw_go<R3, R24, int>(s); break; case 3: raw_go<double, R3, R3>(s); break; default: raw_go<char, char, long double>(s); } }
