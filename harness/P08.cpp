// P08: output never exceeds the given buffer and reports the size it needs
#include "huge.hpp"
#include "anyarg.hpp"
#if __cplusplus >= 201703L
#include <c4/std/string_view.hpp>
#endif
using namespace c4; using namespace pbt; using namespace oracle; using anyarg::Any; using anyarg::contract; using anyarg::ample;

PBT_TEST(any_argument, 6)
{
    Any a = anyarg::gen(s, true, 60); s.note(anyarg::desc(a)); s.nontrivial(hash_str(a.text, (uint64_t)a.kind));
    contract(s, strf("to_chars(kind %d)", a.kind).c_str(), a.text, !a.real(), [&](substr b){ return to_chars(b, a); });
    contract(s, "to_chars_sub", a.text, false, [&](substr b){ substr r = to_chars_sub(b, a); PBT_CHECK(r.len <= b.len && (r.str == b.str)); size_t n = to_chars(b, a); PBT_CHECK(r.len == std::min(n, b.len)); return n; });
}
/** a call which writes nothing when the buffer is too small */
template<class F> static size_t untouched(substr b, F f) { std::string before(b.str, b.len); size_t r = f(); PBT_CHECKM(r <= b.len || before == std::string(b.str, b.len), "a buffer of %zu characters, too small for the %zu needed, was written to", b.len, r); return r; }
template<class T> static void ints(Src &s, const char *tn)
{
    T v = s.integer<T>(); static const unsigned rx[] = {10, 16, 8, 2}; unsigned radix = s.pick(rx); size_t nd = s.len(70); i128 x = (i128)v;
    std::string pre = strf("%s %s radix %u digits %zu", tn, i128s(x).c_str(), radix, nd); s.note(pre); s.nontrivial(pre);
    contract(s, ("to_chars " + pre).c_str(), int_text(x, 10, false), true, [&](substr b){ return to_chars(b, v); });
    contract(s, ("xtoa " + pre).c_str(), int_text(x, 10, false), true, [&](substr b){ return untouched(b, [&]{ return xtoa(b, v); }); });
    contract(s, ("xtoa(radix) " + pre).c_str(), int_text(x, radix, true), true, [&](substr b){ return untouched(b, [&]{ return xtoa(b, v, (T)radix); }); });
    contract(s, ("xtoa(radix,digits) " + pre).c_str(), int_text(x, radix, true, nd), true, [&](substr b){ return untouched(b, [&]{ return xtoa(b, v, (T)radix, nd); }); });
    contract(s, ("fmt::integral " + pre).c_str(), int_text(x, radix, true), true, [&](substr b){ return to_chars(b, fmt::integral(v, (T)radix)); });
    contract(s, ("fmt::zpad " + pre).c_str(), int_text(x, radix, true, nd), true, [&](substr b){ return to_chars(b, fmt::zpad(fmt::integral(v, (T)radix), nd)); });
    if(x >= 0) {
        contract(s, ("write_dec " + pre).c_str(), int_text(x, 10, false), true, [&](substr b){ return untouched(b, [&]{ return write_dec(b, v); }); });
        contract(s, ("write_hex " + pre).c_str(), int_text(x, 16, false), true, [&](substr b){ return untouched(b, [&]{ return write_hex(b, v); }); });
        contract(s, ("write_oct " + pre).c_str(), int_text(x, 8, false), true, [&](substr b){ return untouched(b, [&]{ return write_oct(b, v); }); });
        contract(s, ("write_bin " + pre).c_str(), int_text(x, 2, false), true, [&](substr b){ return untouched(b, [&]{ return write_bin(b, v); }); });
        contract(s, ("write_dec(digits) " + pre).c_str(), int_text(x, 10, false, nd), true, [&](substr b){ return write_dec(b, v, nd); });
        contract(s, ("write_hex(digits) " + pre).c_str(), int_text(x, 16, false, nd), true, [&](substr b){ return write_hex(b, v, nd); });
        contract(s, ("write_oct(digits) " + pre).c_str(), int_text(x, 8, false, nd), true, [&](substr b){ return write_oct(b, v, nd); });
        contract(s, ("write_bin(digits) " + pre).c_str(), int_text(x, 2, false, nd), true, [&](substr b){ return write_bin(b, v, nd); });
    }
}
PBT_TEST(integers, 5)
{
    switch(s.draw(8)) {
    case 0: ints<int8_t>(s, "int8"); break; case 1: ints<uint8_t>(s, "uint8"); break;
    case 2: ints<int16_t>(s, "int16"); break; case 3: ints<uint16_t>(s, "uint16"); break;
    case 4: ints<int32_t>(s, "int32"); break; case 5: ints<uint32_t>(s, "uint32"); break;
    case 6: ints<uint64_t>(s, "uint64"); break;
    case 77: ints<uint64_t>(s, "uint64"); break;
    default: ints<int64_t>(s, "int64"); break;
    }
}
template<class T> static void reals(Src &s, fref<size_t(substr, T)> plain, fref<size_t(substr, T, int, RealFormat_e)> full)
{
    T v = gen_real<T>(s); static const RealFormat_e fs[] = {FTOA_FLOAT, FTOA_SCIENT, FTOA_FLEX, FTOA_HEXA}; RealFormat_e f = s.pick(fs); int prec = (int)s.draw(s.coin() ? 4 : 40) - 1;
    std::string pre = strf("%s %a format %d precision %d", bits_of<T>::name(), (double)v, (int)f, prec); s.note(pre); s.nontrivial(pre);
    contract(s, ("plain " + pre).c_str(), ample([&](substr b){ return plain(b, v); }), false, [&](substr b){ return plain(b, v); });
    contract(s, ("full " + pre).c_str(), ample([&](substr b){ return full(b, v, prec, f); }), false, [&](substr b){ return full(b, v, prec, f); });
    contract(s, ("fmt::real " + pre).c_str(), ample([&](substr b){ return full(b, v, prec, f); }), false, [&](substr b){ return to_chars(b, fmt::real(v, prec, f)); });
}
PBT_TEST(real_numbers, 3)
{
    if(s.coin()) reals<float>(s, [](substr b, float v){ return to_chars(b, v); }, [](substr b, float v, int p, RealFormat_e f){ return ftoa(b, v, p, f); });
    else reals<double>(s, [](substr b, double v){ return to_chars(b, v); }, [](substr b, double v, int p, RealFormat_e f){ return dtoa(b, v, p, f); });
}
static size_t do_cat(substr b, std::vector<Any> const& a)
{
    PBT_SPREAD(a, cat, b)
}
template<class S> static size_t do_catsep(substr b, S const& sep, std::vector<Any> const& a)
{
    PBT_SPREAD(a, catsep, b, sep)
}
static size_t do_format(substr b, csubstr f, std::vector<Any> const& a)
{
    PBT_SPREAD(a, format, b, f)
}
PBT_TEST(lists, 5)
{
    size_t n = s.chance(1, 6) ? s.range(5, 12) : s.len(4); std::vector<Any> a; bool reals = s.chance(1, 3), exact = true; std::string c, cs, f;
    Any sep = anyarg::gen(s, reals, 5); if(sep.real() && n > 1) exact = false;
    std::string d;
    for(size_t i = 0; i < n; ++i) { a.push_back(anyarg::gen(s, reals, 12)); if(a[i].real()) exact = false; c += a[i].text; if(i) cs += sep.text; cs += a[i].text; d += anyarg::desc(a[i]) + " "; }
    f = anyarg::gen_format(s, n);
    s.note(strf("args [%s] sep %s format %s", d.c_str(), anyarg::desc(sep).c_str(), shown(f).c_str())); if(n > 1) s.nontrivial(d + f);
    contract(s, "cat", c, exact, [&](substr b){ return do_cat(b, a); });
    contract(s, "catsep", cs, exact, [&](substr b){ return do_catsep(b, sep, a); });
    contract(s, "format", anyarg::model_format(f, a), exact, [&](substr b){ return do_format(b, csubstr(f.data(), f.size()), a); });
}
PBT_TEST(strings, 2)
{
    std::string t = s.bytes(60); s.note(shown(t)); if(!t.empty()) s.nontrivial(t);
    std::vector<char> v(t.begin(), t.end()); Buf in(t); substr ms(in.ptr, in.len); csubstr cs(in.ptr, in.len);
    contract(s, "to_chars(std::string)", t, true, [&](substr b){ return to_chars(b, t); });
    contract(s, "to_chars(std::vector<char>)", t, true, [&](substr b){ return to_chars(b, v); });
    contract(s, "to_chars(substr)", t, true, [&](substr b){ return to_chars(b, ms); });
    contract(s, "to_chars(csubstr)", t, true, [&](substr b){ return to_chars(b, cs); });
    contract(s, "xtoa/base64_encode", anyarg::b64(t), true, [&](substr b){ return base64_encode(b, cblob(in.ptr, in.len)); });
    contract(s, "to_chars(base64)", anyarg::b64(t), true, [&](substr b){ return to_chars(b, fmt::cbase64(cs)); });
    #if __cplusplus >= 201703L
    contract(s, "to_chars(string_view)", t, true, [&](substr b){ return to_chars(b, std::string_view(t)); });
    #endif
    contract(s, "to_chars(literal)", "a literal", true, [&](substr b){ return to_chars(b, "a literal"); });
    contract(s, "to_chars(bool)", t.size() & 1 ? "1" : "0", true, [&](substr b){ return to_chars(b, (t.size() & 1) != 0); });
    contract(s, "to_chars(nullptr hex)", "0x0", true, [&](substr b){ return to_chars(b, fmt::hex(nullptr)); });
    // replacement
    std::string pat = s.str(2, "ab"), rep = s.str(5, "xyz"), src = s.str(20, "abc"); if(pat.empty()) pat = "a";
    std::string exp; for(size_t i = 0; i < src.size();) { if(src.compare(i, pat.size(), pat) == 0) { exp += rep; i += pat.size(); } else exp += src[i++]; }
    csubstr cp(pat.data(), pat.size()), cr(rep.data(), rep.size()), csrc(src.data(), src.size());
    contract(s, "replace_all", exp, true, [&](substr b){ return csrc.replace_all(b, cp, cr); });
    // decoding binary data
    std::string enc = anyarg::b64(t); csubstr ce(enc.data(), enc.size());
    contract(s, "base64_decode", t, true, [&](substr b){ return base64_decode(ce, blob(b.str, b.len)); });
}
PBT_TEST(raw_binary, 1)
{
    // the text depends on the alignment of the buffer: check bounds, size and content at every misalignment
    size_t al = (size_t)1 << s.draw(5), n = s.len(40), off = s.draw(17), len = s.len(80);
    std::string t(n, 'q'); for(size_t i = 0; i < n; ++i) t[i] = (char)s.draw(256);
    s.note(strf("raw %zu bytes, alignment %zu, buffer offset %zu length %zu", n, al, off, len)); s.nontrivial(strf("%zu %zu %zu %zu", al, n, off, len));
    for(int it = 0; it < 3; ++it) {
        Buf b(off + len, '#'); size_t pad = (al - ((uintptr_t)(b.ptr + off) & (al - 1))) & (al - 1);
        size_t r = to_chars(substr(b.ptr + off, len), fmt::craw(cblob(t.data(), t.size()), al)); b.check("raw");
        for(size_t i = 0; i < off; ++i) PBT_CHECKM(b.ptr[i] == '#', "raw wrote before the buffer");
        if(r <= len) { PBT_CHECKM(r == pad + n, "raw returned %zu, expected %zu", r, pad + n); PBT_CHECK(b.str().substr(off + pad, n) == t); break; }
        PBT_CHECKM(pad + n > len, "raw asks for %zu, but %zu fits", r, pad + n);
        PBT_CHECK(it < 2); len = r;
    }
}
// sizes beyond 32 bits are reported as they are
template<class T> static void wide(Src &s, const char *tn)
{
    T v = s.integer<T>(); static const unsigned rx[] = {10, 16, 8, 2}; unsigned radix = s.pick(rx); size_t nd = huge::size(s, 48), len = s.len(80); i128 x = (i128)v; std::string pre = strf("%s %s radix %u digits %zu in a buffer of %zu", tn, i128s(x).c_str(), radix, nd, len); s.note(pre); s.nontrivial(pre);
    size_t want = nd + (x < 0) + (radix != 10 ? 2 : 0), r; Buf b(len, '#'); substr d(b.ptr, len);
    r = xtoa(d, v, (T)radix, nd); PBT_CHECKM(r == want, "xtoa %s returned %zu, expected %zu", pre.c_str(), r, want);
    r = to_chars(d, fmt::zpad(fmt::integral(v, (T)radix), nd)); PBT_CHECKM(r == want, "zpad %s returned %zu, expected %zu", pre.c_str(), r, want);
    r = cat(d, fmt::zpad(fmt::integral(v, (T)radix), nd), 'x'); PBT_CHECKM(r == want + 1, "cat of zpad %s returned %zu, expected %zu", pre.c_str(), r, want + 1);
    if(x >= 0) { PBT_CHECKM(write_dec(d, v, nd) == nd && write_hex(d, v, nd) == nd && write_oct(d, v, nd) == nd && write_bin(d, v, nd) == nd, "write %s did not return the number of digits", pre.c_str()); }
}
PBT_TEST(huge_sizes, 2)
{
    size_t k = s.draw(10); switch(k) {
    case 0: wide<int8_t>(s, "int8"); return; case 1: wide<uint8_t>(s, "uint8"); return; case 2: wide<int16_t>(s, "int16"); return; case 3: wide<uint16_t>(s, "uint16"); return; case 4: wide<int32_t>(s, "int32"); return; case 5: wide<uint32_t>(s, "uint32"); return; case 6: wide<int64_t>(s, "int64"); return; case 7: wide<uint64_t>(s, "uint64"); return; default: break; }
    size_t len = s.len(80), w = huge::size(s, 48), n = huge::size(s, 33), r; int v = s.integer<int>(); Buf b(len, '#'); substr d(b.ptr, len); std::string pre = strf("width %zu, view of %zu, buffer of %zu", w, n, len); s.note(pre); s.nontrivial(pre);
    r = to_chars(d, fmt::left(v, w)); PBT_CHECKM(r == w, "left: %s: %zu", pre.c_str(), r); r = to_chars(d, fmt::right(v, w)); PBT_CHECKM(r == w, "right: %s: %zu", pre.c_str(), r);
    char *m = huge::region(); if(!m) { s.label("no large region"); return; } csubstr h(m, n); size_t nv = int_text((i128)v, 10, false).size();
    r = to_chars(d, h); PBT_CHECKM(r == n, "to_chars: %s: %zu", pre.c_str(), r); r = cat(d, h, v, h); PBT_CHECKM(r == 2 * n + nv, "cat: %s: %zu", pre.c_str(), r); r = catsep(d, ", ", h, v, h); PBT_CHECKM(r == 2 * n + nv + 4, "catsep: %s: %zu", pre.c_str(), r); r = format(d, "<{}|{}>", h, v); PBT_CHECKM(r == n + nv + 3, "format: %s: %zu", pre.c_str(), r); r = to_chars(d, fmt::right(h, w)); PBT_CHECKM(r == std::max(n, w), "right(view): %s: %zu", pre.c_str(), r); r = to_chars(d, fmt::left(h, w)); PBT_CHECKM(r == std::max(n, w), "left(view): %s: %zu", pre.c_str(), r); r = to_chars(d, fmt::craw(cblob(m, n), 1)); PBT_CHECKM(r > len && r >= n, "raw: %s: %zu", pre.c_str(), r);
}
