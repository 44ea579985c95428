// P11: format modifiers pad, align and wrap exactly as asked
#include "anyarg.hpp"
using namespace c4; using namespace pbt; using namespace oracle; using anyarg::Any; using anyarg::contract; using anyarg::padl; using anyarg::padr;

static size_t gen_width(Src &s, size_t n) { if(s.chance(1, 64)) return s.edge_size(600); switch(s.draw(4)) { case 0: return s.len(60); case 1: return n; case 2: return n + s.draw(4); default: return n > 3 ? n - s.draw(4) : s.draw(4); } }
template<class T> static void align(Src &s, const char *what, T const& v, std::string const& text, bool exact)
{
    size_t w = gen_width(s, text.size()), w2 = gen_width(s, text.size()); char p = s.coin() ? ' ' : (char)s.draw(256);
    s.note(strf("%s %s width %zu/%zu pad %d", what, shown(text).c_str(), w, w2, p)); if(w > text.size() && !text.empty()) s.nontrivial(strf("%zu %zu ", w, w2) + text);
    contract(s, "left", padl(text, w, p), exact, [&](substr b){ return to_chars(b, fmt::left(v, w, p)); });
    contract(s, "right", padr(text, w, p), exact, [&](substr b){ return to_chars(b, fmt::right(v, w, p)); });
    contract(s, "left (default pad)", padl(text, w, ' '), exact, [&](substr b){ return to_chars(b, fmt::left(v, w)); });
    contract(s, "right (default pad)", padr(text, w, ' '), exact, [&](substr b){ return to_chars(b, fmt::right(v, w)); });
    contract(s, "left(right)", padl(padr(text, w, p), w2, '_'), exact, [&](substr b){ return to_chars(b, fmt::left(fmt::right(v, w, p), w2, '_')); });
    contract(s, "right(left)", padr(padl(text, w, p), w2, '_'), exact, [&](substr b){ return to_chars(b, fmt::right(fmt::left(v, w, p), w2, '_')); });
}
PBT_TEST(alignment, 6)
{
    switch(s.draw(12)) {
    case 0: { int32_t v = s.integer<int32_t>(); align(s, "int32", v, int_text((i128)v, 10, false), true); break; }
    case 1: { uint64_t v = s.integer<uint64_t>(); align(s, "uint64", v, int_text((i128)v, 10, false), true); break; }
    case 2: { int8_t v = s.integer<int8_t>(); align(s, "int8", v, int_text((i128)v, 10, false), true); break; }
    case 3: { char v = (char)s.draw(256); align(s, "char", v, std::string(1, v), true); break; }
    case 4: { bool v = s.coin(); align(s, "boolalpha", fmt::boolalpha(v), v ? "true" : "false", true); break; }
    case 5: { std::string t = s.stretch(s.bytes(30), 600); align(s, "csubstr", csubstr(t.data(), t.size()), t, true); break; }
    case 6: { std::string t = s.stretch(s.bytes(30), 600); align(s, "std::string", t, t, true); break; }
    case 7: { int64_t v = s.integer<int64_t>(); align(s, "hex", fmt::hex(v), int_text((i128)v, 16, true), true); break; }
    case 8: { int v = s.integer<int>(); size_t nd = s.chance(1, 48) ? s.edge_size(600) : s.len(20); align(s, "zpad", fmt::zpad(v, nd), int_text((i128)v, 10, false, nd), true); break; }
    case 9: { double v = gen_real<double>(s); align(s, "double", v, anyarg::ample([&](substr b){ return dtoa(b, v); }), false); break; }
    case 10: { double v = gen_real<double>(s); int p = (int)s.draw(6); align(s, "real", fmt::real(v, p), anyarg::ample([&](substr b){ return dtoa(b, v, p, FTOA_FLOAT); }), false); break; }
    default: { std::string t = s.bytes(20); align(s, "base64", fmt::cbase64(csubstr(t.data(), t.size())), anyarg::b64(t), true); break; }
    }
}
template<class T> static void radix(Src &s, const char *tn)
{
    T v = s.integer<T>(); size_t nd = s.chance(1, 64) ? s.edge_size(600) : s.len(70); i128 x = (i128)v; s.note(strf("%s %s digits %zu", tn, i128s(x).c_str(), nd)); s.nontrivial(hash_str(tn, strlen(tn), (uint64_t)v * 71 + nd));
    contract(s, "hex", int_text(x, 16, true), true, [&](substr b){ return to_chars(b, fmt::hex(v)); });
    contract(s, "oct", int_text(x, 8, true), true, [&](substr b){ return to_chars(b, fmt::oct(v)); });
    contract(s, "bin", int_text(x, 2, true), true, [&](substr b){ return to_chars(b, fmt::bin(v)); });
    contract(s, "integral", int_text(x, 10, false), true, [&](substr b){ return to_chars(b, fmt::integral(v)); });
    contract(s, "zpad", int_text(x, 10, false, nd), true, [&](substr b){ return to_chars(b, fmt::zpad(v, nd)); });
    contract(s, "zpad(hex)", int_text(x, 16, true, nd), true, [&](substr b){ return to_chars(b, fmt::zpad(fmt::hex(v), nd)); });
    contract(s, "zpad(oct)", int_text(x, 8, true, nd), true, [&](substr b){ return to_chars(b, fmt::zpad(fmt::oct(v), nd)); });
    contract(s, "zpad(bin)", int_text(x, 2, true, nd), true, [&](substr b){ return to_chars(b, fmt::zpad(fmt::bin(v), nd)); });
}
PBT_TEST(radixes, 4)
{
    switch(s.draw(8)) {
    case 0: radix<int8_t>(s, "int8"); break; case 1: radix<uint8_t>(s, "uint8"); break; case 2: radix<int16_t>(s, "int16"); break; case 3: radix<uint16_t>(s, "uint16"); break;
    case 4: radix<int32_t>(s, "int32"); break; case 5: radix<uint32_t>(s, "uint32"); break; case 6: radix<int64_t>(s, "int64"); break; default: radix<uint64_t>(s, "uint64"); break;
    }
}
PBT_TEST(pointers, 1)
{
    uintptr_t u = (uintptr_t)s.u64(); int *p = (int*)u; int const* cp = p; i128 x = (i128)(intptr_t)u; size_t nd = s.len(30); s.note(strf("%p digits %zu", (void*)u, nd)); s.nontrivial(u);
    contract(s, "hex(T*)", int_text(x, 16, true), true, [&](substr b){ return to_chars(b, fmt::hex(p)); });
    contract(s, "hex(T const*)", int_text(x, 16, true), true, [&](substr b){ return to_chars(b, fmt::hex(cp)); });
    contract(s, "oct(T*)", int_text(x, 8, true), true, [&](substr b){ return to_chars(b, fmt::oct(p)); });
    contract(s, "oct(T const*)", int_text(x, 8, true), true, [&](substr b){ return to_chars(b, fmt::oct(cp)); });
    contract(s, "bin(T*)", int_text(x, 2, true), true, [&](substr b){ return to_chars(b, fmt::bin(p)); });
    contract(s, "bin(T const*)", int_text(x, 2, true), true, [&](substr b){ return to_chars(b, fmt::bin(cp)); });
    contract(s, "zpad(T*)", int_text(x, 16, true, nd), true, [&](substr b){ return to_chars(b, fmt::zpad(p, nd)); });
    contract(s, "zpad(T const*)", int_text(x, 16, true, nd), true, [&](substr b){ return to_chars(b, fmt::zpad(cp, nd)); });
    contract(s, "zpad(nullptr)", int_text(0, 16, true, nd), true, [&](substr b){ return to_chars(b, fmt::zpad(nullptr, nd)); });
    contract(s, "integral(T*)", int_text(x, 16, true), true, [&](substr b){ return to_chars(b, fmt::integral(cp, (int)16)); });
    contract(s, "hex(null)", "0x0", true, [&](substr b){ return to_chars(b, fmt::hex(nullptr)); });
    contract(s, "oct(null)", "0o0", true, [&](substr b){ return to_chars(b, fmt::oct(nullptr)); });
    contract(s, "bin(null)", "0b0", true, [&](substr b){ return to_chars(b, fmt::bin(nullptr)); });
}
PBT_TEST(truthiness, 1)
{
    int i = s.coin() ? 0 : s.integer<int>(); s.note(strf("%d", i)); s.nontrivial((uint64_t)i);
    contract(s, "boolalpha(int)", i ? "true" : "false", true, [&](substr b){ return to_chars(b, fmt::boolalpha(i)); });
    contract(s, "boolalpha(int64)", i ? "true" : "false", true, [&](substr b){ return to_chars(b, fmt::boolalpha((int64_t)i << 32)); });
    contract(s, "boolalpha(ptr)", i ? "true" : "false", true, [&](substr b){ return to_chars(b, fmt::boolalpha((void*)(intptr_t)i)); });
}
template<class T> static void real(Src &s, fref<size_t(substr, T, int, RealFormat_e)> full)
{
    T v = gen_real<T>(s); int p = (int)s.draw(20) - 1; static const RealFormat_e fs[] = {FTOA_FLOAT, FTOA_SCIENT, FTOA_FLEX, FTOA_HEXA}; RealFormat_e f = s.pick(fs);
    s.note(strf("%a precision %d format %d", (double)v, p, (int)f)); s.nontrivial(to_bits(v) * 97 + (uint64_t)p * 5 + (uint64_t)f);
    contract(s, "fmt::real", anyarg::ample([&](substr b){ return full(b, v, p, f); }), false, [&](substr b){ return to_chars(b, fmt::real(v, p, f)); });
    contract(s, "fmt::real (default format)", anyarg::ample([&](substr b){ return full(b, v, p, FTOA_FLOAT); }), false, [&](substr b){ return to_chars(b, fmt::real(v, p)); });
}
PBT_TEST(reals, 2)
{
    if(s.coin()) real<float>(s, [](substr b, float v, int p, RealFormat_e f){ return ftoa(b, v, p, f); });
    else real<double>(s, [](substr b, double v, int p, RealFormat_e f){ return dtoa(b, v, p, f); });
}
// raw binary wrappers: bytes at the first aligned position, and back
struct Pod { uint32_t a; double b; char c[5]; bool operator==(Pod const& o) const { return a == o.a && memcmp(&b, &o.b, 8) == 0 && memcmp(c, o.c, 5) == 0; } };
template<class T> static void raw(Src &s, const char *tn, T const& v)
{
    size_t off = s.draw(17), len = sizeof(T) + s.draw(20);
    s.note(strf("raw %s at offset %zu length %zu", tn, off, len)); s.nontrivial(strf("%s %zu %zu", tn, off, len));
    Buf b(off + len + 64, '#'); b.ptr[0] = '#'; substr d(b.ptr + off, len);
    size_t pad = (alignof(T) - ((uintptr_t)d.str & (alignof(T) - 1))) & (alignof(T) - 1);
    size_t r = to_chars(d, fmt::craw(v)); b.check("raw");
    if(pad + sizeof(T) > len) { PBT_CHECKM(r > len, "raw(%s) claims to fit", tn); return; }
    PBT_CHECKM(r == pad + sizeof(T), "raw(%s) returned %zu, expected %zu", tn, r, pad + sizeof(T));
    PBT_CHECK(memcmp(d.str + pad, &v, sizeof(T)) == 0);
    for(size_t i = 0; i < b.len; ++i) if(i < off || i >= off + r) PBT_CHECKM(b.ptr[i] == '#', "raw(%s) wrote outside of the addressed bytes", tn);
    PBT_CHECK(to_chars(d, fmt::raw(v)) == r);
    T w; memset(&w, 0x55, sizeof(w)); fmt::raw_wrapper rw = fmt::raw(w);
    PBT_CHECK(from_chars(d, &rw) && memcmp(&w, &v, sizeof(T)) == 0);
    memset(&w, 0x55, sizeof(w)); PBT_CHECK(from_chars(d, fmt::raw(w)) && memcmp(&w, &v, sizeof(T)) == 0);
    memset(&w, 0x55, sizeof(w)); PBT_CHECKM(from_chars_first(d, fmt::raw(w)) == r && memcmp(&w, &v, sizeof(T)) == 0, "from_chars_first(raw %s)", tn);
    if(r > 1) PBT_CHECKM(raises([&]{ from_chars(d.first(r - 1), fmt::raw(w)); }), "reading raw data from a string that is too short is not reported");
}
PBT_TEST(raws, 2)
{
    switch(s.draw(5)) {
    case 0: raw<char>(s, "char", (char)s.draw(256)); break; case 1: raw<uint16_t>(s, "uint16", s.integer<uint16_t>()); break; case 2: raw<uint64_t>(s, "uint64", s.u64()); break;
    case 3: raw<float>(s, "float", gen_real<float>(s)); break;
    default: { Pod p; memset(&p, 0, sizeof(p)); p.a = s.integer<uint32_t>(); p.b = gen_real<double>(s); std::string t = s.bytes(5); memcpy(p.c, t.data(), t.size()); raw<Pod>(s, "struct", p); break; }
    }
}
