// A type-erased argument for the formatting functions: one generated value of
// one of many argument kinds, together with the text it should be written as.
#ifndef ANYARG_HPP_
#define ANYARG_HPP_
#include "oracle_int.hpp"
#include "oracle_real.hpp"
#include <c4/format.hpp>
#include <c4/base64.hpp>
#include <c4/std/string.hpp>
#include <c4/std/vector.hpp>
namespace anyarg {
using c4::substr; using c4::csubstr; using c4::to_chars; using namespace pbt;
namespace fmt = c4::fmt;
/** write with as much space as it asks for */
inline std::string ample(fref<size_t(substr)> f)
{
    std::string b(512, '\0');
    for(int i = 0; i < 100; ++i) {
        size_t r = f(substr(&b[0], b.size()));
        if(r <= b.size()) { b.resize(r); return b; }
        b.assign(std::max(r, 2 * b.size()), '\0');
    }
    fail("writer never succeeds");
}
inline std::string b64(std::string const& d)
{
    static const char *tb = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r;
    for(size_t i = 0; i < d.size(); i += 3) {
        unsigned n = 0; size_t k = std::min<size_t>(3, d.size() - i);
        for(size_t j = 0; j < 3; ++j) n = n * 256 + (j < k ? (unsigned char)d[i + j] : 0);
        for(size_t j = 0; j < 4; ++j) r += j <= k ? tb[(n >> (18 - 6 * j)) & 63] : '=';
    }
    return r;
}
inline std::string padl(std::string t, size_t w, char p) { return t.size() < w ? t + std::string(w - t.size(), p) : t; }
inline std::string padr(std::string t, size_t w, char p) { return t.size() < w ? std::string(w - t.size(), p) + t : t; }
struct Any
{
    enum Kind { I32, U64, I8, U16, I64, CHAR, BOOL, CSUB, STR, CSTR, VEC, F64, F32, RADIX, ZPAD, LEFTI, RIGHTS, BALPHA, REAL, PTR, B64, RIGHTD, NEST, LEFTC, KINDS };
    int kind; uint64_t u; double d; float f; std::string s; std::vector<char> v; size_t w, w2; char pad; unsigned radix; int prec; c4::RealFormat_e rf;
    std::string text;
    Any() : kind(I32), u(0), d(0), f(0), w(0), w2(0), pad(' '), radix(10), prec(0), rf(c4::FTOA_FLOAT), text("0") {}
    bool real() const { return kind == F64 || kind == F32 || kind == REAL || kind == RIGHTD; }
    csubstr sub() const { return csubstr(s.data(), s.size()); }
    /** the one place where the argument is handed to the library, with its own type */
    template<class R, class F> R visit(F const& g) const
    {
        switch(kind) {
        case I32: return g((int32_t)u); case U64: return g((uint64_t)u); case I8: return g((int8_t)u); case U16: return g((uint16_t)u); case I64: return g((int64_t)u);
        case CHAR: return g((char)u); case BOOL: return g((u & 1) != 0); case CSUB: return g(sub()); case STR: return g(s); case CSTR: return g(s.c_str()); case VEC: return g(v);
        case F64: return g(d); case F32: return g(f);
        case RADIX: return g(fmt::integral((int64_t)u, (int64_t)radix)); case ZPAD: return g(fmt::zpad((int32_t)u, w));
        case LEFTI: return g(fmt::left((int32_t)u, w, pad)); case RIGHTS: return g(fmt::right(sub(), w, pad)); case BALPHA: return g(fmt::boolalpha(u & 1));
        case REAL: return g(fmt::real(d, prec, rf)); case PTR: return g((void*)(uintptr_t)u); case B64: return g(fmt::cbase64(sub()));
        case RIGHTD: return g(fmt::right(d, w, pad)); case NEST: return g(fmt::left(fmt::right((int64_t)u, w, pad), w2, '_'));
        default: return g(fmt::left((char)u, w, pad));
        }
    }
};
struct W { substr b; template<class T> size_t operator() (T const& v) const { return to_chars(b, v); } };
__attribute__((noinline)) inline size_t to_chars(substr buf, Any const& a) { W w = {buf}; return a.visit<size_t>(w); }
/** realmode: 0 = no reals */
inline Any gen(Src &s, bool reals=true, size_t maxstr=20)
{
    static const char alpha[] = "abcXYZ 019-.,:{}\"\n%";
    Any a; do { a.kind = (int)s.draw(Any::KINDS); } while(a.real() && !reals);
    a.u = s.integer<int64_t>(); if(s.coin()) a.u = (uint64_t)(int64_t)s.irange(-200, 200);
    switch(a.kind) {
    case Any::CSUB: case Any::STR: case Any::RIGHTS: a.s = s.stretch(s.coin() ? s.str(maxstr, alpha) : s.bytes(maxstr), 1100); break;
    case Any::CSTR: a.s = s.stretch(s.str(maxstr, alpha), 1100); break;
    case Any::VEC: { std::string t = s.stretch(s.bytes(maxstr), 1100); a.v.assign(t.begin(), t.end()); a.text = t; break; }
    case Any::B64: a.s = s.stretch(s.bytes(maxstr), 600); break;
    case Any::F64: case Any::REAL: case Any::RIGHTD: a.d = oracle::gen_real<double>(s); break;
    case Any::F32: a.f = oracle::gen_real<float>(s); break;
    default: break;
    }
    if(a.kind == Any::REAL) { a.prec = (int)s.draw(8); static const c4::RealFormat_e fs[] = {c4::FTOA_FLOAT, c4::FTOA_SCIENT, c4::FTOA_FLEX, c4::FTOA_HEXA}; a.rf = s.pick(fs); }
    static const char pads[] = {' ', '*', '0', '\0', (char)0xff}; static const unsigned rx[] = {10, 16, 8, 2};
    a.pad = s.pick(pads); a.radix = s.pick(rx); a.w = s.len(30); a.w2 = s.len(30); if(s.chance(1, 64)) a.w = s.edge_size(600); if(s.chance(1, 64)) a.w2 = s.edge_size(600);
    typedef oracle::i128 i128; using oracle::int_text;
    switch(a.kind) {
    case Any::I32: a.text = int_text((i128)(int32_t)a.u, 10, false); break; case Any::U64: a.text = int_text((i128)a.u, 10, false); break;
    case Any::I8: a.text = int_text((i128)(int8_t)a.u, 10, false); break; case Any::U16: a.text = int_text((i128)(uint16_t)a.u, 10, false); break;
    case Any::I64: a.text = int_text((i128)(int64_t)a.u, 10, false); break;
    case Any::CHAR: a.text = std::string(1, (char)a.u); break; case Any::BOOL: a.text = (a.u & 1) ? "1" : "0"; break;
    case Any::CSUB: case Any::STR: case Any::CSTR: a.text = a.s; break; case Any::VEC: break;
    case Any::F64: a.text = ample([&](substr b){ return c4::dtoa(b, a.d); }); break; case Any::F32: a.text = ample([&](substr b){ return c4::ftoa(b, a.f); }); break;
    case Any::RADIX: a.text = int_text((i128)(int64_t)a.u, a.radix, true); break; case Any::ZPAD: a.text = int_text((i128)(int32_t)a.u, 10, false, a.w); break;
    case Any::LEFTI: a.text = padl(int_text((i128)(int32_t)a.u, 10, false), a.w, a.pad); break; case Any::RIGHTS: a.text = padr(a.s, a.w, a.pad); break;
    case Any::BALPHA: a.text = (a.u & 1) ? "true" : "false"; break; case Any::REAL: a.text = ample([&](substr b){ return c4::dtoa(b, a.d, a.prec, a.rf); }); break;
    case Any::PTR: a.text = int_text((i128)(int64_t)a.u, 16, true); break; case Any::B64: a.text = b64(a.s); break;
    case Any::RIGHTD: a.text = padr(ample([&](substr b){ return c4::dtoa(b, a.d); }), a.w, a.pad); break;
    case Any::NEST: a.text = padl(padr(int_text((i128)(int64_t)a.u, 10, false), a.w, a.pad), a.w2, '_'); break;
    default: a.text = padl(std::string(1, (char)a.u), a.w, a.pad); break;
    }
    return a;
}
inline std::string desc(Any const& a) { return strf("k%d:%s", a.kind, shown(a.text).c_str()); }
/** format-string model */
inline std::string model_format(std::string fmt, std::vector<Any> const& args)
{
    std::string r; size_t k = 0;
    for(;;) {
        size_t p = k < args.size() ? fmt.find("{}") : std::string::npos;
        if(p == std::string::npos) return r + fmt;
        r += fmt.substr(0, p) + args[k++].text; fmt = fmt.substr(p + 2);
    }
}
inline std::string gen_format(Src &s, size_t nargs)
{
    static const char alpha[] = "{}ab %";
    std::string f; size_t holes = s.coin() ? nargs : s.len(6);
    for(size_t i = 0; i < holes; ++i) { f += s.chance(1, 3) ? s.str(4, alpha) : s.str(4, "xyz "); f += "{}"; }
    f += s.str(5, alpha); return s.chance(1, 48) ? std::string(s.edge_size(1100), "x{}"[s.draw(3)]) + f : f;
}
/** buffer contract: for buffers of all lengths up to and beyond what is needed */
inline void contract(Src &s, const char *what, std::string const& expected, bool exact, fref<size_t(substr)> f)
{
    size_t n = expected.size();
    std::vector<size_t> lens;
    if(n <= 40) for(size_t i = 0; i <= n + 3; ++i) lens.push_back(i);
    else { static const int around[] = {-2, -1, 0, 1, 2, 40}; for(int d : around) lens.push_back(n + (size_t)d); lens.push_back(0); lens.push_back(1); for(int i = 0; i < 6; ++i) lens.push_back((size_t)s.draw(n)); }
    for(size_t len : lens) {
        size_t L = len;
        for(int it = 0; ; ++it) {
            Buf b(L, '#');
            size_t r = f(L || it || !(n & 1) ? substr(b.ptr, b.len) : substr());
            b.check(what);
            if(exact) PBT_CHECKM(r == n, "%s with a buffer of %zu: returned %zu, but %s needs %zu", what, L, r, shown(expected).c_str(), n);
            if(r <= L) {
                PBT_CHECKM(r == n && b.first(r) == expected, "%s with a buffer of %zu: wrote %s, expected %s", what, L, shown(b.first(r)).c_str(), shown(expected).c_str());
                break;
            }
            PBT_CHECKM(L < n || !exact, "%s with a buffer of %zu: asks for %zu, but %s fits", what, L, r, shown(expected).c_str());
            PBT_CHECKM(it < 1500 && r < 1000000, "%s: retrying from a buffer of %zu does not succeed (asks for %zu of %zu)", what, len, r, n);
            L = r;
            if(exact) PBT_CHECK(it < 2);
        }
    }
}
} // namespace anyarg
#endif
