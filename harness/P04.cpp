// P04: every scalar value survives a write/read round trip
#include "oracle_int.hpp"
#include "oracle_real.hpp"
#include <c4/charconv.hpp>
#include <c4/format.hpp>
using namespace c4; using namespace pbt; using namespace oracle;

static std::string wr(fref<size_t(substr)> f, const char *what)
{
    // exact-size loop: start from nothing, grow as told
    size_t n = 0;
    for(int i = 0; i < 2000; ++i) {
        Buf b(n, '#');
        size_t r = f(substr(b.ptr, b.len)); b.check(what);
        if(r <= n) return b.first(r);
        n = r;
    }
    fail(std::string(what) + ": the size needed never converges");
}
template<class T> static void rt_int(Src &s, const char *tn)
{
    T v = s.integer<T>();
    static const unsigned rx[] = {10, 16, 8, 2};
    unsigned radix = s.pick(rx); size_t nd = s.len(20);
    s.note(strf("%s %s radix %u digits %zu", tn, i128s((i128)v).c_str(), radix, nd)); s.nontrivial(hash_str(tn, strlen(tn), (uint64_t)v * 16 + radix));
    std::string txt[] = { wr([&](substr b){ return to_chars(b, v); }, "to_chars"), wr([&](substr b){ return to_chars(b, fmt::integral(v, (T)radix)); }, "integral"),
        wr([&](substr b){ return to_chars(b, fmt::zpad(fmt::integral(v, (T)radix), nd)); }, "zpad") };
    for(auto const& t : txt) {
        T w = (T)(v + 1); Buf b(t, '0');
        PBT_CHECKM(from_chars(csubstr(b.ptr, b.len), &w) && w == v, "%s %s written as '%s' read back as %s", tn, i128s((i128)v).c_str(), t.c_str(), i128s((i128)w).c_str());
        w = (T)(v + 1);
        PBT_CHECKM(from_chars(csubstr(b.ptr, b.len), fmt::overflow_checked(w)) && w == v, "%s %s written as '%s', overflow-checked read back as %s", tn, i128s((i128)v).c_str(), t.c_str(), i128s((i128)w).c_str());
    }
}
PBT_TEST(ints, 4)
{
    switch(s.draw(10)) {
    case 0: rt_int<int8_t>(s, "int8"); break; case 1: rt_int<uint8_t>(s, "uint8"); break;
    case 2: rt_int<int16_t>(s, "int16"); break; case 3: rt_int<uint16_t>(s, "uint16"); break;
    case 4: rt_int<int32_t>(s, "int32"); break; case 5: rt_int<uint32_t>(s, "uint32"); break;
    case 6: rt_int<int64_t>(s, "int64"); break; case 7: rt_int<uint64_t>(s, "uint64"); break;
    case 8: rt_int<long long>(s, "long long"); break; default: rt_int<unsigned long long>(s, "unsigned long long"); break;
    }
}
PBT_TEST(pointers, 1)
{
    void *p = (void*)(uintptr_t)s.u64(), *q = &p; s.note(strf("pointer %p", p)); s.nontrivial((uint64_t)(uintptr_t)p);
    std::string t = wr([&](substr b){ return to_chars(b, p); }, "to_chars(ptr)");
    Buf b(t, '0');
    PBT_CHECKM(from_chars(csubstr(b.ptr, b.len), &q) && q == p, "%p written as '%s' read back as %p", p, t.c_str(), q);
    q = &p; PBT_CHECK(atox(csubstr(b.ptr, b.len), &q) && q == p);
    int *ip = (int*)p, *iq = nullptr; t = wr([&](substr bb){ return to_chars(bb, ip); }, "to_chars(int*)");
    PBT_CHECK(from_chars(csubstr(t.data(), t.size()), &iq) && iq == ip);
}
PBT_ENUM(bool_char, 258)
{
    uint64_t k = s.draw(258); s.nontrivial(k);
    if(k < 2) {
        bool v = k != 0, w = !v; s.note(v ? "true" : "false");
        std::string t = wr([&](substr b){ return to_chars(b, v); }, "bool");
        PBT_CHECK(from_chars(csubstr(t.data(), t.size()), &w) && w == v);
        t = wr([&](substr b){ return to_chars(b, fmt::boolalpha(v)); }, "boolalpha"); w = !v;
        PBT_CHECKM(t == (v ? "true" : "false"), "%s", t.c_str());
        PBT_CHECK(from_chars(csubstr(t.data(), t.size()), &w) && w == v);
    } else {
        char v = (char)(unsigned char)(k - 2), w = (char)(v + 1); s.note(strf("char %d", v));
        std::string t = wr([&](substr b){ return to_chars(b, v); }, "char");
        PBT_CHECK(t.size() == 1 && t[0] == v);
        PBT_CHECK(from_chars(csubstr(t.data(), t.size()), &w) && w == v);
        w = (char)(v + 1); PBT_CHECK(from_chars_first(csubstr(t.data(), t.size()), &w) == 1 && w == v);
    }
}
template<class T> static void rt_real(Src &s)
{
    T v = gen_real<T>(s);
    s.note(strf("%s %a", bits_of<T>::name(), (double)v)); s.nontrivial(hash_str(bits_of<T>::name(), 5, to_bits(v)));
    s.label(isnan(v) ? "nan" : isinf(v) ? "inf" : v == 0 ? "zero" : fabs(v) < std::numeric_limits<T>::min() ? "subnormal" : "normal");
    #ifdef C4CORE_NO_FAST_FLOAT
    enum { hexread = C4_CPP < 17 };
    #else
    enum { hexread = 1 };
    #endif
    // default format: shortest round trip where the standard library has it; otherwise ask for max_digits10
    int p = -1;
    #if !C4CORE_HAVE_STD_TOCHARS
    p = std::numeric_limits<T>::max_digits10;
    #endif
    std::vector<std::string> txt;
    txt.push_back(wr([&](substr b){ return xtoa(b, v, p, FTOA_FLEX); }, "flex"));
    #if C4CORE_HAVE_STD_TOCHARS
    txt.push_back(wr([&](substr b){ return to_chars(b, v); }, "to_chars"));
    txt.push_back(wr([&](substr b){ return xtoa(b, v, -1, FTOA_SCIENT); }, "scient"));
    txt.push_back(wr([&](substr b){ return to_chars(b, fmt::real(v, -1)); }, "float"));
    #endif
    txt.push_back(wr([&](substr b){ return xtoa(b, v, std::numeric_limits<T>::max_digits10 - 1, FTOA_SCIENT); }, "scient"));
    if(hexread) txt.push_back(wr([&](substr b){ return xtoa(b, v, -1, FTOA_HEXA); }, "hexa"));
    for(auto const& t : txt) {
        T w = (T)3;
        #ifdef C4CORE_NO_FAST_FLOAT
        std::string tt = t + "5"; csubstr cs(tt.data(), t.size());
        if(isfinite(v) && v != 0 && fabs(v) < std::numeric_limits<T>::min() && !from_chars(cs, &w)) { continue; }
        #else
        Buf b(t, '5'); csubstr cs(b.ptr, b.len);
        #endif
        bool ok = from_chars(cs, &w);
        PBT_CHECKM(ok && same(w, v), "%s %a written as '%s' read back as %a (%d)", bits_of<T>::name(), (double)v, t.c_str(), (double)w, ok);
        PBT_CHECKM(isnan(v) || signbit(w) == signbit(v), "sign of %s", t.c_str());
    }
}
PBT_TEST(f32, 4) { rt_real<float>(s); }
PBT_TEST(f64, 4) { rt_real<double>(s); }
// float: every sign/exponent with boundary and sampled mantissas
PBT_ENUM_THOROUGH(f32_sweep, 1 << 22)
{
    uint64_t k = s.draw(1 << 22);
    float v = from_bits<float>((uint32_t)(k << 10) | (uint32_t)(mix64(k) & 0x3ff)); s.nontrivial(k);
    #if C4CORE_HAVE_STD_TOCHARS
    char b[128]; size_t n = to_chars(substr(b, sizeof(b)), v); float w = 3;
    PBT_CHECK(n <= sizeof(b) && from_chars(csubstr(b, n), &w) && same(v, w));
    n = xtoa(substr(b, sizeof(b)), v, -1, FTOA_HEXA); w = 3;
    #ifndef C4CORE_NO_FAST_FLOAT
    PBT_CHECK(n <= sizeof(b) && from_chars(csubstr(b, n), &w) && same(v, w));
    #endif
    #else
    (void)v;
    #endif
}

// raw binary
struct Pod { char a; uint64_t b; uint16_t c[3]; double d; };
template<class T> static void rt_raw(Src &s, const char *tn)
{
    T v; memset(&v, 0, sizeof(v)); for(size_t i = 0; i < sizeof(T); ++i) ((char*)&v)[i] = (char)s.draw(256);
    size_t off = s.draw(17), slack = s.draw(20);
    s.note(strf("raw %s at offset %zu", tn, off)); s.nontrivial(hash_str((const char*)&v, sizeof(T), off));
    size_t al = s.coin() ? alignof(T) : (size_t)1 << s.draw(5);
    // a window at any misalignment
    Buf b(off + sizeof(T) + al + slack, '#');
    substr win(b.ptr + off, b.len - off);
    size_t n = s.coin() ? to_chars(win, fmt::raw((T const&)v, al)) : to_chars(win, fmt::craw(v, al));
    b.check("raw");
    PBT_CHECKM(n >= sizeof(T) && n < sizeof(T) + al, "raw returned %zu for %zu bytes aligned to %zu", n, sizeof(T), al);
    PBT_CHECKM(n <= win.len, "needs %zu of %zu", n, win.len);
    // the bytes sit at the next aligned address
    char *at = win.str + (n - sizeof(T));
    PBT_CHECKM(((uintptr_t)at & (al - 1)) == 0, "not aligned");
    PBT_CHECK(memcmp(at, &v, sizeof(T)) == 0);
    for(size_t i = 0; i < off; ++i) PBT_CHECK(b.ptr[i] == '#');
    for(size_t i = off + n; i < b.len; ++i) PBT_CHECK(b.ptr[i] == '#');
    T w; memset(&w, 0x77, sizeof(w));
    fmt::raw_wrapper rw = fmt::raw(w, al);
    bool ok = s.coin() ? from_chars(csubstr(win.str, n), &rw) : from_chars(csubstr(win.str, n), fmt::raw(w, al));
    PBT_CHECKM(ok, "raw read of %zu bytes failed", n);
    PBT_CHECK(memcmp(&w, &v, sizeof(T)) == 0);
    memset(&w, 0x77, sizeof(w));
    size_t r = from_chars_first(csubstr(win.str, win.len), fmt::raw(w, al));
    PBT_CHECKM(r == n && memcmp(&w, &v, sizeof(T)) == 0, "from_chars_first(raw) returned %zu, wrote %zu", r, n);
}
PBT_TEST(raw, 2)
{
    switch(s.draw(5)) {
    case 0: rt_raw<char>(s, "char"); break;
    case 1: rt_raw<uint16_t>(s, "uint16"); break;
    case 2: rt_raw<double>(s, "double"); break;
    case 3: rt_raw<Pod>(s, "struct"); break;
    default: rt_raw<uint64_t>(s, "uint64"); break;
    }
}
