// P01: integers are written as their exact canonical text in every radix
#include "oracle_int.hpp"
#include <c4/charconv.hpp>
#include <c4/format.hpp>
using namespace c4; using namespace pbt; using namespace oracle;

static void expect(const char *what, std::string const& want, size_t slack, fref<size_t(substr)> f)
{
    Buf b(want.size() + slack, '#');
    size_t n = f(substr(b.ptr, b.len));
    b.check(what);
    PBT_CHECKM(n == want.size(), "%s returned %zu, expected %zu for %s", what, n, want.size(), want.c_str());
    PBT_CHECKM(b.first(n) == want, "%s wrote '%s', expected '%s'", what, b.first(n).c_str(), want.c_str());
    for(size_t i = n; i < b.len; ++i) PBT_CHECKM(b.ptr[i] == '#', "%s wrote after its output", what);
}

template<class T, bool sgn=std::is_signed<T>::value> struct low;
template<class T> struct low<T, true>
{
    static size_t dec(substr b, T v) { return itoa(b, v); }
    static size_t rad(substr b, T v, T r) { return itoa(b, v, r); }
    static size_t pad(substr b, T v, T r, size_t n) { return itoa(b, v, r, n); }
};
template<class T> struct low<T, false>
{
    static size_t dec(substr b, T v) { return utoa(b, v); }
    static size_t rad(substr b, T v, T r) { return utoa(b, v, r); }
    static size_t pad(substr b, T v, T r, size_t n) { return utoa(b, v, r, n); }
};
template<class T> struct has_xtoa_radix : std::integral_constant<bool, is_fixed_length<T>::value> {};
template<class T> static void xtoa_radix(T v, T r, size_t nd, std::string const& plain, std::string const& padded, std::true_type)
{
    expect("xtoa(radix)", plain, 0, [&](substr b){ return xtoa(b, v, r); });
    expect("xtoa(radix,digits)", padded, 0, [&](substr b){ return xtoa(b, v, r, nd); });
}
template<class T> static void xtoa_radix(T, T, size_t, std::string const&, std::string const&, std::false_type) {}

template<class T> static void check_value(T v, unsigned radix, size_t nd, size_t slack)
{
    i128 w = (i128)v;
    T r = (T)radix;
    std::string dec = int_text(w, 10, false);
    std::string plain = int_text(w, radix, true), padded = int_text(w, radix, true, nd);
    expect("itoa/utoa", dec, slack, [&](substr b){ return low<T>::dec(b, v); });
    expect("xtoa", dec, slack, [&](substr b){ return xtoa(b, v); });
    expect("to_chars", dec, slack, [&](substr b){ return to_chars(b, v); });
    expect("to_chars(integral)", dec, slack, [&](substr b){ return to_chars(b, fmt::integral(v)); });
    expect("itoa/utoa(radix)", plain, slack, [&](substr b){ return low<T>::rad(b, v, r); });
    expect("itoa/utoa(radix,digits)", padded, slack, [&](substr b){ return low<T>::pad(b, v, r, nd); });
    expect("to_chars(integral(radix))", plain, slack, [&](substr b){ return to_chars(b, fmt::integral(v, r)); });
    expect("to_chars(zpad(integral))", padded, slack, [&](substr b){ return to_chars(b, fmt::zpad(fmt::integral(v, r), nd)); });
    xtoa_radix(v, r, nd, plain, padded, has_xtoa_radix<T>());
    switch(radix) {
    case 16: expect("hex", plain, slack, [&](substr b){ return to_chars(b, fmt::hex(v)); }); break;
    case 8: expect("oct", plain, slack, [&](substr b){ return to_chars(b, fmt::oct(v)); }); break;
    case 2: expect("bin", plain, slack, [&](substr b){ return to_chars(b, fmt::bin(v)); }); break;
    default: expect("zpad", padded, slack, [&](substr b){ return to_chars(b, fmt::zpad(v, nd)); }); break;
    }
    { // sub-range helper
        Buf b(dec.size() + slack);
        substr rr = to_chars_sub(substr(b.ptr, b.len), v);
        PBT_CHECK(rr.str == b.ptr && std::string(rr.str, rr.len) == dec);
    }
    if(v >= 0) {
        std::string bare = int_text(w, radix, false), bpad = int_text(w, radix, false, nd);
        size_t dg = 0;
        switch(radix) {
        case 10: dg = digits_dec(v);
            expect("write_dec", bare, slack, [&](substr b){ return write_dec(b, v); });
            expect("write_dec(digits)", bpad, slack, [&](substr b){ return write_dec(b, v, nd); });
            expect("write_dec_unchecked", bare, slack, [&](substr b){ write_dec_unchecked(b, v, (unsigned)bare.size()); return bare.size(); }); break;
        case 16: dg = digits_hex(v);
            expect("write_hex", bare, slack, [&](substr b){ return write_hex(b, v); });
            expect("write_hex(digits)", bpad, slack, [&](substr b){ return write_hex(b, v, nd); });
            expect("write_hex_unchecked", bare, slack, [&](substr b){ write_hex_unchecked(b, v, (unsigned)bare.size()); return bare.size(); }); break;
        case 8: dg = digits_oct(v);
            expect("write_oct", bare, slack, [&](substr b){ return write_oct(b, v); });
            expect("write_oct(digits)", bpad, slack, [&](substr b){ return write_oct(b, v, nd); });
            expect("write_oct_unchecked", bare, slack, [&](substr b){ write_oct_unchecked(b, v, (unsigned)bare.size()); return bare.size(); }); break;
        default: dg = digits_bin(v);
            expect("write_bin", bare, slack, [&](substr b){ return write_bin(b, v); });
            expect("write_bin(digits)", bpad, slack, [&](substr b){ return write_bin(b, v, nd); });
            expect("write_bin_unchecked", bare, slack, [&](substr b){ write_bin_unchecked(b, v, (unsigned)bare.size()); return bare.size(); }); break;
        }
        PBT_CHECKM(dg == bare.size(), "digits: %zu expected %zu for %s", dg, bare.size(), bare.c_str());
    }
}
static const unsigned radixes[] = {10, 16, 8, 2};

template<class T> static void random_case(Src &s, const char *tn)
{
    T v = s.integer<T>();
    unsigned radix = s.pick(radixes);
    size_t nd = s.len(sizeof(T) * 8 + 6);
    if(s.chance(1, 40)) nd = s.coin() ? s.edge_size(600) : s.range(60, 700);
    size_t slack = s.len(4);
    s.note(strf("%s v=%s radix=%u digits=%zu slack=%zu", tn, i128s((i128)v).c_str(), radix, nd, slack));
    std::string t = int_text((i128)v, radix, true);
    if(t.size() > 1) s.nontrivial(hash_str(t + tn, nd));
    s.label(v == std::numeric_limits<T>::min() && v != 0 ? "most negative" : v < 0 ? "negative" : "non-negative");
    check_value<T>(v, radix, nd, slack);
}
PBT_TEST(write_i8, 1)   { random_case<int8_t>(s, "int8"); }
PBT_TEST(write_u8, 1)   { random_case<uint8_t>(s, "uint8"); }
PBT_TEST(write_i16, 1)  { random_case<int16_t>(s, "int16"); }
PBT_TEST(write_u16, 1)  { random_case<uint16_t>(s, "uint16"); }
PBT_TEST(write_i32, 3)  { random_case<int32_t>(s, "int32"); }
PBT_TEST(write_u32, 3)  { random_case<uint32_t>(s, "uint32"); }
PBT_TEST(write_i64, 4)  { random_case<int64_t>(s, "int64"); }
PBT_TEST(write_u64, 4)  { random_case<uint64_t>(s, "uint64"); }
PBT_TEST(write_ll, 1)   { random_case<long long>(s, "long long"); }
PBT_TEST(write_ull, 1)  { random_case<unsigned long long>(s, "unsigned long long"); }

PBT_TEST(write_ptr, 1)
{
    void *p = (void*)(uintptr_t)s.u64(); intptr_t i = (intptr_t)p;
    size_t slack = s.len(4), nd = s.len(20);
    std::string h = int_text((i128)i, 16, true), o = int_text((i128)i, 8, true), b2 = int_text((i128)i, 2, true);
    s.note("pointer " + h); s.nontrivial(h);
    expect("to_chars(ptr)", h, slack, [&](substr b){ return to_chars(b, p); });
    expect("xtoa(ptr)", h, slack, [&](substr b){ return xtoa(b, p); });
    expect("hex(ptr)", h, slack, [&](substr b){ return to_chars(b, fmt::hex(p)); });
    expect("hex(cptr)", h, slack, [&](substr b){ return to_chars(b, fmt::hex((void const*)p)); });
    expect("oct(ptr)", o, slack, [&](substr b){ return to_chars(b, fmt::oct(p)); });
    expect("bin(ptr)", b2, slack, [&](substr b){ return to_chars(b, fmt::bin(p)); });
    expect("zpad(ptr)", int_text((i128)i, 16, true, nd), slack, [&](substr b){ return to_chars(b, fmt::zpad((char*)p, nd)); });
    expect("zpad(cptr)", int_text((i128)i, 16, true, nd), slack, [&](substr b){ return to_chars(b, fmt::zpad((char const*)p, nd)); });
    expect("integral(cptr)", int_text((i128)i, 8, true), slack, [&](substr b){ return to_chars(b, fmt::integral((int const*)p, 8)); });
    expect("null", "0x0", slack, [&](substr b){ return to_chars(b, fmt::hex(nullptr)); });
    expect("null", "0o0", slack, [&](substr b){ return to_chars(b, fmt::oct(nullptr)); });
    expect("null", "0b0", slack, [&](substr b){ return to_chars(b, fmt::bin(nullptr)); });
    expect("null", int_text(0, 16, true, nd), slack, [&](substr b){ return to_chars(b, fmt::zpad(nullptr, nd)); });
}

// exhaustive: all 8-bit and 16-bit values in all radices
PBT_ENUM(all_8bit, 256)
{
    unsigned u = (unsigned)s.draw(256);
    s.nontrivial(u); s.note(strf("all radices of 8-bit pattern 0x%02x", u));
    for(unsigned r : radixes) for(size_t nd = 0; nd < 12; ++nd) { check_value<uint8_t>((uint8_t)u, r, nd, 0); check_value<int8_t>((int8_t)(uint8_t)u, r, nd, 1); }
}
PBT_ENUM(all_16bit, 65536)
{
    unsigned u = (unsigned)s.draw(65536);
    s.nontrivial(u); s.note(strf("all radices of 16-bit pattern 0x%04x", u));
    for(unsigned r : radixes) { check_value<uint16_t>((uint16_t)u, r, u % 19, 0); check_value<int16_t>((int16_t)(uint16_t)u, r, u % 19, 0); }
}
