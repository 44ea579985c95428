// P03: overflow detection is exact for every integer literal
#include "oracle_int.hpp"
#include <c4/charconv.hpp>
#include <c4/format.hpp>
using namespace c4; using namespace pbt; using namespace oracle;

template<class T> static void check_one(Src &s, const char *tn, std::string const& in)
{
    const bool sgn = std::is_signed<T>::value;
    Lit l = parse_lit(in, sgn);
    Buf b(in, '9'); csubstr cs(b.ptr, b.len);
    if(!l.ok) {
        // a negative literal is out of range of an unsigned type
        Lit sl = parse_lit(in, true);
        bool o = overflows<T>(cs); /* must not read out of bounds or trap */ if(in.empty()) PBT_CHECKM(!o, "overflows<%s> of an empty string", tn);
        if(!sgn && sl.ok && sl.neg && mag(sl) > 0) { PBT_CHECKM(o, "overflows<%s>(%s)", tn, shown(in).c_str()); s.label("negative for an unsigned type"); }
    } else {
        bool want = !fits<T>(l);
        bool o = overflows<T>(cs);
        s.label(want ? "out of range" : "in range");
        PBT_CHECKM(o == want, "overflows<%s>(%s) = %d but the value is %s the range", tn, shown(in).c_str(), o, want ? "outside" : "within");
    }
    #ifndef NDEBUG
    if(sgn && !in.empty() && in[0] == '+') return;
    #endif
    bool want_ok = l.ok && fits<T>(l);
    T v = (T)3; bool ok = from_chars(cs, fmt::overflow_checked(v));
    PBT_CHECKM(ok == want_ok, "overflow-checked parse of %s as %s returned %d", shown(in).c_str(), tn, ok);
    if(ok) PBT_CHECKM(v == (T)mod64(l), "overflow-checked parse of %s as %s gave %s", shown(in).c_str(), tn, i128s((i128)v).c_str());
    T v2 = (T)3; fmt::overflow_checked_<T> w(v2); ok = from_chars(cs, &w);
    PBT_CHECKM(ok == want_ok && (!ok || v2 == (T)mod64(l)), "overflow-checked parse (pointer form) of %s as %s returned %d", shown(in).c_str(), tn, ok);
}
static void all_types(Src &s, std::string const& in)
{
    check_one<int8_t>(s, "int8", in); check_one<uint8_t>(s, "uint8", in);
    check_one<int16_t>(s, "int16", in); check_one<uint16_t>(s, "uint16", in);
    check_one<int32_t>(s, "int32", in); check_one<uint32_t>(s, "uint32", in);
    check_one<int64_t>(s, "int64", in); check_one<uint64_t>(s, "uint64", in);
    check_one<long long>(s, "long long", in); check_one<unsigned long long>(s, "unsigned long long", in);
}
static void stat(Src &s, std::string const& in)
{
    Lit l = parse_lit(in, true);
    if(l.ok && mag(l) >= 120) s.nontrivial(in);
    s.note("literal " + shown(in));
}
PBT_TEST(literals, 10) { std::string in = gen_literal(s, true); stat(s, in); all_types(s, in); }
PBT_TEST(junk, 2) { std::string in = gen_intlike(s); stat(s, in); all_types(s, in); }
PBT_TEST(tiny_junk, 1) { std::string in = s.str(4, "-0x9o8b17+ f"); stat(s, in); all_types(s, in); }
// limits of every type, +-8, in every radix, with 0..70 leading zeros
PBT_ENUM(limits, 9 * 17 * 4 * 2 * 8)
{
    uint64_t k = s.draw(9 * 17 * 4 * 2 * 8);
    static const unsigned bits[] = {7, 8, 15, 16, 31, 32, 63, 64, 65}; static const unsigned rx[] = {10, 16, 8, 2};
    static const size_t zeros[] = {0, 1, 2, 3, 7, 16, 30, 70};
    u128 v = (u128)1 << bits[k % 9]; k /= 9;
    v = (u128)((i128)v + (i128)(k % 17) - 8); k /= 17;
    unsigned r = rx[k % 4]; k /= 4;
    bool neg = k % 2; k /= 2;
    std::string d = std::string(zeros[k % 8], '0') + digits(v, r);
    for(int up = 0; up < 2; ++up) {
        std::string in = (neg ? "-" : "") + prefix(r) + d;
        if(up) for(char &c : in) if(c >= 'a' && c <= 'z') c = (char)(c - 32);
        stat(s, in);
        all_types(s, in);
    }
}
// every 8-bit and 16-bit neighbourhood value
PBT_ENUM(all_to_17bit, (1 << 17) + 200)
{
    uint64_t v = s.draw((1 << 17) + 200);
    static const unsigned rx[] = {10, 16, 8, 2};
    for(unsigned r : rx) for(int neg = 0; neg < 2; ++neg) {
        std::string in = (neg ? "-" : "") + prefix(r) + digits(v, r);
        check_one<int8_t>(s, "int8", in); check_one<uint8_t>(s, "uint8", in);
        check_one<int16_t>(s, "int16", in); check_one<uint16_t>(s, "uint16", in);
    }
    s.nontrivial(v); s.note(strf("value %llu in all radices", (unsigned long long)v));
}
