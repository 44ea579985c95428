// P02: integer parsing accepts exactly the integer grammar and returns its value
#include "oracle_int.hpp"
#include <c4/charconv.hpp>
#include <c4/format.hpp>
using namespace c4; using namespace pbt; using namespace oracle;

template<class T> static void check_result(const char *fn, const char *tn, std::string const& in, bool got_ok, T got, Lit const& l)
{
    PBT_CHECKM(got_ok == l.ok, "%s<%s>(%s) %s", fn, tn, shown(in).c_str(), got_ok ? "accepted a string that is not an integer literal" : "rejected an integer literal");
    if(l.ok) {
        T want = (T)mod64(l);
        PBT_CHECKM(got == want, "%s<%s>(%s) = %s, expected %s", fn, tn, shown(in).c_str(), i128s((i128)got).c_str(), i128s((i128)want).c_str());
    }
}
template<class T> static bool low_parse(csubstr in, T *v, std::true_type) { return atoi(in, v); }
template<class T> static bool low_parse(csubstr in, T *v, std::false_type) { return atou(in, v); }

template<class T> static void check_all(const char *tn, std::string const& in)
{
    const bool sgn = std::is_signed<T>::value;
    #ifndef NDEBUG
    if(sgn && !in.empty() && in[0] == '+') return; // documented precondition of the signed parser
    #endif
    Lit l = parse_lit(in, sgn);
    const T junk = (T)0x5a5a5a5a5a5a5a5aull;
    for(int g = 0; g < 2; ++g) {
        Buf b(in, g ? 'f' : '1');
        csubstr cs(b.ptr, b.len);
        T v = junk; bool ok = low_parse(cs, &v, std::integral_constant<bool, std::is_signed<T>::value>()); check_result<T>("atoi/atou", tn, in, ok, v, l);
        v = (T)1; ok = atox(cs, &v); check_result<T>("atox", tn, in, ok, v, l);
        v = junk; ok = from_chars(cs, &v); check_result<T>("from_chars", tn, in, ok, v, l);
        #if PBT_ASAN
        break;
        #endif
    }
}
template<class T> static void check_read(const char *tn, std::string const& d)
{
    if(d.empty()) return;
    struct { unsigned radix; const char *n; } R[] = {{10,"read_dec"},{16,"read_hex"},{8,"read_oct"},{2,"read_bin"}};
    Buf b(d, '1');
    csubstr cs(b.ptr, b.len);
    for(auto &r : R) {
        Lit l; l.ok = true; l.neg = false; l.radix = r.radix; l.dig = d;
        for(char c : d) if((unsigned)digit_val(c) >= r.radix) l.ok = false;
        T v = (T)77; bool ok = false;
        switch(r.radix) { case 10: ok = read_dec(cs, &v); break; case 16: ok = read_hex(cs, &v); break; case 8: ok = read_oct(cs, &v); break; default: ok = read_bin(cs, &v); break; }
        check_result<T>(r.n, tn, d, ok, v, l);
    }
}
static void all_types(std::string const& in)
{
    check_all<int8_t>("int8", in); check_all<uint8_t>("uint8", in);
    check_all<int16_t>("int16", in); check_all<uint16_t>("uint16", in);
    check_all<int32_t>("int32", in); check_all<uint32_t>("uint32", in);
    check_all<int64_t>("int64", in); check_all<uint64_t>("uint64", in);
    check_all<long long>("long long", in); check_all<unsigned long long>("unsigned long long", in);
}
static void stat(Src &s, std::string const& in)
{
    Lit l = parse_lit(in, true);
    if(l.ok) { s.label(l.neg ? "negative literal" : "literal"); s.label(mag(l) > (u128)UINT64_MAX ? "wider than 64 bits" : "up to 64 bits"); } else s.label("malformed");
    if(in.size() > 1) s.nontrivial(in);
    s.note("input " + shown(in));
}
PBT_TEST(literals, 6) { std::string in = gen_literal(s, true); stat(s, in); all_types(in); }
PBT_TEST(near_literals, 6) { std::string in = gen_intlike(s); stat(s, in); all_types(in); }
PBT_TEST(fresh_minimal, 3) { std::string in = s.str(5, "01289afgxXbBoO-+ \t.\n"); stat(s, in); all_types(in); }
PBT_TEST(digit_readers, 3)
{
    std::string d;
    if(s.coin()) { unsigned r; d = gen_literal(s, false, &r); if(d.size() > 2 && !prefix(r).empty()) d = d.substr(2); }
    else d = s.str(20, s.coin() ? "01" : "0123456789abcdefABCDEF/:@G`g- ");
    if(d.size() > 1) s.nontrivial(d);
    s.note("digits " + shown(d));
    check_read<int8_t>("int8", d); check_read<uint8_t>("uint8", d); check_read<int16_t>("int16", d); check_read<uint16_t>("uint16", d);
    check_read<int32_t>("int32", d); check_read<uint32_t>("uint32", d); check_read<int64_t>("int64", d); check_read<uint64_t>("uint64", d);
}
// booleans: the listed words, or an integer
PBT_TEST(booleans, 1)
{
    static const char *words[] = {"0","1","true","false","True","False","TRUE","FALSE"};
    std::string in;
    switch(s.draw(4)) {
    case 0: in = words[s.draw(8)]; break;
    case 1: { in = words[s.draw(8)]; size_t n = s.draw(2) + 1; for(size_t i = 0; i < n; ++i) { if(s.coin()) in.insert(s.draw(in.size()+1), 1, "tTrueE01 sl"[s.draw(11)]); else if(!in.empty()) in[s.draw(in.size())] ^= 0x20; } break; }
    case 2: in = gen_literal(s, true); break;
    default: in = s.str(6, "trueTRUEfalsFALS01- "); break;
    }
    #ifndef NDEBUG
    if(!in.empty() && in[0] == '+') return;
    #endif
    s.note("bool " + shown(in)); if(in.size() > 1) s.nontrivial(in);
    bool ok = false, val = false; bool known = false;
    for(size_t i = 0; i < 8; ++i) if(in == words[i]) { known = true; ok = true; val = (i & 1) ? (i == 1) : (i != 0); }
    if(!known) { Lit l = parse_lit(in, true); ok = l.ok; val = (int32_t)mod64(l) != 0; }
    for(int init = 0; init < 2; ++init) {
        Buf b(in, 'e'); bool v = init;
        bool r = from_chars(csubstr(b.ptr, b.len), &v);
        PBT_CHECKM(r == ok, "from_chars<bool>(%s) returned %d", shown(in).c_str(), r);
        if(ok) PBT_CHECKM(v == val, "from_chars<bool>(%s) gave %d", shown(in).c_str(), v);
    }
}
PBT_TEST(characters, 1)
{
    std::string in = s.bytes(3);
    s.note("char " + shown(in)); if(in.size() != 1) s.nontrivial(in);
    Buf b(in); char c = 'q';
    bool r = from_chars(csubstr(b.ptr, b.len), &c);
    PBT_CHECK(r == (in.size() == 1));
    if(r) PBT_CHECK(c == in[0]);
}
// all strings of up to 4 characters over the alphabet of the grammar
static const char enum_alpha[] = "0127fFxXbo-g ";
enum { NA = sizeof(enum_alpha) - 1 };
PBT_ENUM(all_short, 1 + NA + NA*NA + NA*NA*NA + NA*NA*NA*NA)
{
    uint64_t k = s.draw(1 + NA + NA*NA + NA*NA*NA + NA*NA*NA*NA);
    std::string in; uint64_t base = 1, n = 0;
    while(k >= base) { k -= base; base *= NA; ++n; }
    for(uint64_t i = 0; i < n; ++i) { in += enum_alpha[k % NA]; k /= NA; }
    stat(s, in);
    all_types(in);
}
