// reference models for integer text, in 128-bit / arbitrary precision arithmetic
#ifndef ORACLE_INT_HPP_
#define ORACLE_INT_HPP_
#include "pbt.hpp"
namespace oracle {
typedef __int128 i128; typedef unsigned __int128 u128;

inline std::string digits(u128 v, unsigned radix)
{
    std::string r;
    do { r.insert(r.begin(), "0123456789abcdef"[(unsigned)(v % radix)]); v /= radix; } while(v);
    return r;
}
inline std::string prefix(unsigned radix) { return radix == 16 ? "0x" : radix == 8 ? "0o" : radix == 2 ? "0b" : ""; }
/** canonical text; nd: minimum number of digits */
inline std::string int_text(i128 v, unsigned radix, bool with_prefix, size_t nd=0)
{
    u128 m = v < 0 ? (u128)(-v) : (u128)v;
    std::string d = digits(m, radix);
    if(d.size() < nd) d.insert(0, nd - d.size(), '0');
    return std::string(v < 0 ? "-" : "") + (with_prefix ? prefix(radix) : "") + d;
}

inline int digit_val(char c)
{
    if(c >= '0' && c <= '9') return c - '0';
    if(c >= 'a' && c <= 'f') return c - 'a' + 10;
    if(c >= 'A' && c <= 'F') return c - 'A' + 10;
    return 99;
}
/** an integer literal, as the library's documentation defines it */
struct Lit { bool ok; bool neg; unsigned radix; std::string dig; /* digits, leading zeros stripped */ };
inline Lit parse_lit(std::string const& s, bool is_signed)
{
    Lit l; l.ok = false; l.neg = false; l.radix = 10;
    size_t i = 0;
    if(s.empty()) return l;
    if(s[0] == '-') { if(!is_signed) return l; l.neg = true; i = 1; }
    if(s.size() - i >= 2 && s[i] == '0') {
        char p = s[i+1];
        if(p == 'x' || p == 'X') { l.radix = 16; i += 2; }
        else if(p == 'o' || p == 'O') { l.radix = 8; i += 2; }
        else if(p == 'b' || p == 'B') { l.radix = 2; i += 2; }
    }
    if(i >= s.size()) return l;
    for(size_t k = i; k < s.size(); ++k)
        if((unsigned)digit_val(s[k]) >= l.radix) return l;
    size_t z = i; while(z < s.size() && s[z] == '0') ++z;
    l.dig = s.substr(z);
    l.ok = true;
    return l;
}
/** value mod 2^64 */
inline uint64_t mod64(Lit const& l)
{
    uint64_t v = 0;
    for(char c : l.dig) v = v * l.radix + (uint64_t)digit_val(c);
    return l.neg ? (uint64_t)0 - v : v;
}
/** magnitude saturated at 2^66 */
inline u128 mag(Lit const& l)
{
    u128 v = 0, lim = (u128)1 << 66;
    for(char c : l.dig) { v = v * l.radix + (u128)digit_val(c); if(v > lim) v = lim; }
    return v;
}
template<class T> bool fits(Lit const& l)
{
    u128 m = mag(l);
    if(l.neg) return m <= (u128)(-(i128)std::numeric_limits<T>::min());
    return m <= (u128)std::numeric_limits<T>::max();
}
inline std::string i128s(i128 v) { return int_text(v, 10, false); }

/** an integer literal for a type of the given width: boundary-biased, any radix, leading zeros */
inline std::string gen_literal(pbt::Src &s, bool allow_neg, unsigned *out_radix=nullptr)
{
    static const unsigned rx[] = {10, 16, 8, 2};
    unsigned radix = rx[s.draw(4)];
    if(out_radix) *out_radix = radix;
    std::string d;
    switch(s.draw(8)) {
    case 0: { // random digit string
        size_t n = 1 + s.len(radix == 2 ? 80 : 30);
        for(size_t i = 0; i < n; ++i) d += "0123456789abcdef"[s.draw(radix)];
        break; }
    case 1: case 2: case 3: case 4: { // near the limits of some type
        static const unsigned bits[] = {7, 8, 15, 16, 31, 32, 63, 64, 65};
        u128 v = (u128)1 << bits[s.draw(9)];
        int64_t delta = (int64_t)s.draw(7) - 3;
        v = (u128)((i128)v + delta);
        d = digits(v, radix);
        if(s.chance(1, 4)) { size_t k = s.draw(d.size()); d[k] = "0123456789abcdef"[s.draw(radix)]; } // perturb one digit
        break; }
    case 5: { // near a power of the radix
        u128 v = 1; size_t e = s.draw(radix == 2 ? 70 : 22); for(size_t i = 0; i < e; ++i) v *= radix;
        v = v + s.draw(3) - 1; d = digits(v, radix); break; }
    case 6: d = digits(s.draw(300), radix); break;
    default: d = digits(s.u64(), radix); break;
    }
    if(s.chance(1, 4)) d.insert(0, s.chance(1, 24) ? s.edge_size(1100) : 1 + s.len(40), '0');
    if(radix == 16) for(char &c : d) if(c >= 'a' && s.coin()) c = (char)(c - 32);
    std::string p = prefix(radix);
    if(!p.empty() && s.coin()) p[1] = (char)(p[1] - 32);
    std::string r = p + d;
    // a decimal digit string that happens to look like a prefixed one cannot occur: digits only
    if(allow_neg && s.coin()) r.insert(0, "-");
    return r;
}
/** a literal, possibly corrupted by a small edit, or junk from a tight alphabet */
inline std::string gen_intlike(pbt::Src &s)
{
    static const char alpha[] = "0123456789abcdefxXoObBAF-+ .\t\n_,g@G/:`";
    if(s.chance(1, 6)) return s.str(8, "0x1-b+o79afg ");
    if(s.chance(1, 12)) return s.bytes(6);
    std::string r = gen_literal(s, true);
    if(s.coin()) {
        size_t n = 1 + s.draw(2);
        for(size_t i = 0; i < n; ++i) {
            char c = s.chance(1, 6) ? (char)(unsigned char)s.draw(256) : alpha[s.draw(sizeof(alpha)-1)];
            switch(s.draw(3)) {
            case 0: r.insert(r.begin() + (long)s.draw(r.size()+1), c); break;
            case 1: if(!r.empty()) r[s.draw(r.size())] = c; break;
            default: if(!r.empty()) r.erase(s.draw(r.size()), 1); break;
            }
        }
    }
    return r;
}
} // namespace oracle
#endif
