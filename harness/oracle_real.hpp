// generators and reference models for floating point text
#ifndef ORACLE_REAL_HPP_
#define ORACLE_REAL_HPP_
#include "pbt.hpp"
#include <math.h>
#include <float.h>
namespace oracle {
template<class T> struct bits_of;
template<> struct bits_of<float> { typedef uint32_t U; static float parse(const char *s, char **e) { return strtof(s, e); } static const char *name() { return "float"; } };
template<> struct bits_of<double> { typedef uint64_t U; static double parse(const char *s, char **e) { return strtod(s, e); } static const char *name() { return "double"; } };
template<class T> T from_bits(uint64_t b) { typename bits_of<T>::U u = (typename bits_of<T>::U)b; T v; memcpy(&v, &u, sizeof(v)); return v; }
template<class T> uint64_t to_bits(T v) { typename bits_of<T>::U u; memcpy(&u, &v, sizeof(v)); return u; }
template<class T> bool same(T a, T b) { return (isnan(a) && isnan(b)) || to_bits(a) == to_bits(b); }

template<class T> T gen_real(pbt::Src &s, bool finite=false)
{
    const int mant = std::numeric_limits<T>::digits - 1;
    const uint64_t mmask = ((uint64_t)1 << mant) - 1;
    const int ebits = (int)sizeof(T) * 8 - 1 - mant;
    T v;
    switch(s.draw(10)) {
    case 0: v = (T)s.draw(100); break;
    case 1: v = (T)((double)s.draw(1000000) / 1000.); break;
    case 2: { // power of ten +- ulps
        int lim = sizeof(T) == 8 ? 308 : 38; int e = (int)s.draw((uint64_t)(2*lim + 1)) - lim;
        v = (T)strtod(pbt::strf("1e%d", e).c_str(), nullptr);
        v = from_bits<T>(to_bits(v) + s.draw(5) - 2u); break; }
    case 3: { // power of two +- ulps
        uint64_t e = s.draw(((uint64_t)1 << ebits) - 1u);
        v = from_bits<T>(((e << mant) + s.draw(5)) - (e ? 2u : 0u)); break; }
    case 4: v = from_bits<T>(s.draw(0) & mmask); break; // subnormal
    case 5: { static const int k[] = {0,1,2,3,4,5}; switch(k[s.draw(6)]) {
        case 0: v = (T)0; break; case 1: v = std::numeric_limits<T>::max(); break; case 2: v = std::numeric_limits<T>::min(); break;
        case 3: v = std::numeric_limits<T>::denorm_min(); break; case 4: v = std::numeric_limits<T>::infinity(); break; default: v = std::numeric_limits<T>::quiet_NaN(); break; } break; }
    case 6: { // few significant mantissa bits
        uint64_t e = s.draw(((uint64_t)1 << ebits) - 1u), m = (s.draw(256) << (mant - 8)); v = from_bits<T>((e << mant) | m); break; }
    case 7: v = (T)(int64_t)s.integer<int64_t>(); break;
    default: v = from_bits<T>(s.draw(0)); break;
    }
    if(s.coin()) v = -v;
    if(finite && !isfinite(v)) v = (T)1.5;
    return v;
}

enum RealClass { rc_bad, rc_dec, rc_hex, rc_special, rc_unspecified };
struct RealLit { RealClass c; bool nonzero; unsigned sigbits; };
inline bool ieq(std::string const& a, const char *b)
{
    if(a.size() != strlen(b)) return false;
    for(size_t i = 0; i < a.size(); ++i) { char c = a[i]; if(c >= 'A' && c <= 'Z') c = (char)(c + 32); if(c != b[i]) return false; }
    return true;
}
/** classify a string as a floating point literal */
inline RealLit classify_real(std::string const& s)
{
    RealLit r; r.c = rc_bad; r.nonzero = false; r.sigbits = 0;
    size_t i = 0; bool plus = false;
    if(i < s.size() && (s[i] == '-' || s[i] == '+')) { plus = s[i] == '+'; ++i; }
    std::string body = s.substr(i);
    if(ieq(body, "inf") || ieq(body, "infinity") || ieq(body, "nan")) { r.c = plus ? rc_unspecified : rc_special; return r; }
    if(body.size() > 4 && ieq(body.substr(0, 4), "nan(") && body.back() == ')') { r.c = rc_unspecified; return r; }
    bool hex = body.size() >= 2 && body[0] == '0' && (body[1] == 'x' || body[1] == 'X');
    if(hex) i += 2;
    size_t nd = 0; std::string digs;
    auto isd = [&](char c) { return (c >= '0' && c <= '9') || (hex && ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))); };
    for( ; i < s.size() && isd(s[i]); ++i, ++nd) digs += s[i];
    if(i < s.size() && s[i] == '.') { ++i; for( ; i < s.size() && isd(s[i]); ++i, ++nd) digs += s[i]; }
    if(nd == 0) return r;
    if(i < s.size() && (hex ? (s[i] == 'p' || s[i] == 'P') : (s[i] == 'e' || s[i] == 'E'))) {
        ++i;
        if(i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
        size_t k = 0; for( ; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) ++k;
        if(k == 0) return r;
    }
    if(i != s.size()) return r;
    size_t z = digs.find_first_not_of('0'); r.nonzero = z != std::string::npos;
    if(r.nonzero && hex) { // significant bits
        size_t e = digs.find_last_not_of('0'); std::string d = digs.substr(z, e - z + 1);
        auto hv = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
        int first = hv(d[0]), last = hv(d.back());
        int hb = first >= 8 ? 4 : first >= 4 ? 3 : first >= 2 ? 2 : 1, tz = (last & 1) ? 0 : (last & 2) ? 1 : (last & 4) ? 2 : 3;
        r.sigbits = (unsigned)((int)(d.size() - 1) * 4 + hb - tz);
    }
    r.c = hex ? rc_hex : plus ? rc_unspecified : rc_dec;
    return r;
}

/** the same value with the decimal point elsewhere: anywhere among the digits, before them or after them */
inline void move_point(pbt::Src &s, std::string &r)
{
    size_t e = r.find_first_of("eE"); long ex = e == std::string::npos ? 0 : atol(r.c_str() + e + 1); if(ex > 5000 || ex < -5000) return; std::string m = r.substr(0, e);
    size_t d = m.find('.'); long ip = (long)(d == std::string::npos ? m.size() : d); if(d != std::string::npos) m.erase(d, 1); if(m.empty()) return;
    long at = (long)s.range(0, m.size()); switch(s.draw(6)) { case 0: at = (long)m.size() - (long)s.draw(std::min<size_t>(m.size(), 3) + 1); break; case 1: { size_t z = s.edge_size(40); m.insert(0, z, '0'); at = (long)s.draw(z + 1); ip += (long)z; break; } case 2: { size_t z = s.edge_size(40); m.append(z, '0'); at = (long)(m.size() - s.draw(z + 1)); break; } default: break; }
    ex += ip - at; r = m; if(at < (long)m.size() || s.coin()) r.insert((size_t)at, "."); if(ex != 0 || s.chance(1, 4)) r += (s.coin() ? "e" : "E") + std::string(ex >= 0 && s.coin() ? "+" : "") + std::to_string(ex);
}
/** a decimal literal; includes exact midpoints between neighbouring reals and their perturbations */
template<class T> std::string gen_dec_literal(pbt::Src &s)
{
    std::string r;
    switch(s.draw(8)) {
    case 0: case 1: { // plain grammar
        std::string ip = s.str(20, "0123456789"), fp = s.str(20, "0123456789");
        if(ip.empty() && fp.empty()) ip = "1";
        r = ip;
        if(!fp.empty() || s.chance(1, 3)) r += "." + fp;
        if(s.coin()) { int lim = s.coin() ? 20 : (sizeof(T) == 8 ? 345 : 60); r += s.coin() ? "e" : "E"; int e = (int)s.draw((uint64_t)(2*lim+1)) - lim; r += e < 0 ? "-" : s.coin() ? "+" : ""; if(s.chance(1,6)) r += "00"; r += std::to_string(e < 0 ? -e : e); if(s.chance(1, 24)) r += s.str(14, "0123456789"); }
        break; }
    case 2: case 3: case 4: { // midpoint between v and its successor, exactly, maybe perturbed
        T v = fabs(gen_real<T>(s, true));
        T n = nextafter(v, std::numeric_limits<T>::infinity());
        long double m = isfinite(n) ? ((long double)v + (long double)n) / 2 : (long double)v;
        char buf[2400]; snprintf(buf, sizeof(buf), "%.*Le", 1100, m);
        std::string t(buf); size_t e = t.find('e'); std::string mant = t.substr(0, e), ex = t.substr(e);
        size_t last = mant.find_last_not_of('0'); mant = mant.substr(0, last + 1);
        switch(s.draw(5)) {
        case 0: break;
        case 1: mant += std::string(s.chance(1, 24) ? s.edge_size(1100) : s.len(30), '0') + "1"; break; // just above
        case 2: if(mant.back() != '.') { // just below
                if(mant.back() > '0') { mant.back()--; mant += "9"; } } break;
        case 3: mant += std::string(s.chance(1, 24) ? s.edge_size(1100) : s.len(40), '0'); break;
        default: if(mant.size() > 20) mant = mant.substr(0, 17 + s.draw(mant.size() - 17)); break; // truncated
        }
        r = mant + ex; break; }
    case 5: { T v = fabs(gen_real<T>(s, true)); char buf[512]; snprintf(buf, sizeof(buf), s.coin() ? "%.*e" : "%.*g", (int)s.draw(25), (double)v); r = buf; break; }
    case 6: { T v = fabs(gen_real<T>(s, true)); char buf[1600]; snprintf(buf, sizeof(buf), "%.*f", (int)s.draw(60), (double)v); r = buf; break; }
    default: { std::string d = s.str(400, "0123456789"); if(d.empty()) d = "0"; r = d; if(s.coin()) r.insert(s.draw(r.size()), "."); if(r == ".") r = "0"; if(s.coin()) r += "e" + std::to_string((int)s.draw(800) - 400); break; }
    }
    if(s.chance(1, 4)) move_point(s, r);
    if(s.chance(1, 8)) r.insert(0, s.chance(1, 12) ? s.edge_size(1100) : s.len(10), '0');
    if(s.coin()) r.insert(0, "-");
    return r;
}
template<class T> std::string gen_hex_literal(pbt::Src &s)
{
    std::string r;
    if(s.chance(1, 5)) { // a tie between two reals, or a hair away from one
        unsigned d = (unsigned)std::numeric_limits<T>::digits; uint64_t m = ((uint64_t)1 << d) | (s.u64() & (((uint64_t)1 << d) - 1)) | 1; m <<= 63 - d; // top bit 63, the lowest set bit is half an ulp
        if(s.chance(1, 4)) m -= 1; if(s.chance(1, 3)) { unsigned k = (unsigned)s.draw(4); m >>= k; } // other alignments to the digits
        char buf[32]; snprintf(buf, sizeof(buf), "%016llx", (unsigned long long)m); std::string h(buf); h += std::string(s.len(20), '0'); if(s.chance(1, 24)) h += std::string(s.edge_size(600), '0'); if(s.coin()) { h += "0123456789abcdef"[s.draw(16)]; h += s.str(3, "0f1"); }
        if(s.coin()) h.insert(s.draw(h.size()), "."); r = "0x" + h; if(s.chance(1, 3)) r.insert(2, s.len(20), '0'); int e = (int)s.irange(-60, 60); if(s.coin()) r += pbt::strf("%c%s%d", s.coin() ? 'p' : 'P', e >= 0 && s.coin() ? "+" : "", e);
    }
    else if(s.coin()) { T v = fabs(gen_real<T>(s, true)); char buf[128]; if(s.coin()) snprintf(buf, sizeof(buf), "%a", (double)v); else snprintf(buf, sizeof(buf), "%.*a", (int)s.draw(14), (double)v); r = buf; }
    else {
        const char *al = s.coin() ? "0123456789abcdef" : "0123456789abcdefABCDEF";
        std::string ip = s.str(20, al), fp = s.str(20, al);
        if(ip.empty() && fp.empty()) ip = "a";
        r = "0x" + ip; if(!fp.empty() || s.chance(1, 3)) r += "." + fp;
        if(s.coin()) { int lim = s.coin() ? 40 : 1100; int e = (int)s.draw((uint64_t)(2*lim+1)) - lim; r += s.coin() ? "p" : "P"; r += e < 0 ? "-" : s.coin() ? "+" : ""; if(s.chance(1, 12)) r.append(s.len(12), '0'); r += std::to_string(e < 0 ? -e : e); if(s.chance(1, 24)) r += s.str(14, "0123456789"); }
    }
    if(s.chance(1, 5)) for(char &c : r) if(c >= 'a' && c <= 'z' && s.coin()) c = (char)(c - 32);
    switch(s.draw(4)) { case 0: r.insert(0, "-"); break; case 1: if(s.chance(1,3)) r.insert(0, "+"); break; default: break; }
    return r;
}
inline void mutate(pbt::Src &s, std::string &r, const char *alpha)
{
    size_t n = 1 + s.draw(2), na = strlen(alpha);
    for(size_t i = 0; i < n; ++i) {
        char c = s.chance(1, 8) ? (char)(unsigned char)s.draw(256) : alpha[s.draw(na)];
        switch(s.draw(4)) {
        case 0: r.insert(r.begin() + (long)s.draw(r.size()+1), c); break;
        case 1: if(!r.empty()) r[s.draw(r.size())] = c; break;
        case 2: r += c; break;
        default: if(!r.empty()) r.erase(s.draw(r.size()), 1); break;
        }
    }
}
} // namespace oracle
#endif
