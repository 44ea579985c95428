// P05: reals are parsed to the correctly rounded value, malformed ones rejected.
// The oracle for values is the C library's strtof/strtod, which is correctly rounded.
#include "oracle_real.hpp"
#include <c4/charconv.hpp>
#include <cfenv>
using namespace c4; using namespace pbt; using namespace oracle;

static bool low(csubstr s, float *v) { return atof(s, v); }
static bool low(csubstr s, double *v) { return atod(s, v); }

#ifdef C4CORE_NO_FAST_FLOAT
enum { bundled = 0, has_hex = C4_CPP < 17 };
#else
enum { bundled = 1, has_hex = 1 };
#endif

template<class T> static void check(Src &s, std::string const& in)
{
    // documented preconditions: not empty, trimmed on the left
    if(in.empty() || strchr(" \r\t\n", in[0])) return;
    if(in.find('\0') != std::string::npos && !bundled) return;
    RealLit l = classify_real(in);
    if(l.c == rc_unspecified) return;
    if(!bundled && (l.c == rc_bad || (l.c == rc_hex && !has_hex))) return; // the test suite pins lax acceptance there
    T want = bits_of<T>::parse(in.c_str(), nullptr);
    for(int k = 0; k < 3; ++k) {
        T v = k == 0 ? (T)0 : k == 1 ? (T)-12345.678 : std::numeric_limits<T>::quiet_NaN(); // the previous value must not matter
        bool ok;
        #ifdef C4CORE_NO_FAST_FLOAT
        std::string t = in + (k == 0 ? "7e5" : k == 1 ? ".5" : "p1"); csubstr cs(t.data(), in.size());
        #else
        Buf b(in, k == 0 ? '7' : k == 1 ? 'e' : '.'); csubstr cs(b.ptr, b.len);
        #endif
        ok = k == 0 ? low(cs, &v) : k == 1 ? atox(cs, &v) : from_chars(cs, &v);
        if(l.c == rc_bad) {
            PBT_CHECKM(!ok, "%s: accepted %s", bits_of<T>::name(), shown(in).c_str());
            continue;
        }
        if(l.c != rc_special && !isfinite(want)) { // out of range: an error or infinity
            s.label("overflow"); if(ok) PBT_CHECKM(same(v, want), "%s: %s gave %a", bits_of<T>::name(), shown(in).c_str(), (double)v); continue; }
        if(l.c != rc_special && want == 0 && l.nonzero) {
            s.label("underflow"); if(ok) PBT_CHECKM(same(v, want), "%s: %s gave %a", bits_of<T>::name(), shown(in).c_str(), (double)v); continue; }
        #ifdef C4CORE_NO_FAST_FLOAT
        if(!ok && l.c != rc_special && fabs(want) < std::numeric_limits<T>::min()) continue; // std::from_chars may report underflow
        #endif
        PBT_CHECKM(ok, "%s: rejected %s", bits_of<T>::name(), shown(in).c_str());
        if(l.c == rc_hex && fabs(want) < std::numeric_limits<T>::min() && l.sigbits > (unsigned)std::numeric_limits<T>::digits) {
            s.label("hex subnormal with excess digits (value not checked)"); continue; }
        PBT_CHECKM(same(v, want), "%s: %s gave %a, expected %a", bits_of<T>::name(), shown(in).c_str(), (double)v, (double)want);
        s.label(l.c == rc_dec ? "decimal" : l.c == rc_hex ? "hexadecimal" : "special");
    }
}
static void go(Src &s, std::string const& in)
{
    s.note("input " + shown(in)); if(in.size() > 2) s.nontrivial(in);
    check<float>(s, in); check<double>(s, in);
}
static const char alpha[] = "0123456789.eE+-xXpPaAfFinfNa_ ,()";
PBT_TEST(decimal_f32, 4) { go(s, gen_dec_literal<float>(s)); }
PBT_TEST(decimal_f64, 4) { go(s, gen_dec_literal<double>(s)); }
PBT_TEST(hex_f32, 2) { go(s, gen_hex_literal<float>(s)); }
PBT_TEST(hex_f64, 2) { go(s, gen_hex_literal<double>(s)); }
PBT_TEST(specials, 1)
{
    static const char *w[] = {"inf", "infinity", "nan", "-inf", "-infinity", "-nan", "INF", "Inf", "NaN", "Infinity", "-INFINITY"};
    std::string in = s.pick(w); if(s.coin()) mutate(s, in, alpha);
    go(s, in);
}
PBT_TEST(near_literals, 4)
{
    std::string in = s.coin() ? gen_dec_literal<double>(s) : gen_hex_literal<double>(s);
    if(in.size() > 24 && s.coin()) in.resize(24);
    mutate(s, in, alpha);
    go(s, in);
}
#if !defined(C4CORE_NO_FAST_FLOAT)
// the value read does not depend on the rounding mode in effect (decimal literals; nearest is restored before the oracle runs)
template<class T> static void rounding(Src &s, std::string const& in, int mode)
{
    if(classify_real(in).c != rc_dec) return;
    T want = bits_of<T>::parse(in.c_str(), nullptr); if(!isfinite(want) || want == 0) return;
    Buf b(in, '7'); csubstr cs(b.ptr, b.len); volatile T v = 0; T r = 0; fesetround(mode); bool ok = low(cs, &r); v = r; fesetround(FE_TONEAREST);
    PBT_CHECKM(ok, "%s: rejected %s under rounding mode %d", bits_of<T>::name(), shown(in).c_str(), mode);
    PBT_CHECKM(same((T)v, want), "%s: %s gave %a under rounding mode %d, expected %a", bits_of<T>::name(), shown(in).c_str(), (double)v, mode, (double)want);
    s.label("rounding mode other than nearest");
}
PBT_TEST(rounding_modes, 2)
{
    static const int md[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO, FE_TONEAREST}; int m = s.pick(md); bool f = s.coin(); std::string in;
    if(s.coin()) in = f ? gen_dec_literal<float>(s) : gen_dec_literal<double>(s); else { in = strf("%llu", (unsigned long long)s.integer<uint64_t>() >> s.draw(60)); if(s.coin()) in.insert(s.draw(in.size()), 1, '.'); if(s.coin()) in += strf("e%d", (int)s.draw(50) - 25); if(s.coin()) in = "-" + in; }
    s.note("input " + shown(in) + strf(" mode %d", m)); if(in.size() > 2) s.nontrivial(in); if(in.empty()) return;
    if(f) rounding<float>(s, in, m); else rounding<double>(s, in, m);
}
#endif
PBT_TEST(short_strings, 3) { go(s, s.str(7, "019.eE+-xpafin")); }
static const char ea[] = "01.e-xpa"; enum { NE = 8 };
PBT_ENUM(all_short, 8 + 64 + 512 + 4096 + 32768)
{
    uint64_t k = s.draw(8 + 64 + 512 + 4096 + 32768), base = NE, n = 1; std::string in;
    while(k >= base) { k -= base; base *= NE; ++n; }
    for(uint64_t i = 0; i < n; ++i) { in += ea[k % NE]; k /= NE; }
    go(s, in);
}
// every decimal with up to 7 significant digits and a range of exponents is too many; sweep the exponent range
PBT_ENUM(exponent_sweep, 2 * 420 * 8)
{
    uint64_t k = s.draw(2 * 420 * 8);
    static const char *m[] = {"1", "9.999999999999999999", "2.2250738585072014", "1.7976931348623157", "4.9406564584124654", "1.17549435", "3.4028235", "5"};
    std::string in = std::string(m[k % 8]) + (((k / 8) & 1) ? "e-" : "e") + std::to_string(k / 16);
    go(s, in); go(s, "-" + in);
}
