// P06: reals are written as the requested format and precision dictate.
// Oracle: printf of the C library (correctly rounded), strtof/strtod for values.
#include "oracle_real.hpp"
#include <c4/charconv.hpp>
#include <c4/format.hpp>
using namespace c4; using namespace pbt; using namespace oracle;

static size_t low(substr b, float v, int p, RealFormat_e f) { return ftoa(b, v, p, f); }
static size_t low(substr b, double v, int p, RealFormat_e f) { return dtoa(b, v, p, f); }
static bool rd(csubstr s, float *v) { return atof(s, v); }
static bool rd(csubstr s, double *v) { return atod(s, v); }

static std::string write_big(fref<size_t(substr)> f, const char *what)
{
    Buf b(1800, '#');
    size_t n = f(substr(b.ptr, b.len)); b.check(what);
    PBT_CHECKM(n <= b.len, "%s needs %zu characters", what, n);
    return b.first(n);
}
template<class T> static std::string ref(T v, int p, char c)
{
    char buf[1800], fmt[16];
    if(p < 0) { snprintf(fmt, sizeof(fmt), "%%%c", c); snprintf(buf, sizeof(buf), fmt, (double)v); }
    else { snprintf(fmt, sizeof(fmt), "%%.*%c", c); snprintf(buf, sizeof(buf), fmt, p, (double)v); }
    return buf;
}
template<class T> static void check(Src &s)
{
    T v = gen_real<T>(s);
    static const RealFormat_e fs[] = {FTOA_FLEX, FTOA_FLOAT, FTOA_SCIENT, FTOA_HEXA}; static const char fc[] = "gfea"; static const char *fnm[] = {"flex","float","scient","hexa"};
    size_t k = s.draw(4); RealFormat_e f = fs[k]; char c = fc[k];
    int prec = s.chance(1, 4) ? -1 : s.chance(1, 12) ? (int)s.range(20, 300) : (int)s.draw(20);
    s.note(strf("%s %a format=%s precision=%d", bits_of<T>::name(), (double)v, fnm[k], prec));
    s.nontrivial(hash_str(strf("%a", (double)v), (uint64_t)(prec + 2) * 4 + k));
    std::string got = write_big([&](substr b){ return low(b, v, prec, f); }, "ftoa/dtoa");
    s.label(fnm[k]); if(prec < 0) s.label("no precision");
    // all entry points agree
    PBT_CHECKM(write_big([&](substr b){ return xtoa(b, v, prec, f); }, "xtoa") == got, "xtoa(precision,format) differs from '%s'", got.c_str());
    PBT_CHECKM(write_big([&](substr b){ return to_chars(b, fmt::real(v, prec, f)); }, "fmt::real") == got, "fmt::real differs from '%s'", got.c_str());
    if(f == FTOA_FLEX) {
        PBT_CHECKM(write_big([&](substr b){ return xtoa(b, v, prec); }, "xtoa") == got, "xtoa(precision) differs from '%s'", got.c_str());
        if(prec < 0) {
            PBT_CHECKM(write_big([&](substr b){ return xtoa(b, v); }, "xtoa") == got, "xtoa differs from '%s'", got.c_str());
            PBT_CHECKM(write_big([&](substr b){ return to_chars(b, v); }, "to_chars") == got, "to_chars differs from '%s'", got.c_str());
        }
    }
    if(f == FTOA_FLOAT) PBT_CHECKM(write_big([&](substr b){ return to_chars(b, fmt::real(v, prec)); }, "fmt::real") == got, "fmt::real(precision) differs from '%s'", got.c_str());
    // text
    bool exact_text = true;
    #if C4CORE_HAVE_STD_TOCHARS
    if(prec < 0) exact_text = false; // shortest representation
    #endif
    if(f == FTOA_HEXA) exact_text = false; // normalisation of the leading digit is unspecified
    if(!isfinite(v)) exact_text = true;
    if(exact_text) {
        std::string want = ref(v, prec, c);
        PBT_CHECKM(got == want, "%s %a format=%s precision=%d: wrote '%s', expected '%s'", bits_of<T>::name(), (double)v, fnm[k], prec, got.c_str(), want.c_str());
    }
    // value
    T back = (T)-7; char *e = nullptr; T viac = bits_of<T>::parse(got.c_str(), &e);
    PBT_CHECKM(*e == 0 && e != got.c_str(), "'%s' is not a number to the C library", got.c_str());
    bool ok = rd(csubstr(got.data(), got.size()), &back);
    bool inrange = isfinite(viac) || !isfinite(v); // rounding up at a low precision may leave the range
    bool zeroish = viac == 0 && v != 0;            // ... or be indistinguishable from zero
    if(inrange && !zeroish) {
        PBT_CHECKM(ok, "the library cannot read its own '%s'", got.c_str());
        PBT_CHECKM(same(back, viac), "'%s' reads back as %a", got.c_str(), (double)back);
    }
    if(f == FTOA_HEXA && isfinite(v)) {
        // sign, prefix, one leading digit, the requested number of digits, binary exponent
        size_t i = 0; if(signbit(v)) { PBT_CHECKM(got[0] == '-', "'%s': sign", got.c_str()); i = 1; }
        PBT_CHECKM(got.substr(i, 2) == "0x", "'%s': prefix", got.c_str());
        size_t p = got.find('p'); PBT_CHECKM(p != std::string::npos && (got[p+1] == '+' || got[p+1] == '-'), "'%s': exponent", got.c_str());
        size_t dot = got.find('.'), nfrac = dot == std::string::npos ? 0 : p - dot - 1;
        if(prec >= 0) PBT_CHECKM(nfrac == (size_t)prec, "'%s': precision %d", got.c_str(), prec);
        PBT_CHECKM((dot == std::string::npos ? p : dot) == i + 3, "'%s': one leading digit", got.c_str());
        if(prec < 0) PBT_CHECKM(same(viac, v), "'%s' is not %a", got.c_str(), (double)v);
        else if(v != 0 && isfinite(viac)) { // rounded to the given number of digits: at most half a unit away
            long double unit = ldexpl(1.0L, atoi(got.c_str() + p + 1) - 4 * prec);
            double exact = strtod(got.c_str(), nullptr); // a longer mantissa than the type would round here
            if(prec < (std::numeric_limits<T>::digits + 2) / 4) PBT_CHECKM(fabsl((long double)exact - (long double)v) <= unit / 2, "'%s' is not the nearest to %a", got.c_str(), (double)v);
        }
    }
    #if C4CORE_HAVE_STD_TOCHARS
    if(prec < 0) {
        PBT_CHECKM(same(viac, v), "'%s' does not parse back to %a", got.c_str(), (double)v);
        if(isfinite(v) && f != FTOA_HEXA) {
            // as short as the shortest %.Ne that parses back
            size_t nd = 0; bool lead = true;
            for(char ch : got) { if(ch == 'e') break; if(ch >= '1' && ch <= '9') lead = false; if(!lead && ch >= '0' && ch <= '9') ++nd; }
            if(f == FTOA_SCIENT && v != 0) {
                int n = 0; for( ; n < 20; ++n) { std::string t = ref(v, n, 'e'); if(same(bits_of<T>::parse(t.c_str(), nullptr), v)) break; }
                PBT_CHECKM(nd <= (size_t)n + 1, "'%s' uses more digits than '%s'", got.c_str(), ref(v, n, 'e').c_str());
            }
            if(f == FTOA_FLOAT) PBT_CHECKM(got.find('e') == std::string::npos, "'%s' is not in fixed notation", got.c_str());
            if(f == FTOA_SCIENT) PBT_CHECKM(got.find('e') != std::string::npos, "'%s' is not in scientific notation", got.c_str());
        }
    }
    #endif
}
PBT_TEST(write_f32, 6) { check<float>(s); }
PBT_TEST(write_f64, 6) { check<double>(s); }
