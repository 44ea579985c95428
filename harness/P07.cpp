// P07: number scanning at the start of a string takes exactly the leading number
#include "oracle_int.hpp"
#include "oracle_real.hpp"
#include <c4/charconv.hpp>
#include <c4/format.hpp>
using namespace c4; using namespace pbt; using namespace oracle;

struct Sp { size_t b, e; bool empty() const { return b == e; } };
static bool is_ws(char c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t'; }
static bool is_delim(char c) { return is_ws(c) || c == ']' || c == ')' || c == '}' || c == ',' || c == ';' || c == '\0'; }

static Sp m_nonempty(std::string const& s)
{
    size_t b = 0; while(b < s.size() && is_ws(s[b])) ++b;
    size_t e = b; while(e < s.size() && !is_ws(s[e])) ++e;
    return Sp{b, e};
}
static Sp none() { return Sp{0, 0}; }
/** a number ending at position i counts only at the end or before a delimiter */
static Sp fin(std::string const& s, Sp ne, size_t i) { return (i == ne.e || is_delim(s[i])) ? Sp{ne.b, i} : none(); }
static Sp m_int(std::string const& s, bool allow_minus)
{
    Sp ne = m_nonempty(s); if(ne.empty()) return none();
    size_t i = ne.b;
    if(s[i] == '+' || s[i] == '-') { if(s[i] == '-' && !allow_minus) return none(); ++i; }
    unsigned radix = 10;
    if(ne.e - i >= 2 && s[i] == '0') { char p = (char)(s[i+1] | 32); if(p == 'x') radix = 16; else if(p == 'o') radix = 8; else if(p == 'b') radix = 2; }
    if(radix != 10) i += 2;
    size_t d = i;
    while(i < ne.e && (unsigned)digit_val(s[i]) < radix) ++i;
    if(i == d) return none();
    return fin(s, ne, i);
}
static Sp m_real(std::string const& s)
{
    Sp ne = m_nonempty(s); if(ne.empty()) return none();
    size_t i = ne.b;
    if(s[i] == '+' || s[i] == '-') ++i;
    static const char *w[] = {"infinity", "inf", "nan"};
    for(auto k : w) if(s.compare(i, strlen(k), k) == 0 && i + strlen(k) <= ne.e) { Sp r = fin(s, ne, i + strlen(k)); if(!r.empty()) return r; }
    unsigned radix = 10;
    if(ne.e - i >= 2 && s[i] == '0') { char p = (char)(s[i+1] | 32); if(p == 'x') radix = 16; else if(p == 'o') radix = 8; else if(p == 'b') radix = 2; }
    if(radix != 10) i += 2;
    size_t nd = 0;
    while(i < ne.e && (unsigned)digit_val(s[i]) < radix) { ++i; ++nd; }
    if(i < ne.e && s[i] == '.') { ++i; while(i < ne.e && (unsigned)digit_val(s[i]) < radix) { ++i; ++nd; } }
    if(nd == 0) return none();
    if(i < ne.e && (char)(s[i] | 32) == (radix == 10 ? 'e' : 'p')) {
        ++i;
        if(i < ne.e && (s[i] == '+' || s[i] == '-')) ++i; else if(radix != 10) return none(); // the sign is mandatory in p exponents
        size_t d = i; while(i < ne.e && s[i] >= '0' && s[i] <= '9') ++i;
        if(i == d) return none();
    }
    return fin(s, ne, i);
}
template<class S> static void expect_span(const char *fn, std::string const& in, csubstr all, S got, Sp want)
{
    if(want.empty()) PBT_CHECKM(got.len == 0, "%s(%s) = %s, expected nothing", fn, shown(in).c_str(), shown(got.str, got.len).c_str());
    else PBT_CHECKM(got.str == all.str + want.b && got.len == want.e - want.b, "%s(%s) = %s, expected %s", fn, shown(in).c_str(), got.len ? shown(got.str, got.len).c_str() : "nothing", shown(in.substr(want.b, want.e - want.b)).c_str());
}
template<class T> static void first_int(const char *tn, std::string const& in, csubstr cs, Sp sp)
{
    T v = (T)99; size_t r = from_chars_first(cs, &v);
    std::string t = in.substr(sp.b, sp.e - sp.b); if(!t.empty() && t[0] == '+') t.erase(0, 1);
    Lit l = parse_lit(t, std::is_signed<T>::value);
    if(sp.empty() || !l.ok) { PBT_CHECKM(r == csubstr::npos, "from_chars_first<%s>(%s) = %zu, expected failure", tn, shown(in).c_str(), r); return; }
    PBT_CHECKM(r == sp.e, "from_chars_first<%s>(%s) = %zd, expected %zu", tn, shown(in).c_str(), (ssize_t)r, sp.e);
    PBT_CHECKM(v == (T)mod64(l), "from_chars_first<%s>(%s) stored %s", tn, shown(in).c_str(), i128s((i128)v).c_str());
}
template<class T> static void first_real(std::string const& in, csubstr cs, Sp sp)
{
    T v = (T)99; size_t r = from_chars_first(cs, &v);
    std::string t = in.substr(sp.b, sp.e - sp.b); if(!t.empty() && t[0] == '+') t.erase(0, 1);
    RealLit l = classify_real(t);
    if(sp.empty() || l.c == rc_bad || l.c == rc_unspecified) { PBT_CHECKM(r == csubstr::npos, "from_chars_first<%s>(%s) = %zu, expected failure", bits_of<T>::name(), shown(in).c_str(), r); return; }
    T want = bits_of<T>::parse(t.c_str(), nullptr);
    if(l.c != rc_special && (!isfinite(want) || (want == 0 && l.nonzero))) { PBT_CHECK(r == csubstr::npos || r == sp.e); return; }
    PBT_CHECKM(r == sp.e, "from_chars_first<%s>(%s) = %zd, expected %zu", bits_of<T>::name(), shown(in).c_str(), (ssize_t)r, sp.e);
    if(l.c == rc_hex && fabs(want) < std::numeric_limits<T>::min()) return;
    PBT_CHECKM(same(v, want), "from_chars_first<%s>(%s) stored %a", bits_of<T>::name(), shown(in).c_str(), (double)v);
}
static void go(Src &s, std::string const& in)
{
    Sp ne = m_nonempty(in), u = m_int(in, false), i = m_int(in, true), r = m_real(in);
    s.note("input " + shown(in));
    s.label(!u.empty() ? "unsigned" : !i.empty() ? "signed" : !r.empty() ? "real only" : "no number");
    if(in.size() > 1 && (!r.empty() || !ne.empty())) s.nontrivial(in);
    Buf b(in, '1'); csubstr cs(b.ptr, b.len); substr ms(b.ptr, b.len);
    expect_span("first_non_empty_span", in, cs, cs.first_non_empty_span(), ne);
    expect_span("first_uint_span", in, cs, cs.first_uint_span(), u);
    expect_span("first_int_span", in, cs, cs.first_int_span(), i);
    expect_span("first_real_span", in, cs, cs.first_real_span(), r);
    expect_span("first_int_span", in, cs, ms.first_int_span(), i);
    expect_span("first_real_span", in, cs, ms.first_real_span(), r);
    size_t n = in.size();
    bool isu = !u.empty() && u.b == 0 && u.e == n, isi = isu || (!i.empty() && i.b == 0 && i.e == n), isr = !r.empty() && r.b == 0 && r.e == n;
    PBT_CHECKM(cs.is_unsigned_integer() == isu, "is_unsigned_integer(%s)", shown(in).c_str());
    PBT_CHECKM(cs.is_integer() == isi, "is_integer(%s)", shown(in).c_str());
    PBT_CHECKM(cs.is_real() == isr, "is_real(%s)", shown(in).c_str());
    PBT_CHECKM(cs.is_number() == (isi || isr), "is_number(%s)", shown(in).c_str());
    first_int<uint8_t>("uint8", in, cs, u); first_int<uint64_t>("uint64", in, cs, u); first_int<uint32_t>("uint32", in, cs, u); first_int<unsigned long long>("ull", in, cs, u);
    first_int<int8_t>("int8", in, cs, i); first_int<int64_t>("int64", in, cs, i); first_int<int16_t>("int16", in, cs, i); first_int<long long>("ll", in, cs, i);
    first_real<float>(in, cs, r); first_real<double>(in, cs, r);
    { size_t q; int32_t v = 5; q = atoi_first(cs, &v); int32_t w = 5; PBT_CHECK(q == from_chars_first(cs, &w) && v == w); }
    { size_t q; uint16_t v = 5; q = atou_first(cs, &v); uint16_t w = 5; PBT_CHECK(q == from_chars_first(cs, &w) && v == w); }
    { void *p = &p; size_t q = from_chars_first(cs, &p); intptr_t w = 0; size_t q2 = from_chars_first(cs, &w);
      PBT_CHECKM(q == q2, "from_chars_first<void*>(%s) = %zd, expected %zd", shown(in).c_str(), (ssize_t)q, (ssize_t)q2); PBT_CHECK(q == csubstr::npos ? p == (void*)&p : p == (void*)w); }
    // strings and words
    std::string tok = in.substr(ne.b, ne.e - ne.b);
    { csubstr v("zz"); size_t q = from_chars_first(cs, &v); PBT_CHECKM(q == (ne.empty() ? csubstr::npos : ne.e), "from_chars_first<csubstr>(%s) = %zd", shown(in).c_str(), (ssize_t)q); if(!ne.empty()) PBT_CHECK(v.str == cs.str + ne.b && v.len == tok.size()); }
    { size_t cap = s.len(12); Buf d(cap, '#'); substr v(d.ptr, d.len); size_t q = from_chars_first(cs, &v); d.check("from_chars_first<substr>");
      if(ne.empty() || tok.size() > cap) PBT_CHECK(q == csubstr::npos);
      else { PBT_CHECKM(q == ne.e, "from_chars_first<substr>(%s) = %zd", shown(in).c_str(), (ssize_t)q); PBT_CHECKM(v.str == d.ptr && std::string(v.str, v.len) == tok, "from_chars_first<substr>(%s) gave %zu characters", shown(in).c_str(), v.len); for(size_t k = tok.size(); k < cap; ++k) PBT_CHECK(d.ptr[k] == '#'); } }
    { char c = '?'; size_t q = from_chars_first(cs, &c); PBT_CHECK(n ? (q == 1 && c == in[0]) : q == csubstr::npos); }
    if(tok.empty() || tok[0] != '+') {
        bool v = false, w = false; size_t q = from_chars_first(cs, &v); bool ok = !tok.empty() && from_chars(csubstr(tok.data(), tok.size()), &w);
        PBT_CHECKM(q == (ok ? ne.e : csubstr::npos), "from_chars_first<bool>(%s) = %zd", shown(in).c_str(), (ssize_t)q);
        if(ok) PBT_CHECK(v == w);
    }
}
static const char tight[] = "0189.eE+-xXpPbBoOafinty ,;])}\t\n";
static std::string gen(Src &s)
{
    std::string num;
    switch(s.draw(8)) {
    case 0: case 1: num = gen_literal(s, true); if(num.size() > 30 && !s.chance(1, 8)) num.resize(30); break;
    case 2: num = gen_dec_literal<double>(s); if(num.size() > 40 && !s.chance(1, 8)) num.resize(40); break;
    case 3: num = gen_hex_literal<double>(s); break;
    case 4: { static const char *w[] = {"inf", "infinity", "nan", "true", "false", "infinit", "in", "na", "TRUE", "0", "1", "-", "+", "0x", "0b", "0o", "."}; num = s.pick(w); break; }
    case 5: { // binary / octal reals
        bool bin = s.coin(); num = bin ? "0b" : "0o"; const char *d = bin ? "01" : "01234567"; num += s.str(6, d); if(s.coin()) num += "." + s.str(6, d); if(s.coin()) { num += s.coin() ? "p" : "P"; if(s.coin()) num += s.coin() ? "+" : "-"; num += s.str(3, "0123456789"); } break; }
    default: num = s.str(10, tight); break;
    }
    if(s.chance(1, 4)) num.insert(0, s.coin() ? "+" : "-");
    if(s.chance(1, 3)) mutate(s, num, tight);
    std::string r = s.chance(1, 3) ? s.str(3, " \t\n\r") : "";
    if(s.chance(1, 100)) r += std::string(s.edge_size(1100), " \t0"[s.draw(3)]);
    r += num; if(s.chance(1, 100)) r += std::string(s.edge_size(1100), "0a "[s.draw(3)]);
    if(s.coin()) { static const char *dl[] = {",", " ", "]", ")", "}", ";", "\n", "\t", "\r", ".", "x", "e", "_", ":"}; r += s.pick(dl); r += s.str(5, "019abx. ,-"); }
    if(s.chance(1, 20)) r += '\0';
    return r;
}
PBT_TEST(structured, 10) { go(s, gen(s)); }
PBT_TEST(tight_alphabet, 4) { go(s, s.str(9, tight)); }
PBT_TEST(arbitrary, 1) { go(s, s.bytes(10)); }
static const char ea[] = "01.e-+xpb, a"; enum { NE = 12 };
PBT_ENUM(all_short, 1 + 12 + 144 + 1728 + 20736)
{
    uint64_t k = s.draw(1 + 12 + 144 + 1728 + 20736), base = 1, n = 0; std::string in;
    while(k >= base) { k -= base; base *= NE; ++n; }
    for(uint64_t i = 0; i < n; ++i) { in += ea[k % NE]; k /= NE; }
    go(s, in);
}
PBT_ENUM_THOROUGH(all_5_6, 248832 + 2985984)
{
    uint64_t k = s.draw(248832 + 2985984), n = 5; std::string in;
    if(k >= 248832) { k -= 248832; n = 6; }
    for(uint64_t i = 0; i < n; ++i) { in += ea[k % NE]; k /= NE; }
    go(s, in);
}
