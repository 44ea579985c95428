// P18: base64 encodes and decodes exactly, for any bytes and any buffer
#include "anyarg.hpp"
#include <c4/base64.hpp>
using namespace c4; using namespace pbt; using anyarg::b64;
static int sextet(char c) { if(c >= 'A' && c <= 'Z') return c - 'A'; if(c >= 'a' && c <= 'z') return c - 'a' + 26; if(c >= '0' && c <= '9') return c - '0' + 52; return c == '+' ? 62 : c == '/' ? 63 : -1; }
static bool m_valid(std::string const& t)
{
    if(t.size() % 4) return false; size_t pad = 0; while(pad < 2 && pad < t.size() && t[t.size()-1-pad] == '=') ++pad;
    for(size_t i = 0; i + pad < t.size(); ++i) if(sextet(t[i]) < 0) return false; return true;
}
static std::string m_decode(std::string const& t)
{
    std::string r; for(size_t i = 0; i < t.size(); i += 4) { unsigned v = 0; int n = 3; for(size_t j = 0; j < 4; ++j) { int x = sextet(t[i+j]); if(x < 0) { x = 0; --n; } v = v * 64 + (unsigned)x; } for(int j = 0; j < n; ++j) r += (char)(v >> (16 - 8*j)); } return r;
}
static std::vector<size_t> sizes(Src &s, size_t need) { std::vector<size_t> r{need, need + 1, need ? need - 1 : 0, 0, need + 40}; for(int i = 0; i < 4; ++i) r.push_back(s.range(0, need)); if(need < 16) for(size_t i = 0; i <= need; ++i) r.push_back(i); return r; }
static void roundtrip(Src &s, std::string const& d)
{
    std::string e = b64(d); Buf in(d, 'A'); cblob cb(in.ptr, in.len);
    for(size_t n : sizes(s, e.size())) {
        Buf out(n, '#', '#'); size_t r = base64_encode(substr(out.ptr, out.len), cb); PBT_CHECKM(r == e.size(), "encoding %zu bytes %s needs %zu characters, expected %zu (buffer %zu)", d.size(), shown(d).c_str(), r, e.size(), n);
        if(n >= r) { PBT_CHECKM(out.first(r) == e, "encoding of %s is %s, expected %s", shown(d).c_str(), shown(out.first(r)).c_str(), shown(e).c_str()); for(size_t i = r; i < n; ++i) PBT_CHECKM(out.ptr[i] == '#', "encoding of %s wrote beyond its result", shown(d).c_str()); } out.check("base64_encode");
    }
    PBT_CHECK(base64_encode(substr(), cb) == e.size());
    { Buf out(e.size() + 2, '#', '#'); size_t r = to_chars(substr(out.ptr, out.len), fmt::cbase64(csubstr(in.ptr, in.len))); PBT_CHECK(r == e.size() && out.first(r) == e); r = to_chars(substr(out.ptr, out.len), fmt::base64(csubstr(in.ptr, in.len))); PBT_CHECK(r == e.size() && out.first(r) == e); r = to_chars(substr(out.ptr, out.len), fmt::cbase64(in.ptr, in.len)); PBT_CHECK(r == e.size() && out.first(r) == e); }
    Buf ev(e, '='); csubstr ec(ev.ptr, ev.len); PBT_CHECKM(base64_valid(ec), "the encoding %s of %s is not valid", shown(e).c_str(), shown(d).c_str());
    for(size_t n : sizes(s, d.size())) {
        Buf out(n, '#', '#'); size_t r = base64_decode(ec, blob(out.ptr, out.len)); PBT_CHECKM(r == d.size(), "decoding %s needs %zu bytes, expected %zu (buffer %zu)", shown(e).c_str(), r, d.size(), n);
        if(n >= r) { PBT_CHECKM(out.first(r) == d, "decoding of %s is %s, expected %s", shown(e).c_str(), shown(out.first(r)).c_str(), shown(d).c_str()); for(size_t i = r; i < n; ++i) PBT_CHECKM(out.ptr[i] == '#', "decoding of %s wrote beyond its result", shown(e).c_str()); } out.check("base64_decode");
        Buf o2(n, '#', '#'); fmt::base64_wrapper w = fmt::base64(substr(o2.ptr, o2.len)); size_t r2 = from_chars(ec, &w); PBT_CHECK(r2 == r && o2.str() == out.str());
    }
    PBT_CHECK(in.str() == d && ev.str() == e);
}
PBT_TEST(bytes, 4) { std::string d = s.stretch(s.bytes(s.chance(1, 20) ? 400 : 40)); s.note(shown(d)); if(!d.empty()) s.nontrivial(d); roundtrip(s, d); }
PBT_ENUM(short_sequences, 65536 + 256) { size_t k = s.draw(65536 + 256); std::string d; if(k < 256) d = std::string(1, (char)k); else { d += (char)((k - 256) >> 8); d += (char)((k - 256) & 255); } s.note(shown(d)); s.nontrivial(k); std::string e = b64(d); char o[8], b[4]; size_t n = base64_encode(substr(o, 8), cblob(d.data(), d.size())); PBT_CHECKM(n == 4 && std::string(o, 4) == e, "encoding of %s", shown(d).c_str()); PBT_CHECK(base64_valid(csubstr(o, 4))); n = base64_decode(csubstr(o, 4), blob(b, 4)); PBT_CHECKM(n == d.size() && std::string(b, n) == d, "round trip of %s", shown(d).c_str()); }
// lengths around the places where a 16-bit count of characters, bytes, triplets or quartets would wrap
PBT_ENUM(large, 4 * 9) { static const size_t at[] = {49152, 65536, 196608, 262144}; size_t k = s.draw(36), n = at[k / 9] - 4 + k % 9; std::string d; d.reserve(n); for(size_t i = 0; i < n; ++i) d += (char)((i * 2654435761u) >> 13); s.note(strf("%zu bytes", n)); s.nontrivial(k); roundtrip(s, d); }
// every value of every character of a quartet, through both directions
PBT_ENUM_THOROUGH(triplets, 65536) { size_t k = s.draw(65536); s.nontrivial(k); for(unsigned lo = 0; lo < 256; ++lo) { unsigned char d[3] = {(unsigned char)(k >> 8), (unsigned char)k, (unsigned char)lo}, b[4]; char o[8]; size_t n = base64_encode(substr(o, 8), cblob((void*)d, 3)); PBT_CHECK(n == 4 && std::string(o, 4) == b64(std::string((char*)d, 3))); n = base64_decode(csubstr(o, 4), blob((void*)b, 4)); PBT_CHECK(n == 3 && memcmp(b, d, 3) == 0); } }
template<class T> static void typed(Src &s, T v)
{
    std::string d((const char*)&v, sizeof(T)), e = b64(d); Buf out(e.size(), '#', '#'); T const& cv = v; s.note(shown(d)); s.nontrivial(d);
    size_t r = to_chars(substr(out.ptr, out.len), fmt::cbase64(cv)); PBT_CHECKM(r == e.size() && out.str() == e, "variable of %zu bytes", sizeof(T)); T back; memset(&back, 0x5a, sizeof(T)); fmt::base64_wrapper w = fmt::base64(back); PBT_CHECK(w.data.len == sizeof(T)); r = from_chars(csubstr(out.ptr, out.len), &w); PBT_CHECKM(r == sizeof(T) && memcmp(&back, &v, sizeof(T)) == 0, "variable of %zu bytes did not survive", sizeof(T));
    T arr[3] = {v, (T)(v + 1), v}; std::string da((const char*)arr, sizeof(arr)); T const (&ca)[3] = arr; std::string ea = b64(da); Buf oa(ea.size(), '#', '#'); r = to_chars(substr(oa.ptr, oa.len), fmt::cbase64(ca)); PBT_CHECK(r == ea.size() && oa.str() == ea); T arr2[3]; memset(arr2, 0, sizeof arr2); auto wa = fmt::base64(arr2); PBT_CHECK(from_chars(csubstr(oa.ptr, oa.len), &wa) == sizeof(arr) && memcmp(arr, arr2, sizeof(arr)) == 0);
    r = to_chars(substr(oa.ptr, oa.len), fmt::cbase64((T const*)arr, (size_t)2)); PBT_CHECK(r == b64(da.substr(0, 2 * sizeof(T))).size() && oa.first(r) == b64(da.substr(0, 2 * sizeof(T))));
}
PBT_TEST(variables, 1) { switch(s.draw(6)) { case 0: typed<uint8_t>(s, s.integer<uint8_t>()); break; case 1: typed<int16_t>(s, s.integer<int16_t>()); break; case 2: typed<uint32_t>(s, s.integer<uint32_t>()); break; case 3: typed<int64_t>(s, s.integer<int64_t>()); break; case 4: typed<double>(s, (double)s.integer<int64_t>()); break; default: typed<float>(s, (float)s.integer<int32_t>()); break; } }
PBT_TEST(validation, 4)
{
    static const char *al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string t;
    switch(s.draw(4)) { case 0: t = s.bytes(16); break; case 1: t = s.str(24, "Az09+/=-_ "); break; case 2: t = b64(s.bytes(20)); if(!t.empty()) t[s.draw(t.size())] = s.coin() ? '=' : (char)s.draw(256); break; default: { size_t n = s.range(0, 6) * 4; for(size_t i = 0; i < n; ++i) t += al[s.draw(64)]; if(n) { size_t k = s.draw(4); for(size_t i = 0; i < k; ++i) t[n-1-i] = '='; } if(s.chance(1, 8) && n) t.erase(t.size() - 1); break; } }
    Buf b(t, 'A'); bool v = m_valid(t), g = base64_valid(csubstr(b.ptr, b.len)); s.note(shown(t) + (v ? " valid" : " invalid")); if(t.size() >= 4) s.nontrivial(t);
    PBT_CHECKM(g == v, "base64_valid(%s) = %d", shown(t).c_str(), g);
    if(v) { std::string d = m_decode(t); Buf o(d.size(), '#', '#'); size_t r = base64_decode(csubstr(b.ptr, b.len), blob(o.ptr, o.len)); PBT_CHECKM(r == d.size() && o.str() == d, "decoding of %s gave %zu bytes %s, expected %s", shown(t).c_str(), r, shown(o.str()).c_str(), shown(d).c_str()); o.check("base64_decode"); }
    #ifndef NDEBUG
    else { Buf o(32, '#', '#'); PBT_CHECKM(raises([&]{ base64_decode(csubstr(b.ptr, b.len), blob(o.ptr, o.len)); }), "decoding invalid %s raised no error", shown(t).c_str()); }
    #else
    else if(t.size() % 4) { Buf o(32, '#', '#'); PBT_CHECKM(raises([&]{ base64_decode(csubstr(b.ptr, b.len), blob(o.ptr, o.len)); }), "decoding %s raised no error", shown(t).c_str()); }
    #endif
}
PBT_ENUM(every_byte, 256 * 8) { size_t k = s.draw(256 * 8); std::string t = "AAAAAAAA"; t[k % 8] = (char)(k / 8); s.note(shown(t)); s.nontrivial(k); PBT_CHECKM(base64_valid(csubstr(t.data(), 8)) == m_valid(t), "base64_valid(%s)", shown(t).c_str()); }
