// P19: every Unicode code point becomes its exact UTF-8 sequence
#include "pbt.hpp"
#include <c4/substr.hpp>
#include <c4/utf.hpp>
using namespace c4; using namespace pbt;
static std::string m_utf8(uint32_t c)
{
    std::string r; if(c > 0x10ffff) return r; int extra = c < 0x80 ? 0 : c < 0x800 ? 1 : c < 0x10000 ? 2 : 3; static const unsigned lead[] = {0, 0xc0, 0xe0, 0xf0};
    r += (char)(lead[extra] + c / (1u << 6*extra)); for(int i = extra - 1; i >= 0; --i) r += (char)(0x80 + (c / (1u << 6*i)) % 64); return r;
}
static void one(uint32_t c, size_t buflen, std::string const& hex)
{
    std::string e = m_utf8(c); Buf b(buflen, '\x5a', '\x5a'); size_t n = decode_code_point((uint8_t*)b.ptr, b.len, c); PBT_CHECKM(n == e.size() && b.first(n) == e, "U+%x gave %zu bytes %s, expected %s", c, n, shown(b.first(std::min(n, buflen))).c_str(), shown(e).c_str());
    for(size_t i = n; i < buflen; ++i) PBT_CHECKM(b.ptr[i] == '\x5a', "U+%x wrote beyond its sequence", c); b.check("decode_code_point");
    if(hex.empty()) return;
    Buf b2(buflen, '\x5a', '\x5a'), h(hex, '1'); substr r = decode_code_point(substr(b2.ptr, b2.len), csubstr(h.ptr, h.len)); PBT_CHECKM(r.str == b2.ptr && r.len == e.size() && std::string(r.str, r.len) == e, "\"%s\" gave %s, expected %s", hex.c_str(), shown(std::string(r.str, r.len)).c_str(), shown(e).c_str());
    for(size_t i = r.len; i < buflen; ++i) PBT_CHECKM(b2.ptr[i] == '\x5a', "\"%s\" wrote beyond its sequence", hex.c_str()); b2.check("decode_code_point");
}
PBT_ENUM(every_code_point, 0x1110 * 2)
{   // every code point up to U+110FFF, in blocks of 128, both as number and as hexadecimal text
    uint32_t base = (uint32_t)s.draw(0x1110 * 2) * 128; s.note(strf("U+%x..", base)); s.nontrivial(base); for(uint32_t c = base; c < base + 128; ++c) one(c, 4 + (c & 3), c ? strf(c & 1 ? "%x" : "%X", c) : std::string());
}
PBT_TEST(spellings, 4)
{
    uint32_t c = s.coin() ? (uint32_t)s.draw(0x110000) : s.chance(1, 4) ? (uint32_t)s.integer<uint32_t>() : (uint32_t)((s.coin() ? 0x10ffff : s.coin() ? 0xffff : s.coin() ? 0x7ff : 0x7f) + s.irange(-3, 3)); if(c == 0) c = 1; std::string h = strf("%x", c); for(auto &x : h) if(s.coin()) x = (char)toupper(x);
    s.note(h); s.nontrivial(h); one(c, s.range(4, 12), h);
}
PBT_TEST(bad_digits, 1)
{
    std::string h = strf("%x", (unsigned)s.range(1, 0xfffffff)); char bad = (char)s.draw(256); if(isxdigit((unsigned char)bad)) bad = 'g'; h[s.draw(h.size())] = bad; if(h[0] == '0') h = "g"; s.note(shown(h)); s.nontrivial(h); Buf b(4, '\x5a', '\x5a'), t(h, '1');
    PBT_CHECKM(raises([&]{ decode_code_point(substr(b.ptr, b.len), csubstr(t.ptr, t.len)); }), "%s was accepted as a code point", shown(h).c_str()); b.check("decode_code_point");
}
