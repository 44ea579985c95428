// generators of strings, patterns and positions for the string-view properties
#ifndef STRGEN_HPP_
#define STRGEN_HPP_
#include "pbt.hpp"
#include <c4/substr.hpp>
namespace strgen {
using pbt::Src;
inline const char* alphabet(Src &s)
{
    static const char *a[] = {"ab", "a", "abc", "/.a", "\\\"'a", "([{}])x", " \t\r\n.a", "aAbBzZ@[`{"};
    size_t k = s.draw(sizeof(a)/sizeof(a[0]) + 2); return k < sizeof(a)/sizeof(a[0]) ? a[k] : nullptr;
}
/** a pattern related to t: a piece of it, a mutated piece, or unrelated */
inline std::string pattern(Src &s, std::string const& t, const char *alph, size_t maxlen)
{
    if(t.empty() || s.chance(1, 3)) return s.str(maxlen, alph);
    size_t b = s.draw(t.size()); size_t n = std::min<size_t>(s.range(0, maxlen), t.size() - b);
    std::string p = t.substr(b, n);
    if(!p.empty() && s.chance(1, 3)) p[s.draw(p.size())] = alph ? alph[s.draw(strlen(alph))] : (char)s.draw(256);
    if(s.chance(1, 4) && p.size() < maxlen) p += alph ? alph[s.draw(strlen(alph))] : (char)s.draw(256);
    return p;
}
inline char chr(Src &s, std::string const& t, const char *alph) { if(!t.empty() && s.coin()) return t[s.draw(t.size())]; return alph ? alph[s.draw(strlen(alph))] : (char)s.draw(256); }
/** exact heap copy with guards, viewable as either kind of view; some empty views are null */
struct View
{
    pbt::Buf b; bool null;
    View(std::string const& t, char guard, bool null_) : b(t, guard), null(null_ && t.empty()) {}
    c4::csubstr c() const { return null ? c4::csubstr() : c4::csubstr(b.ptr, b.len); }
    c4::substr m() const { return null ? c4::substr() : c4::substr(b.ptr, b.len); }
};
} // namespace strgen
#endif
