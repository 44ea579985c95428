// P31: type_name() spells the type. The generated input is a type: a base wrapped by a random sequence of
// constructors. Oracle: the C++ ABI's own spelling of Tag<T> (an independent path: mangling + demangling),
// compared after removing blanks and cv-words (whose position differs), which are counted.
#include "pbt.hpp"
#include <c4/type_name.hpp>
#include <c4/substr.hpp>
#include <cxxabi.h>
#include <typeinfo>
#include <set>
namespace tn {
struct a {}; struct a_b {}; class klass {}; enum E1 { e1 }; enum class E2 { e2 }; union uni { int i; };
template<class T> struct wrap {}; template<class T, class U> struct two {}; template<class T, int N> struct num {}; template<class... T> struct many {};
namespace deep { struct inner { struct in2 {}; }; template<class T> struct [[gnu::aligned(4)]] al {}; }
}
struct global_type_with_a_rather_long_name_so_that_the_text_is_longer_than_most_of_the_others_in_this_file {};
template<class T> struct Tag {};
using namespace pbt;
struct Names { const char *got; size_t len; const char *again; size_t again_len; const char *mangled; };
struct Entry { void (*fn)(Names*); std::string got() const { Names n; fn(&n); return std::string(n.got, n.len); } bool stable() const { Names n; fn(&n); return n.len == n.again_len && memcmp(n.got, n.again, n.len) == 0; }
    std::string dem() const { Names n; fn(&n); int st = 0; char *d = abi::__cxa_demangle(n.mangled, nullptr, nullptr, &st); std::string r(d ? d : "?"); free(d); return r.size() > 5 && r.compare(0, 4, "Tag<") == 0 && r.back() == '>' ? r.substr(4, r.size() - 5) : "?"; } };
template<class T> static void names_(Names *n) { c4::cspan<char> a = c4::type_name<T>(), b = c4::type_name<T>(); n->got = a.data(); n->len = a.size(); n->again = b.data(); n->again_len = b.size(); n->mangled = typeid(Tag<T>).name(); }
template<class T> static Entry entry() { Entry e = {&names_<T>}; return e; }
template<class T> struct mk_p { typedef T* type; }; template<class T> struct mk_c { typedef const T type; }; template<class T> struct mk_v { typedef volatile T type; }; template<class T> struct mk_a { typedef T type[3]; }; template<class T> struct mk_w { typedef tn::wrap<T> type; }; template<class T> struct mk_2 { typedef tn::two<T, tn::a> type; };
template<class T> struct mk_3 { typedef tn::two<tn::E2, T> type; }; template<class T> struct mk_n { typedef tn::num<T, -7> type; }; template<class T> struct mk_f { typedef void (*type)(tn::wrap<T>); }; template<class T> struct mk_m { typedef tn::many<T, int, tn::wrap<T>> type; }; template<class T> struct mk_d { typedef tn::deep::al<T> type; };
template<class T, int D> struct Fill
{
    static void go(std::vector<Entry> &v)
    {
        v.push_back(entry<T>());
        Fill<typename mk_p<T>::type, D-1>::go(v); Fill<typename mk_c<T>::type, D-1>::go(v); Fill<typename mk_a<T>::type, D-1>::go(v); Fill<typename mk_w<T>::type, D-1>::go(v); Fill<typename mk_2<T>::type, D-1>::go(v); Fill<typename mk_3<T>::type, D-1>::go(v);
        Fill<typename mk_n<T>::type, D-1>::go(v); Fill<typename mk_f<T>::type, D-1>::go(v); Fill<typename mk_m<T>::type, D-1>::go(v); Fill<typename mk_d<T>::type, D-1>::go(v); Fill<typename mk_v<T>::type, D-1>::go(v);
    }
};
template<class T> struct Fill<T, -1> { static void go(std::vector<Entry>&) {} };
template<class T, class U, class... M> struct FillAll { static void go(std::vector<Entry> &v) { Fill<T, sizeof(T) == 1 ? 1 : 2>::go(v); v.push_back(entry<T&>()); v.push_back(entry<T&&>()); v.push_back(entry<tn::wrap<T*&>>()); v.push_back(entry<tn::wrap<T const&>>()); FillAll<U, M...>::go(v); } };
struct End {}; template<class T> struct FillAll<T, End> { static void go(std::vector<Entry> &v) { Fill<T, 2>::go(v); } };
static std::vector<Entry> const& table()
{
    static std::vector<Entry> *t = nullptr; if(!t) { t = new std::vector<Entry>; FillAll<int, char, bool, float, double, unsigned char, tn::a, tn::a_b, tn::klass, tn::E1, tn::E2, tn::uni, tn::deep::inner::in2, global_type_with_a_rather_long_name_so_that_the_text_is_longer_than_most_of_the_others_in_this_file, End>::go(*t); } return *t;
}
static void norm(std::string const& in, std::string *rest, size_t *cv)
{   // drop blanks and the cv-words
    rest->clear(); *cv = 0; for(size_t i = 0; i < in.size(); ) {
        if(in[i] == ' ') { ++i; continue; }
        if(isalpha((unsigned char)in[i]) || in[i] == '_') { size_t j = i; while(j < in.size() && (isalnum((unsigned char)in[j]) || in[j] == '_')) ++j; std::string w = in.substr(i, j - i); if(w == "const" || w == "volatile") *cv += w == "const" ? 1 : 1000; else *rest += w; i = j; continue; }
        *rest += in[i++]; }
    // pointers to array or function types may be spelled with redundant parentheses: none are generated
}
PBT_TEST(spelling, 4)
{
    auto const& t = table(); Entry const& e = t[(size_t)s.draw(t.size())]; std::string g = e.got(), d = e.dem(); s.note(d); s.nontrivial(d);
    PBT_CHECKM(d != "?", "harness: no demangled name"); std::string a, b; size_t ca, cb; norm(g, &a, &ca); norm(d, &b, &cb);
    PBT_CHECKM(a == b && ca == cb, "type_name gives '%s' for the type '%s'", g.c_str(), d.c_str());
    PBT_CHECKM(!g.empty() && g.front() != ' ' && g.back() != ' ', "type_name '%s' has blanks around it", g.c_str()); PBT_CHECK(e.stable());
}
PBT_TEST(distinct, 2)
{
    auto const& t = table(); Entry const& e = t[(size_t)s.draw(t.size())]; Entry const& f = t[(size_t)s.draw(t.size())]; std::string d = e.dem(), h = f.dem(); s.note(d); s.note(h); if(d != h) s.nontrivial(d + "|" + h);
    PBT_CHECKM((e.got() == f.got()) == (d == h), "types '%s' and '%s' are named '%s' and '%s'", d.c_str(), h.c_str(), e.got().c_str(), f.got().c_str());
}
template<class T> static void value(T const& v, const char *want) { c4::cspan<char> a = c4::type_name(v), b = c4::type_name<T>(); PBT_CHECKM(std::string(a.data(), a.size()) == want && std::string(b.data(), b.size()) == want, "type_name of a value gives '%.*s', expected '%s'", (int)a.size(), a.data(), want); }
PBT_TEST(values, 1)
{
    size_t k = s.draw(10); s.nontrivial(k); switch(k) { case 0: value((int)s.u64(), "int"); break; case 1: value((char)s.draw(256), "char"); break; case 2: value(1.5, "double"); break; case 3: value(tn::a(), "tn::a"); break; case 4: value(tn::e1, "tn::E1"); break; case 5: value(tn::wrap<int>(), "tn::wrap<int>"); break; case 6: value(true, "bool"); break; case 7: value((unsigned char)s.draw(256), "unsigned char"); break; case 8: value(tn::deep::inner::in2(), "tn::deep::inner::in2"); break; default: value(tn::E2::e2, "tn::E2"); }
}
