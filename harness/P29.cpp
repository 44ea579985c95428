// P29: standard containers, literals, arrays and raw objects to and from views
#include "pbt.hpp"
#include "strgen.hpp"
#include <c4/std/string.hpp>
#include <c4/std/vector.hpp>
#include <c4/std/string_view.hpp>
#include <c4/charconv.hpp>
#include <c4/blob.hpp>
#include <c4/format.hpp>
#include <list>
#include <memory>
using namespace c4; using namespace pbt;
static std::string gen(Src &s) { if(s.chance(1, 60)) return s.stretch(s.str(s.edge_size(300), "ab "), 5000); switch(s.draw(4)) { case 0: return s.str(6, "ab"); case 1: return s.str(40, nullptr); case 2: { std::string t = s.str(5, "ab"); t += std::string(s.draw(3), '\0'); t += s.str(5, "b\xff"); return t; } default: return s.str(12, "ab \t\n0"); } }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static int ref_cmp(std::string const& a, std::string const& b) { for(size_t i = 0; i < a.size() && i < b.size(); ++i) if(a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return a.size() < b.size() ? -1 : a.size() > b.size(); }
template<class A, class B> static void cmp_ops(A const& a, B const& b, int w, const char *what)
{
    PBT_CHECKM((a == b) == (w == 0) && (a != b) == (w != 0) && (a < b) == (w < 0) && (a <= b) == (w <= 0) && (a > b) == (w > 0) && (a >= b) == (w >= 0), "%s, expected order %d: == %d != %d < %d <= %d > %d >= %d", what, w, a == b, a != b, a < b, a <= b, a > b, a >= b);
    PBT_CHECKM((b == a) == (w == 0) && (b != a) == (w != 0) && (b > a) == (w < 0) && (b >= a) == (w <= 0) && (b < a) == (w > 0) && (b <= a) == (w >= 0), "%s reversed, expected order %d: == %d != %d > %d >= %d < %d <= %d", what, -w, b == a, b != a, b > a, b >= a, b < a, b <= a);
}
template<class C> static C mk(std::string const& t) { return C(t.data(), t.data() + t.size()); }
/** views cover the contents in place */
template<class C> static void views(C &c, std::string const& t, const char *what)
{
    csubstr r = to_csubstr((C const&)c); PBT_CHECKM(r.len == t.size() && (t.empty() || (r.str == &((C const&)c)[0] && !memcmp(r.str, t.data(), t.size()))), "read view of a %s of %zu characters", what, t.size());
    substr w = to_substr(c); PBT_CHECKM(w.len == t.size() && (t.empty() || w.str == &c[0]), "write view of a %s of %zu characters", what, t.size()); if(w.len) { char k = w.str[w.len - 1]; w.str[w.len - 1] = (char)(k ^ 1); PBT_CHECK(c[c.size() - 1] == (char)(k ^ 1) && r.str[r.len - 1] == (char)(k ^ 1)); w.str[w.len - 1] = k; }
}
template<class C> static void writes(C const& c, std::string const& t, size_t room, const char *what)
{
    Buf b(room, '#'); size_t r = to_chars(substr(b.ptr, room), c); size_t n = std::min(room, t.size()); PBT_CHECKM(r == t.size(), "writing a %s of %zu characters into %zu returned %zu", what, t.size(), room, r); PBT_CHECKM(n == 0 || !memcmp(b.ptr, t.data(), n), "writing a %s of %zu characters into %zu stored something else", what, t.size(), room); for(size_t i = n; i < room; ++i) PBT_CHECKM(b.ptr[i] == '#', "writing a %s touched character %zu beyond its text", what, i); b.check(what); PBT_CHECK(to_chars(substr{}, c) == t.size());
}
template<class C> static void reads(C c, std::string const& old, std::string const& t, const char *what)
{
    Buf b(t); size_t cap = c.capacity(); (void)cap; bool ok = from_chars(csubstr(b.ptr, t.size()), &c); PBT_CHECKM(ok && c.size() == t.size() && std::string(c.begin(), c.end()) == t, "reading %s into a %s that held %s gives %s", shown(t).c_str(), what, shown(old).c_str(), shown(std::string(c.begin(), c.end())).c_str());
}
struct Alloc2Base {}; 
template<class T> struct MyAlloc { typedef T value_type; MyAlloc() {} template<class U> MyAlloc(MyAlloc<U> const&) {} T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); } void deallocate(T *p, size_t) { free(p); } template<class U> bool operator== (MyAlloc<U> const&) const { return true; } template<class U> bool operator!= (MyAlloc<U> const&) const { return false; } };
PBT_TEST(containers, 5)
{
    std::string t = gen(s), u = s.chance(1, 4) ? t : gen(s); if(s.chance(1, 6) && !t.empty()) u = t.substr(0, s.draw(t.size() + 1)); size_t room = s.draw(t.size() + 4); if(!t.empty()) s.nontrivial(t + "|" + u + strf("|%zu", room)); s.note(shown(t) + " / " + shown(u) + strf(" room %zu", room)); std::vector<char> v(t.begin(), t.end()); std::vector<char, MyAlloc<char>> va(t.begin(), t.end()); std::string t2 = t; int w = ref_cmp(u, t); Buf ub(u); csubstr us(ub.ptr, u.size());
    views(t2, t, "string"); views(v, t, "vector"); views(va, t, "vector with an allocator"); PBT_CHECK(t2 == t);
    writes(t, t, room, "string"); writes(v, t, room, "vector"); writes(va, t, room, "vector with an allocator");
    reads<std::string>(u, u, t, "string"); reads<std::vector<char>>(mk<std::vector<char>>(u), u, t, "vector"); reads<std::vector<char, MyAlloc<char>>>(mk<std::vector<char, MyAlloc<char>>>(u), u, t, "vector with an allocator");
    cmp_ops(us, t, w, "view and string"); cmp_ops(us, v, w, "view and vector"); cmp_ops(us, va, w, "view and vector with an allocator"); substr um(ub.ptr, u.size()); PBT_CHECK((um == t) == (w == 0) && (t == um) == (w == 0) && (um == v) == (w == 0));
    #if __cplusplus >= 201703L
    std::string_view sv(t); csubstr svv = to_csubstr(sv); PBT_CHECK(svv.str == sv.data() && svv.len == sv.size()); writes(sv, t, room, "string_view"); cmp_ops(us, sv, w, "view and string_view"); std::string_view nul; PBT_CHECK(to_csubstr(nul).len == 0 && to_chars(substr(), nul) == 0);
    #endif
    { std::string o; PBT_CHECK(from_chars(csubstr(), &o) && o.empty()); o = u; PBT_CHECK(from_chars(csubstr(), &o) && o.empty()); std::vector<char> p = v; PBT_CHECK(from_chars(csubstr(), &p) && p.empty()); }
}
PBT_TEST(plain_views, 4)
{   // views, C strings and arrays written as text, and text read into fixed views
    std::string t = gen(s); size_t room = s.draw(t.size() + 4), cap = s.draw(t.size() + 4); if(!t.empty()) s.nontrivial(t + strf("|%zu|%zu", room, cap)); s.note(shown(t) + strf(" room %zu cap %zu", room, cap)); Buf tb(t); csubstr cs(tb.ptr, t.size()); substr ms(tb.ptr, t.size());
    writes(cs, t, room, "read-only view"); writes(ms, t, room, "writeable view"); std::string z = t.substr(0, t.find('\0')); { Buf zb(z + std::string(1, '\0')); writes((const char*)zb.ptr, z, room, "C string"); char *nc = zb.ptr; csubstr zv = to_csubstr((const char*)nc); PBT_CHECK(zv.str == nc && zv.len == z.size()); substr zs = to_substr(nc); PBT_CHECK(zs.str == nc && zs.len == z.size()); }
    csubstr out("zz"); PBT_CHECK(from_chars(cs, &out) && out.str == cs.str && out.len == cs.len);
    { Buf d(cap, '@'); substr o(d.ptr, cap); bool ok = from_chars(cs, &o); PBT_CHECKM(ok == (cap >= t.size()), "reading %zu characters into a view of %zu returned %d", t.size(), cap, (int)ok); if(ok) { PBT_CHECKM(o.str == d.ptr && o.len == t.size() && (t.empty() || !memcmp(d.ptr, t.data(), t.size())), "reading %s into a view of %zu", shown(t).c_str(), cap); for(size_t i = t.size(); i < cap; ++i) PBT_CHECKM(d.ptr[i] == '@', "reading touched character %zu beyond the text", i); } d.check("from_chars(substr)"); }
    { // the first word
        size_t a = 0; while(a < t.size() && strchr(" \n\r\t", t[a]) && t[a]) ++a; size_t e = a; while(e < t.size() && !(strchr(" \n\r\t", t[e]) && t[e])) ++e; bool exotic = t.find_first_of(std::string("\f\v\0", 3)) != std::string::npos;
        if(!exotic) { csubstr f("zz"); size_t r = from_chars_first(cs, &f); if(a == e) PBT_CHECKM(r == csubstr::npos, "first word of %s", shown(t).c_str()); else PBT_CHECKM(r == e && f.str == cs.str + a && f.len == e - a, "first word of %s is at [%zu,%zu), returned %zu", shown(t).c_str(), a, e, r);
            Buf d(cap, '@'); substr o(d.ptr, cap); r = from_chars_first(cs, &o); if(a == e || e - a > cap) PBT_CHECKM(r == csubstr::npos, "first word of %s into a view of %zu returned %zu", shown(t).c_str(), cap, r); else { PBT_CHECKM(r == e && o.len == e - a && !memcmp(o.str, t.data() + a, e - a), "first word of %s into a view of %zu", shown(t).c_str(), cap); for(size_t i = e - a; i < cap; ++i) PBT_CHECK(d.ptr[i] == '@'); } d.check("from_chars_first(substr)"); } }
}
template<size_t N> struct Arr { static void go(Src &s, std::string const& pool)
{
    char a[N]; for(size_t i = 0; i + 1 < N; ++i) a[i] = pool[i % pool.size()]; a[N - 1] = '\0'; std::string t(a, N - 1); csubstr c(a); substr m(a); PBT_CHECKM(c.str == a && c.len == N - 1 && m.str == a && m.len == N - 1, "view of an array of %zu", N); csubstr c2; c2 = a; substr m2; m2 = a; PBT_CHECK(c2.str == a && c2.len == N - 1 && m2.str == a && m2.len == N - 1); csubstr c3 = to_csubstr(a); substr m3 = to_substr(a); PBT_CHECK(c3.str == a && c3.len == N - 1 && m3.str == a && m3.len == N - 1); size_t room = s.draw(N + 3); const char (&ca)[N] = a; Buf b(room, '#'); size_t r = to_chars(substr(b.ptr, room), ca); PBT_CHECKM(r == N - 1 && std::string(b.ptr, std::min(room, N - 1)) == t.substr(0, room), "writing an array of %zu into %zu returned %zu", N, room, r); for(size_t i = N - 1; i < room; ++i) PBT_CHECK(b.ptr[i] == '#'); b.check("array");
} };
PBT_TEST(arrays, 1) { std::string p = s.str(20, "abc\xff") + "k"; s.nontrivial(p); s.note(shown(p)); switch(s.draw(7)) { case 0: Arr<2>::go(s, p); break; case 1: Arr<1>::go(s, p); break; case 2: Arr<3>::go(s, p); break; case 3: Arr<8>::go(s, p); break; case 4: Arr<16>::go(s, p); break; case 5: Arr<300>::go(s, p); break; default: Arr<41>::go(s, p); } }
// raw objects
struct POD { int a; char b; double c; }; struct Big { char x[100]; };
template<class T> static void blob_go(Src &s)
{
    size_t n = s.range(0, 9), op = s.draw(9); T arr[10]; std::string bytes = s.bytes(sizeof arr); bytes.resize(sizeof arr, '\x11'); memcpy((void*)arr, bytes.data(), sizeof arr); s.nontrivial(strf("%zu %zu %zu", sizeof(T), n, op)); s.note(strf("objects of %zu bytes, %zu of them, op %zu", sizeof(T), n, op)); void *at; size_t len; T *p = arr + s.draw(10 - n); T const* cp = p; T var; T const& cvar = var; T five[5]; T const (&cfive)[5] = five;
    #define BL(b, P, L) do { at = (void*)(b).buf; len = (b).len; PBT_CHECKM(at == (void*)(P) && len == (L), "blob operation %zu on %zu objects of %zu bytes: offset %td, length %zu instead of %zu", op, n, sizeof(T), (char*)at - (char*)(P), len, (size_t)(L)); } while(0)
    switch(op) {
    case 0: { blob b(var); BL(b, &var, sizeof(T)); cblob c(var); BL(c, &var, sizeof(T)); cblob d(cvar); BL(d, &var, sizeof(T)); break; }
    case 1: { blob b(p, n); BL(b, p, sizeof(T) * n); cblob c(p, n); BL(c, p, sizeof(T) * n); cblob d(cp, n); BL(d, p, sizeof(T) * n); break; }
    case 2: { blob b(five); BL(b, five, sizeof five); cblob c(five); BL(c, five, sizeof five); cblob d(cfive); BL(d, five, sizeof five); break; }
    case 3: { blob b(p, n); b = var; BL(b, &var, sizeof(T)); b = five; BL(b, five, sizeof five); blob &q = (b = var); PBT_CHECK(&q == &b); cblob c(p, n); c = cvar; BL(c, &var, sizeof(T)); c = cfive; BL(c, five, sizeof five); cblob &r = (c = cfive); PBT_CHECK(&r == &c); break; }
    case 4: { blob b(p, n), b2(b); BL(b2, p, sizeof(T) * n); cblob c(b); BL(c, p, sizeof(T) * n); cblob c2(std::move(b2)); BL(c2, p, sizeof(T) * n); blob b3(var); b3 = b; BL(b3, p, sizeof(T) * n); break; }
    case 5: { blob b(p, n); cblob c(var); cblob &r = (c = b); PBT_CHECK(&r == &c); BL(c, p, sizeof(T) * n); BL(r, p, sizeof(T) * n); cblob d(var); blob b2(p, n); cblob &q = (d = std::move(b2)); PBT_CHECK(&q == &d); BL(d, p, sizeof(T) * n); break; }
    case 6: { blob b((void*)p, n); BL(b, p, n); cblob c((void const*)p, n); BL(c, p, n); cblob d((void*)p, n); BL(d, p, n); break; }
    case 7: { blob b(five); for(size_t i = 0; i < b.len; ++i) b.buf[i] = (char)(i * 7); for(size_t i = 0; i < sizeof five; ++i) PBT_CHECK(((char*)five)[i] == (char)(i * 7)); break; }
    default: { cblob c(p, n); std::string got(c.buf, c.len); PBT_CHECKM(got == bytes.substr((size_t)((char*)p - (char*)arr), n * sizeof(T)), "bytes seen through a blob"); break; }
    }
    PBT_CHECK(!memcmp((void*)arr, bytes.data(), sizeof arr));
}
// arrays of any size
template<class T, size_t N> static void blob_array(Src &s)
{
    std::unique_ptr<T[]> own(new T[N]()); T (&a)[N] = *(T(*)[N])own.get(); T const (&ca)[N] = a; T var = T(); s.note(strf("array of %zu objects of %zu bytes", N, sizeof(T))); s.nontrivial(strf("array %zu %zu", N, sizeof(T)));
    #define BA(b) PBT_CHECKM((void*)(b).buf == (void*)a && (b).len == sizeof(T) * N, "a blob of an array of %zu objects of %zu bytes has %zu", N, sizeof(T), (size_t)(b).len)
    blob b(a); BA(b); cblob c(a); BA(c); cblob d(ca); BA(d); blob e(var); e = a; BA(e); cblob f(var); f = a; BA(f); cblob g(var); g = ca; BA(g); cblob h(var); h = e; BA(h);
}
PBT_TEST(blob_arrays, 1) { switch(s.draw(9)) { case 0: blob_array<char, 1>(s); break; case 1: blob_array<int, 2>(s); break; case 2: blob_array<short, 17>(s); break; case 3: blob_array<char, 64>(s); break; case 4: blob_array<uint64_t, 32>(s); break; case 5: blob_array<char, 256>(s); break; case 6: blob_array<POD, 300>(s); break; case 7: blob_array<Big, 9>(s); break; default: blob_array<char, 70000>(s); } }
PBT_TEST(blobs, 3) { switch(s.draw(6)) { case 0: blob_go<char>(s); break; case 1: blob_go<int>(s); break; case 2: blob_go<uint64_t>(s); break; case 3: blob_go<POD>(s); break; case 4: blob_go<Big>(s); break; default: blob_go<short>(s); } }
