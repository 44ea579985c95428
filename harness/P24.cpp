// P24: bulk construction, copy, move, assignment, destruction and room-making against the single-object operations
#include "pbt.hpp"
#include <c4/ctor_dtor.hpp>
#include <set>
#include <memory>
using namespace c4; using namespace pbt;
static std::set<void const*> *live; static size_t n_cc, n_mc, n_ca, n_ma, n_dc, n_vc;
static void reset() { delete live; live = new std::set<void const*>(); n_cc = n_mc = n_ca = n_ma = n_dc = n_vc = 0; }
/** non-trivial everything; knows its own address; registers itself */
struct Tracked
{
    Tracked const* self; int v;
    void born() { self = this; if(!live->insert(this).second) fail("an object was constructed over a live one"); }
    bool ok() const { return self == this && live->count(this); }
    void need(const char *w) const { if(!ok()) fail(strf("%s an object that is not alive", w)); }
    Tracked() : v(42) { born(); ++n_dc; }
    Tracked(int x) : v(x) { born(); ++n_vc; }
    Tracked(int x, int y) : v(x * 1000 + y) { born(); ++n_vc; }
    Tracked(Tracked const& o) { o.need("copying from"); v = o.v; born(); ++n_cc; }
    Tracked(Tracked && o) { o.need("moving from"); v = o.v; o.v = -1; born(); ++n_mc; }
    Tracked& operator= (Tracked const& o) { need("assigning to"); o.need("assigning from"); v = o.v; ++n_ca; return *this; }
    Tracked& operator= (Tracked && o) { need("assigning to"); o.need("assigning from"); v = o.v; if(&o != this) o.v = -1; ++n_ma; return *this; }
    ~Tracked() { need("destroying"); live->erase(this); self = nullptr; }
};
/** trivial copy construction, but assignment with meaning */
struct MixA { int v, id; MixA() = default; MixA(int x) : v(x), id(0) {} MixA(MixA const&) = default; MixA(MixA &&) = default; MixA& operator= (MixA const& o) { v = o.v; id = 77; return *this; } MixA& operator= (MixA && o) { v = o.v; id = 78; return *this; } };
/** copy construction with meaning, but trivial assignment */
struct MixB { int v, id; MixB() = default; MixB(int x) : v(x), id(0) {} MixB(MixB const& o) : v(o.v), id(55) {} MixB(MixB && o) : v(o.v), id(56) {} MixB& operator= (MixB const&) = default; MixB& operator= (MixB &&) = default; };
struct Pod { int v; char c[5]; };
struct Init { int v; Init() : v(7) {} Init(int x) : v(x) {} };
template<size_t N> static void array_of(Src &s)
{
    std::unique_ptr<Tracked[]> a(new Tracked[N]), b(new Tracked[N]); for(size_t i = 0; i < N; ++i) { a[i].v = (int)i + 1; b[i].v = -9; } Tracked (&src)[N] = *(Tracked(*)[N])a.get(); Tracked (&dst)[N] = *(Tracked(*)[N])b.get();
    if(s.coin()) copy_assign(dst, src); else { for(size_t i = 0; i < N; ++i) dst[i].~Tracked(); copy_construct(dst, src); } for(size_t i = 0; i < N; ++i) PBT_CHECKM(dst[i].v == (int)i + 1 && src[i].v == (int)i + 1, "element %zu of a copied array of %zu", i, N);
}
template<class T> struct Mem { char *base; T *p; size_t n; Mem(size_t nn) : n(nn) { base = (char*)malloc((n + 2) * sizeof(T) + 16); memset(base, 0x3c, (n + 2) * sizeof(T) + 16); p = (T*)(((uintptr_t)base + sizeof(T) + 15) / 16 * 16); } ~Mem() { free(base); }
    /** slots outside [a,b) must be untouched */
    void guard(size_t a, size_t b, const char *w) { for(size_t i = 0; i < n; ++i) if(i < a || i >= b) for(size_t k = 0; k < sizeof(T); ++k) PBT_CHECKM(((unsigned char*)(p + i))[k] == 0x3c, "%s touched object %zu, outside [%zu,%zu)", w, i, a, b); for(char *c = base; c < (char*)p; ++c) PBT_CHECKM(*c == 0x3c, "%s wrote before the buffer", w); } };
template<class I> static I ix(size_t n) { return (I)n; }
template<class I> void tracked_ops(Src &s)
{
    reset(); size_t N = s.chance(1, 40) ? std::min<size_t>(s.edge_size(300), sizeof(I) == 1 ? 255 : 300) : s.range(1, 14), a = s.range(0, N), n = s.range(0, N - a); int x = (int)s.draw(100); size_t op = s.draw(17); s.nontrivial(strf("%zu %zu %zu %zu %d", op, N, a, n, x)); s.note(strf("Tracked op %zu on %zu objects at %zu of %zu", op, n, a, N)); Mem<Tracked> m(N), src(N + 1); Tracked *d = m.p + a; for(size_t i = 0; i < N; ++i) new ((void*)(src.p + i)) Tracked((int)(100 + i)); n_cc = n_mc = n_ca = n_ma = n_dc = n_vc = 0;
    #define EACH(e) for(size_t i = 0; i < n; ++i) PBT_CHECKM(d[i].ok() && d[i].v == (e), "op %zu: object %zu of %zu has value %d, expected %d", op, i, n, d[i].v, (int)(e))
    #define SRC(e) for(size_t i = 0; i < N; ++i) PBT_CHECKM(src.p[i].ok() && src.p[i].v == (i < n ? (e) : (int)(100 + i)), "op %zu: source object %zu changed to %d", op, i, src.p[i].v)
    size_t before = live->size(); bool constructs = op < 8;
    if(!constructs && op < 15) for(size_t i = 0; i < n; ++i) new ((void*)(d + i)) Tracked((int)(-50 - (int)i)); n_vc = n_dc = 0;
    switch(op) {
    case 0: construct_n(d, ix<I>(n)); EACH(42); PBT_CHECK(n_dc == n); break;
    case 1: construct_n(d, ix<I>(n), x); EACH(x); break;
    case 2: construct_n(d, ix<I>(n), x, 5); EACH(x * 1000 + 5); break;
    case 3: { Tracked t(x); construct_n(d, ix<I>(n), t); EACH(x); PBT_CHECK(t.v == x); break; }
    case 4: copy_construct_n(d, (Tracked const*)src.p, ix<I>(n)); EACH((int)(100 + i)); SRC((int)(100 + i)); PBT_CHECK(n_cc == n); break;
    case 5: { Tracked t(x); copy_construct_n(d, t, ix<I>(n)); EACH(x); PBT_CHECK(n_cc == n && t.v == x); break; }
    case 6: move_construct_n(d, src.p, ix<I>(n)); EACH((int)(100 + i)); SRC(-1); PBT_CHECK(n_mc == n && n_cc == 0); break;
    case 7: { if(n == 0) break; size_t k = s.draw(3); n = 1; if(k == 0) { construct(d, x); EACH(x); } else if(k == 1) { copy_construct(d, (Tracked const*)src.p); EACH(100); SRC(100); } else { move_construct(d, src.p); EACH(100); SRC(-1); } break; }
    case 8: copy_assign_n(d, (Tracked const*)src.p, ix<I>(n)); EACH((int)(100 + i)); SRC((int)(100 + i)); PBT_CHECK(n_ca == n && n_cc == 0); break;
    case 9: { Tracked t(x); copy_assign_n(d, t, ix<I>(n)); EACH(x); PBT_CHECK(n_ca == n); break; }
    case 10: move_assign_n(d, src.p, ix<I>(n)); EACH((int)(100 + i)); SRC(-1); PBT_CHECK(n_ma == n && n_ca == 0); break;
    case 11: { if(!n) break; size_t k = s.draw(3); size_t nn = n; n = 1; if(k == 0) { copy_assign(d, (Tracked const*)src.p); EACH(100); SRC(100); } else if(k == 1) { Tracked t(x); copy_assign(d, t); EACH(x); } else { move_assign(d, src.p); EACH(100); SRC(-1); } n = nn; break; }
    case 12: { destroy_n(d, ix<I>(n)); PBT_CHECKM(live->size() == before, "destroy_n of %zu left objects alive", n); for(size_t i = 0; i < n; ++i) new ((void*)(d + i)) Tracked(1); break; }
    case 13: { if(!n) break; destroy(d); PBT_CHECKM(live->size() == before + n - 1 && !live->count(d), "destroy() of one object"); new ((void*)d) Tracked(1); break; }
    case 14: { size_t r = n; destroy_room(d, ix<I>(n), ix<I>(r)); PBT_CHECKM(live->size() == before, "destroying all the room left objects alive"); for(size_t i = 0; i < n; ++i) new ((void*)(d + i)) Tracked(1); break; }
    case 15: { switch(s.draw(4)) { case 0: array_of<1>(s); break; case 1: array_of<17>(s); break; case 2: array_of<70>(s); break; default: array_of<300>(s); break; } n = 0; break; }
    default: { Tracked arr[4] = {1, 2, 3, 4}, out[4] = {9, 9, 9, 9}; if(s.coin()) { copy_assign(out, arr); } else { destroy_n(out, ix<I>(4)); copy_construct(out, arr); } for(int i = 0; i < 4; ++i) PBT_CHECK(out[i].v == i + 1 && arr[i].v == i + 1); n = 0; break; }
    }
    PBT_CHECKM(live->size() == before + n, "op %zu: %zu objects alive, expected %zu", op, live->size(), before + n); for(size_t i = 0; i < N; ++i) if(i < a || i >= a + n) PBT_CHECKM(!live->count(m.p + i), "op %zu constructed object %zu outside the range", op, i);
    m.guard(a, a + n, "a bulk operation"); for(size_t i = 0; i < n; ++i) d[i].~Tracked(); for(size_t i = 0; i < N; ++i) src.p[i].~Tracked(); PBT_CHECK(live->empty()); src.guard(0, N, "a bulk operation (source)");
}
PBT_TEST(lifetimes, 4) { switch(s.draw(3)) { case 0: tracked_ops<size_t>(s); break; case 1: tracked_ops<int>(s); break; default: tracked_ops<uint8_t>(s); break; } }
template<class T> struct mk { static T make(int v) { return T(v); } }; template<> struct mk<Pod> { static Pod make(int v) { Pod p; p.v = v; memset(p.c, v, 5); return p; } };
template<class T> bool eq(T const& a, T const& b) { return memcmp(&a, &b, sizeof(T)) == 0; } template<> bool eq<Pod>(Pod const& a, Pod const& b) { return a.v == b.v && !memcmp(a.c, b.c, 5); }
template<class T, class I> void against_single(Src &s, bool defctor)
{   // each of the n objects is what the single-object expression gives; nothing else changes
    size_t N = s.chance(1, 40) ? std::min<size_t>(s.edge_size(1100), sizeof(I) == 1 ? 255 : 1100) : s.range(1, 40), a = s.range(0, N), n = s.range(0, N - a); int x = (int)s.draw(100); size_t op = s.draw(9); s.nontrivial(strf("%zu %zu %zu %zu %d %zu", op, N, a, n, x, sizeof(T))); s.note(strf("op %zu on %zu objects at %zu of %zu", op, n, a, N)); Mem<T> m(N), src(N); T *d = m.p + a; std::vector<T> sv, ov; std::unique_ptr<T[]> e(new T[n + 1]); T one = mk<T>::make(x);
    for(size_t i = 0; i < N; ++i) new ((void*)(src.p + i)) T(mk<T>::make((int)(i * 3 + 1)));
    #define GIVE(expr) for(size_t i = 0; i < n; ++i) { T *q = &e[i]; q->~T(); expr; PBT_CHECKM(eq(d[i], *q), "op %zu: object %zu of %zu differs from the single-object operation", op, i, n); }
    switch(op) {
    case 0: { if(!defctor) break; construct_n(d, (I)n); GIVE(memset((void*)q, 0, sizeof(T)); new ((void*)q) T()); break; }
    case 1: construct_n(d, (I)n, one); GIVE(new ((void*)q) T(one)); break;
    case 2: copy_construct_n(d, (T const*)src.p, (I)n); GIVE(new ((void*)q) T((T const&)src.p[i])); break;
    case 3: copy_construct_n(d, one, (I)n); GIVE(new ((void*)q) T((T const&)one)); break;
    case 4: move_construct_n(d, src.p, (I)n); GIVE(new ((void*)q) T(std::move(src.p[i]))); break;
    case 5: for(size_t i = 0; i < n; ++i) new ((void*)(d + i)) T(mk<T>::make(5)); copy_assign_n(d, (T const*)src.p, (I)n); GIVE(new ((void*)q) T(mk<T>::make(5)); *q = (T const&)src.p[i]); break;
    case 6: for(size_t i = 0; i < n; ++i) new ((void*)(d + i)) T(mk<T>::make(5)); copy_assign_n(d, one, (I)n); GIVE(new ((void*)q) T(mk<T>::make(5)); *q = (T const&)one); break;
    case 7: for(size_t i = 0; i < n; ++i) new ((void*)(d + i)) T(mk<T>::make(5)); move_assign_n(d, src.p, (I)n); GIVE(new ((void*)q) T(mk<T>::make(5)); *q = std::move(src.p[i])); break;
    default: { if(!n) break; for(size_t i = 0; i < n; ++i) new ((void*)(d + i)) T(mk<T>::make(5)); n = 1; switch(s.draw(7)) { case 0: construct(d, one); GIVE(new ((void*)q) T(one)); break; case 1: copy_construct(d, (T const*)src.p); GIVE(new ((void*)q) T((T const&)src.p[i])); break; case 2: copy_construct(d, one); GIVE(new ((void*)q) T((T const&)one)); break; case 3: copy_assign(d, (T const*)src.p); GIVE(new ((void*)q) T(mk<T>::make(5)); *q = (T const&)src.p[i]); break; case 4: copy_assign(d, one); GIVE(new ((void*)q) T(mk<T>::make(5)); *q = (T const&)one); break; case 5: move_assign(d, src.p); GIVE(new ((void*)q) T(mk<T>::make(5)); *q = std::move(src.p[i])); break; default: if(defctor) { construct(d); GIVE(memset((void*)q, 0, sizeof(T)); new ((void*)q) T()); } break; } return; }
    }
    if(op == 0 && !defctor) n = 0; m.guard(a, a + n, "a bulk operation"); src.guard(0, N, "a bulk operation (source)");
}
PBT_TEST(values, 4) { switch(s.draw(7)) { case 0: against_single<char, size_t>(s, true); break; case 1: against_single<uint64_t, int>(s, true); break; case 2: against_single<Pod, uint8_t>(s, true); break; case 3: against_single<MixA, size_t>(s, false); break; case 4: against_single<MixB, int>(s, false); break; case 5: against_single<Init, size_t>(s, true); break; default: against_single<float, unsigned>(s, true); break; } }
/** value types for the room operations: V knows its address, so that a bitwise move is seen */
struct V { V *self; int v; V(int x = 0) : self(this), v(x) {} V(V const& o) : self(this), v(o.v) { chk(o); } V(V && o) : self(this), v(o.v) { chk(o); o.v = -1; } V& operator= (V const& o) { chk(*this); chk(o); v = o.v; return *this; } V& operator= (V && o) { chk(*this); chk(o); v = o.v; o.v = -1; return *this; } static void chk(V const& o) { if(o.self != &o) fail("a non-trivial object was moved bitwise"); } };
static int val(V const& x) { V::chk(x); return x.v; } static int val(Pod const& x) { return x.v; } template<class T> int val(T const& x) { return (int)x; }
template<class T> struct mkv { static T make(int v) { return (T)v; } }; template<> struct mkv<Pod> { static Pod make(int v) { return mk<Pod>::make(v); } };
static void expect(std::vector<int> const& want, std::vector<int> const& got, std::string const& w) { for(size_t i = 0; i < want.size(); ++i) PBT_CHECKM(want[i] == -99 || want[i] == got[i], "%s: element %zu is %d, expected %d", w.c_str(), i, got[i], want[i]); }
template<class T, class I, bool Copyable> struct Rooms { static void go(Src &s, size_t op, size_t pre, size_t n, size_t pos, size_t room, size_t post)
{
    std::string w = strf("op %zu, %zu elements, pos %zu, room %zu", op, n, pos, room); s.note(w);
    if(op < 2) { // in place, making room: elements pre.. of a larger buffer, followed by raw slots
        size_t tot = pre + n + room + post; Mem<T> m(tot); for(size_t i = 0; i < tot; ++i) new ((void*)(m.p + i)) T(mkv<T>::make((int)(i % 120) + 1)); std::vector<int> want; for(size_t i = 0; i < tot; ++i) want.push_back(val(m.p[i]));
        if(op == 0) { make_room(m.p + pre, (I)n, (I)room); for(size_t i = 0; i < n; ++i) want[pre + room + i] = (int)((pre + i) % 120) + 1; for(size_t i = 0; i < room; ++i) want[pre + i] = -99; }
        else { make_room(m.p + pre, (I)(n + room), (I)n, (I)pos, (I)room); for(size_t i = pos; i < n; ++i) want[pre + room + i] = (int)((pre + i) % 120) + 1; for(size_t i = 0; i < room; ++i) want[pre + pos + i] = -99; }
        std::vector<int> got; for(size_t i = 0; i < tot; ++i) got.push_back(want[i] == -99 ? 0 : val(m.p[i])); expect(want, got, "make_room in place: " + w); m.guard(0, tot, w.c_str());
    } else if(op == 2) { // in place, destroying room
        if(room > n) room = n; size_t tot = pre + n + post; Mem<T> m(tot); for(size_t i = 0; i < tot; ++i) new ((void*)(m.p + i)) T(mkv<T>::make((int)(i % 120) + 1)); std::vector<int> want; for(size_t i = 0; i < tot; ++i) want.push_back((int)(i % 120) + 1);
        destroy_room(m.p + pre, (I)n, (I)room); for(size_t i = 0; i + room < n; ++i) want[pre + i] = (int)((pre + i + room) % 120) + 1; for(size_t i = n - room; i < n; ++i) want[pre + i] = -99;
        std::vector<int> got; for(size_t i = 0; i < tot; ++i) got.push_back(want[i] == -99 ? 0 : val(m.p[i])); expect(want, got, "destroy_room in place: " + w); m.guard(0, tot, w.c_str());
    } else Rooms<T, I, Copyable>::other(s, op, pre, n, pos, room, post, w); }
static void other(Src &, size_t op, size_t pre, size_t n, size_t pos, size_t room, size_t post, std::string const& w)
{   // into another buffer
    Mem<T> src(n ? n : 1); for(size_t i = 0; i < n; ++i) new ((void*)(src.p + i)) T(mkv<T>::make((int)(i % 120) + 1)); bool mkroom = op < 5; if(!mkroom) { if(n == 0) return; if(pos >= n) pos = n - 1; if(room > n - pos) room = n - pos; } else if(pos >= n) pos = n ? n - 1 : 0; size_t outn = mkroom ? n + room : n - room, tot = pre + outn + post; Mem<T> m(tot ? tot : 1);
    if(op == 3) make_room(m.p + pre, (T const*)src.p, (I)n, (I)room, (I)pos); else if(op == 4) { if(outn == 0 && pos) return; make_room(m.p + pre, (I)outn, (T const*)src.p, (I)n, (I)room, (I)pos); } else destroy_room(m.p + pre, (T const*)src.p, (I)n, (I)room, (I)pos);
    for(size_t i = 0; i < n; ++i) PBT_CHECKM(val(src.p[i]) == (int)(i % 120) + 1, "%s: the source changed", w.c_str());
    for(size_t i = 0; i < outn; ++i) { bool hole = mkroom && i >= pos && i < pos + room; if(hole) { for(size_t k = 0; k < sizeof(T); ++k) PBT_CHECKM(((unsigned char*)(m.p + pre + i))[k] == 0x3c, "%s: the room was written", w.c_str()); continue; } size_t from = i < pos ? i : mkroom ? i - room : i + room; PBT_CHECKM(val(m.p[pre + i]) == (int)(from % 120) + 1, "%s (%s into another buffer): element %zu is %d, expected %d", w.c_str(), mkroom ? "make_room" : "destroy_room", i, val(m.p[pre + i]), (int)(from % 120) + 1); }
    m.guard(pre, pre + outn, w.c_str());
} };
template<class T, class I> void rooms(Src &s, size_t maxn)
{
    if(s.chance(1, 30)) maxn = s.edge_size(600); size_t n = s.range(0, maxn), room = s.coin() ? s.range(0, 6) : s.range(0, maxn), pos = s.range(0, n), pre = s.range(0, 3), post = s.range(0, 3), op = s.draw(6); s.nontrivial(strf("%zu %zu %zu %zu %zu %zu", sizeof(T), n, room, pos, op, pre)); Rooms<T, I, true>::go(s, op, pre, n, pos, room, post);
}
PBT_TEST(making_and_destroying_room, 4) { switch(s.draw(5)) { case 0: rooms<char, size_t>(s, 40); break; case 1: rooms<uint64_t, int>(s, 12); break; case 2: rooms<Pod, size_t>(s, 12); break; case 3: rooms<V, unsigned>(s, 12); break; default: rooms<V, size_t>(s, 40); break; } }
PBT_ENUM(small_rooms, 6 * 6 * 6 * 6)
{   // every (operation, n<6, room<6, pos<=n) for a trivial and a non-trivial type
    size_t k = s.draw(6 * 6 * 6 * 6), op = k % 6, n = k / 6 % 6, room = k / 36 % 6, pos = k / 216; if(pos > n) return; s.nontrivial(k); Rooms<char, size_t, true>::go(s, op, 1, n, pos, room, 2); Rooms<V, size_t, true>::go(s, op, 1, n, pos, room, 2); Rooms<Pod, int, true>::go(s, op, 0, n, pos, room, 1);
}
