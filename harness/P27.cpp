// P27: histories of in-place function objects against a value-semantics model
#include "pbt.hpp"
#include <new>
#include <map>
#include <memory>
#include <c4/ext/sg14/inplace_function.h>
using namespace pbt; using stdext::inplace_function;
static std::map<void const*, int> *live; static long copies_left; static size_t n_copies, n_moves;
struct Boom {};
/** a callable of N bytes with a call counter; registers itself */
template<size_t N, int Kind> struct Callee
{
    short id, calls; char pad[N - 4];
    void born() { if(!live->insert(std::make_pair((void const*)this, (int)id)).second) fail("a callable was constructed over a live one"); }
    void need(const char *w) const { if(!live->count(this)) fail(strf("%s a callable that is not alive", w)); }
    explicit Callee(short i) : id(i), calls(0) { for(size_t k = 0; k < sizeof pad; ++k) pad[k] = (char)(i + k); born(); }
    Callee(Callee const& o) { o.need("copying"); if(copies_left >= 0 && copies_left-- == 0) throw Boom(); id = o.id; calls = o.calls; memcpy(pad, o.pad, sizeof pad); ++n_copies; born(); }
    Callee(Callee && o) noexcept { o.need("moving from"); id = o.id; calls = o.calls; memcpy(pad, o.pad, sizeof pad); o.id = -1; o.calls = 9999; ++n_moves; born(); }
    ~Callee() { need("destroying"); live->erase(this); }
    int operator() (int x) { need("calling"); for(size_t k = 0; k < sizeof pad; ++k) if(pad[k] != (char)(id + k)) return -777; ++calls; return Kind * 1000000 + id * 1000 + calls * 100 + x; }
};
typedef Callee<8, 1> C8; typedef Callee<16, 2> C16; typedef Callee<32, 3> C32; typedef Callee<64, 4> C64;
static int plain(int x) { return 5000000 + x; } static int plain2(int x) { return 6000000 - x; }
struct Model { enum K { empty, unknown, holds } k; int kind, id, calls; };
typedef inplace_function<int(int), 16> F16; typedef inplace_function<int(int)> F32; typedef inplace_function<int(int), 64> F64;
struct World
{
    enum { N = 7 };
    F16 *a[2]; F32 *b[3]; F64 *c[2]; Model m[N];
    World() { a[0] = new F16; a[1] = new F16(nullptr); b[0] = new F32; b[1] = new F32; b[2] = new F32; c[0] = new F64; c[1] = new F64; for(int i = 0; i < N; ++i) m[i].k = Model::empty; }
    ~World() {}
    void destroy() { delete a[0]; delete a[1]; delete b[0]; delete b[1]; delete b[2]; delete c[0]; delete c[1]; }
    static int cls(int i) { return i < 2 ? 0 : i < 5 ? 1 : 2; }
};
#define ON(i, f, ...) do { if((i) < 2) { auto *&f = w.a[i]; __VA_ARGS__; } else if((i) < 5) { auto *&f = w.b[(i) - 2]; __VA_ARGS__; } else { auto *&f = w.c[(i) - 5]; __VA_ARGS__; } } while(0)
static void expect_call(World &w, int i, int x)
{
    Model &m = w.m[i]; int got = 0; bool threw = false;
    try { ON(i, f, got = (*f)(x)); } catch(std::bad_function_call const&) { threw = true; }
    if(m.k == Model::empty) { PBT_CHECKM(threw, "calling empty function %d gave %d", i, got); return; }
    int want = m.kind == 5 ? 5000000 + x : m.kind == 6 ? 6000000 - x : m.kind == 7 ? 7000000 + m.id * 10 + x : m.kind * 1000000 + m.id * 1000 + ++m.calls * 100 + x;
    PBT_CHECKM(!threw, "calling function %d threw", i); PBT_CHECKM(got == want, "calling function %d gave %d, expected %d", i, got, want);
}
static void check_all(World &w, const char *op)
{
    size_t known = 0, unknown = 0;
    for(int i = 0; i < World::N; ++i) {
        Model &m = w.m[i]; if(m.k == Model::unknown) { ++unknown; continue; } if(m.k == Model::holds && m.kind < 5) ++known; bool e = m.k == Model::empty;
        ON(i, f, { auto const& g = *f; PBT_CHECKM((g == nullptr) == e && (g != nullptr) == !e && static_cast<bool>(g) == !e, "after %s, function %d is %s", op, i, e ? "not empty" : "empty"); });
    }
    PBT_CHECKM(live->size() >= known && live->size() <= known + unknown, "after %s, %zu callables are alive, expected %zu (+%zu at most)", op, live->size(), known, unknown);
}
template<class P, class F, class T> static void put(P *&f, F &, T const& t, bool fresh, bool lvalue) { if(fresh) { delete f; f = nullptr; if(lvalue) f = new P(t); else f = new P(T(t)); } else if(lvalue) *f = t; else *f = T(t); }
PBT_TEST(history, 5)
{
    delete live; live = new std::map<void const*, int>(); copies_left = -1; World w; size_t n = s.range(1, 30); std::string log; short next = 1; bool thrower = s.chance(1, 4);
    for(size_t step = 0; step < n; ++step)
    {
        size_t op = s.draw(13); int i = (int)s.draw(World::N), j = (int)s.draw(World::N); int ci = World::cls(i), cj = World::cls(j); std::string nm;
        switch(op)
        {
        case 0: case 1: { // store a callable that fits
            size_t kind = 1 + s.draw(ci == 0 ? 5 : ci == 1 ? 6 : 7); bool fresh = s.coin(), lv = s.coin(); Model m; m.k = Model::holds; m.calls = 0; m.id = next % 97 + 1; ++next; short id = (short)m.id;
            // kinds 1..4 tracked by size, 5,6 plain functions, 7 a lambda
            static const int by0[] = {1, 2, 5, 6, 7}, by1[] = {1, 2, 3, 5, 6, 7}, by2[] = {1, 2, 3, 4, 5, 6, 7}; m.kind = ci == 0 ? by0[kind - 1] : ci == 1 ? by1[kind - 1] : by2[kind - 1]; nm = strf("store kind %d in %d%s%s", m.kind, i, fresh ? " by construction" : "", lv ? " (copied)" : ""); s.note(nm);
            if(m.kind == 1) { C8 t(id); ON(i, f, put(f, *f, t, fresh, lv)); } else if(m.kind == 2) { C16 t(id); ON(i, f, put(f, *f, t, fresh, lv)); }
            else if(m.kind == 3) { C32 t(id); if(ci == 1) put(w.b[i - 2], *w.b[i - 2], t, fresh, lv); else put(w.c[i - 5], *w.c[i - 5], t, fresh, lv); } else if(m.kind == 4) { C64 t(id); put(w.c[i - 5], *w.c[i - 5], t, fresh, lv); }
            else if(m.kind == 5) ON(i, f, { typedef typename std::remove_reference<decltype(*f)>::type P; if(fresh) { delete f; f = new P(plain); } else *f = plain; }); else if(m.kind == 6) ON(i, f, { typedef typename std::remove_reference<decltype(*f)>::type P; if(fresh) { delete f; f = new P(&plain2); } else *f = &plain2; });
            else { int q = m.id; auto l = [q](int x) { return 7000000 + q * 10 + x; }; ON(i, f, put(f, *f, l, fresh, lv)); }
            w.m[i] = m; break; }
        case 2: nm = strf("clear %d", i); s.note(nm); ON(i, f, *f = nullptr); w.m[i].k = Model::empty; break;
        case 3: case 4: { // copy between objects of the same or growing capacity
            if(cj > ci || w.m[j].k == Model::unknown) { if(w.m[i].k != Model::unknown) expect_call(w, i, 3); break; } bool fresh = s.coin() && i != j; nm = strf("copy %d to %d%s", j, i, fresh ? " by construction" : ""); s.note(nm); bool threw = false; if(thrower && s.coin()) copies_left = 0;
            try { ON(i, f, { typedef typename std::remove_reference<decltype(*f)>::type P; ON(j, g, { if constexpr(P::capacity::value >= std::remove_reference<decltype(*g)>::type::capacity::value) { auto const& cg = *g; if(fresh) { P *o = new P(cg); delete f; f = o; } else *f = cg; } }); }); } catch(Boom) { threw = true; }
            copies_left = -1; if(threw) { if(!fresh) w.m[i].k = Model::unknown; s.label("copy threw"); } else if(i != j) w.m[i] = w.m[j]; break; }
        case 5: case 6: { // move
            if(cj > ci || w.m[j].k == Model::unknown) break; bool fresh = s.coin() && i != j; nm = strf("move %d to %d%s", j, i, fresh ? " by construction" : ""); s.note(nm); size_t nc = n_copies;
            ON(i, f, { typedef typename std::remove_reference<decltype(*f)>::type P; ON(j, g, { if constexpr(P::capacity::value >= std::remove_reference<decltype(*g)>::type::capacity::value) { if(fresh) { P *o = new P(std::move(*g)); delete f; f = o; } else *f = std::move(*g); } }); });
            PBT_CHECKM(n_copies == nc, "moving function %d copied its callable", j); if(i != j) { w.m[i] = w.m[j]; if(w.m[j].k == Model::holds) w.m[j].k = Model::unknown; } break; }
        case 7: case 8: { // swap
            if(ci != cj || w.m[i].k == Model::unknown || w.m[j].k == Model::unknown) break; nm = strf("swap %d and %d", i, j); s.note(nm); if(ci == 0) w.a[i]->swap(*w.a[j]); else if(ci == 1) w.b[i - 2]->swap(*w.b[j - 2]); else w.c[i - 5]->swap(*w.c[j - 5]); std::swap(w.m[i], w.m[j]); break; }
        case 9: nm = strf("recreate %d empty", i); s.note(nm); ON(i, f, { typedef typename std::remove_reference<decltype(*f)>::type P; delete f; f = s.coin() ? new P() : new P(nullptr); }); w.m[i].k = Model::empty; break;
        default: if(w.m[i].k == Model::unknown) break; nm = strf("call %d", i); s.note(nm); expect_call(w, i, (int)s.draw(90)); break;
        }
        if(!nm.empty()) { log += nm + ";"; check_all(w, nm.c_str()); }
    }
    for(int i = 0; i < World::N; ++i) if(w.m[i].k != Model::unknown) expect_call(w, i, 7);
    w.destroy(); PBT_CHECKM(live->empty(), "%zu callables are still alive when all functions are destroyed", live->size()); if(log.size()) s.nontrivial(log);
}
// arguments and results are forwarded
struct Acc { std::string pre; std::string operator() (std::string const& a, int k, std::string &&b) { std::string r = pre + a; for(int i = 0; i < k; ++i) r += b; b = "taken"; return r; } };
struct MoveArg { int *sum; long operator() (std::unique_ptr<int> p) const { *sum += *p; return *p * 2; } };
struct RefRes { int *v; int& operator() (int &x) { x += 1; return *v; } };
PBT_TEST(forwarding, 1)
{
    std::string p = s.str(8, "pq"), a = s.str(8, "ab"), b = s.str(5, "xy"); int k = (int)s.draw(5); s.nontrivial(p + "|" + a + "|" + b + strf("|%d", k)); s.note("prefix " + p + ", a " + a + ", b " + b);
    inplace_function<std::string(std::string const&, int, std::string&&), 64> f(Acc{p}), g; g = f; std::string b2 = b, want = p + a; for(int i = 0; i < k; ++i) want += b; std::string got = g(a, k, std::move(b2)); PBT_CHECKM(got == want && b2 == "taken", "forwarded call gave %s, expected %s", got.c_str(), want.c_str());
    int sum = 10, cell = k; inplace_function<long(std::unique_ptr<int>), 16> mv(MoveArg{&sum}); PBT_CHECK(mv(std::unique_ptr<int>(new int(k))) == 2 * k && sum == 10 + k);
    inplace_function<int&(int&)> rf(RefRes{&cell}); int x = 5; int &r = rf(x); PBT_CHECK(&r == &cell && x == 6); int hits = 0; inplace_function<void(int)> vf([&hits](int q) { hits += q; }); vf(k); vf(2); PBT_CHECK(hits == k + 2); inplace_function<void()> e; bool threw = false; try { e(); } catch(std::bad_function_call const&) { threw = true; } PBT_CHECK(threw);
    auto ex = [](int q) -> int { if(q > 2) throw q; return q; }; inplace_function<int(int)> tf(ex); int c = -1; try { PBT_CHECK(tf(k) == k); } catch(int q) { c = q; } PBT_CHECK(c == (k > 2 ? k : -1));
}
// storage is aligned for what it holds, and the right overload decides whether a call may throw
template<size_t A> struct alignas(A) Al { char c[A]; bool operator() () const { return (uintptr_t)this % A == 0; } };
struct TwoWays { int operator() (std::string &) const noexcept { return 1; } int operator() (std::string &&q) const { if(q.size() > 2) throw Boom(); return 2; } };
PBT_TEST(storage_and_exceptions, 1)
{
    size_t off = s.draw(4); s.nontrivial(off); struct H { char pad[5]; inplace_function<bool(), 16> a; inplace_function<bool(), 64, 64> b; inplace_function<bool()> c; }; std::vector<H> v(1 + off); for(size_t i = 0; i < v.size(); ++i) { v[i].a = Al<8>(); v[i].b = Al<64>(); v[i].c = Al<16>(); } std::vector<H> u = v; for(size_t i = 0; i < v.size(); ++i) PBT_CHECKM(v[i].a() && v[i].b() && v[i].c() && u[i].a() && u[i].b() && u[i].c(), "a callable is stored misaligned");
    inplace_function<int(std::string), 16> f{TwoWays()}; std::string t(s.draw(6), 'x'); s.note(t); int r = 0; try { r = f(t); } catch(Boom) { r = -1; } PBT_CHECKM(r == (t.size() > 2 ? -1 : 2), "call by value gave %d", r);
}
