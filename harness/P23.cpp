// P23: allocators, as raw clients and as the allocators of standard containers
#include "pbt.hpp"
#include <c4/allocator.hpp>
#include <map>
#include <list>
#include <deque>
using namespace c4; using namespace pbt;
struct Upstream : public MemoryResource
{
    std::map<void*, std::pair<size_t, size_t>> live; size_t bad = 0, nalloc = 0, last_sz = 0, last_al = 0;
    ~Upstream() { for(auto &x : live) free(x.first); }
    void* do_allocate(size_t sz, size_t al, void*) override { if(sz > ((size_t)1 << 30)) return nullptr; void *p = nullptr; last_sz = sz; last_al = al; if(posix_memalign(&p, std::max(al, sizeof(void*)), sz ? sz : 1)) return nullptr; live[p] = std::make_pair(sz, al); ++nalloc; return p; }
    void do_deallocate(void *p, size_t sz, size_t al) override { auto it = live.find(p); if(it == live.end() || it->second.first != sz || it->second.second != al) { ++bad; return; } live.erase(it); free(p); }
    void* do_reallocate(void *p, size_t o, size_t n, size_t al) override { auto it = live.find(p); if(it == live.end() || it->second.first != o) { ++bad; return nullptr; } void *q = do_allocate(n, al, nullptr); if(!q) return nullptr; memcpy(q, p, std::min(o, n)); do_deallocate(p, o, it->second.second); return q; }
};
struct S24 { double a, b; char c; }; struct alignas(64) A64 { char c[64]; }; struct B3 { char c[3]; };
template<class T> struct Blk { T *p; size_t n, al; unsigned char pat; };
template<class T> void fill(Blk<T> &b) { for(size_t i = 0; i < b.n * sizeof(T); ++i) ((unsigned char*)b.p)[i] = (unsigned char)(b.pat + i * 5); }
template<class T> void verify(std::vector<Blk<T>> const& bs, const char *w)
{
    for(size_t k = 0; k < bs.size(); ++k) {
        Blk<T> const& b = bs[k]; char *p = (char*)b.p, *e = p + b.n * sizeof(T); PBT_CHECKM(p != nullptr, "%s: null", w); if(b.n) PBT_CHECKM(((uintptr_t)p & (b.al - 1)) == 0, "%s: block %zu (%zu objects) is not aligned to %zu", w, k, b.n, b.al);
        for(size_t j = 0; j < k; ++j) { char *q = (char*)bs[j].p, *f = q + bs[j].n * sizeof(T); PBT_CHECKM(e <= q || f <= p || p == e || q == f, "%s: blocks %zu and %zu overlap", w, j, k); }
        for(size_t i = 0; i < b.n * sizeof(T); ++i) PBT_CHECKM(((unsigned char*)p)[i] == (unsigned char)(b.pat + i * 5), "%s: byte %zu of block %zu (%zu objects) changed", w, i, k, b.n);
    }
}
/** copies of a small-buffer allocator, made at any point of its history: each has the resource of the original and an unused buffer of its own, and the blocks of either are not affected by the other */
template<class A, class T> std::string copies(Src &s, A &a, Upstream &up, size_t N)
{
    size_t k = s.draw(4), n = s.range(1, N), before = up.nalloc; const char *what[] = {"copied", "moved from a copy", "selected for a container copy", "assigned to, and from, another"}; std::string w = strf("allocator %s; the copy allocates %zu", what[k], n); s.note(w); s.nontrivial(k * 64 + n);
    auto use = [&](A &c, const char *which) {
        PBT_CHECKM(c.resource() == a.resource(), "%s: %s uses another resource", w.c_str(), which); T *p = c.allocate(n); PBT_CHECKM((const char*)p >= (const char*)&c && (const char*)(p + n) <= (const char*)&c + sizeof(A), "%s: %s: not served from its unused small buffer", w.c_str(), which);
        Blk<T> b{p, n, alignof(T), 77}; fill(b); std::vector<Blk<T>> one(1, b); verify(one, w.c_str()); c.deallocate(p, n); };
    if(k == 0) { A c(a); use(c, "the copy"); A d(c); use(d, "the copy of the copy"); use(c, "the copy"); }
    else if(k == 1) { A c(a); A d(std::move(c)); use(d, "the allocator moved to"); }
    else if(k == 2) { A c(a.select_on_container_copy_construct()); use(c, "the selected allocator"); }
    else { A c(a); T *p = c.allocate(n); Blk<T> b{p, n, alignof(T), 99}; fill(b); std::vector<Blk<T>> one(1, b); bool back = s.coin(); if(back) { if(s.coin()) a = c; else a = std::move(c); } else c = a; verify(one, w.c_str()); c.deallocate(p, n); use(c, "the other"); }
    PBT_CHECKM(up.nalloc == before, "%s: the resource was asked for memory", w.c_str()); return w;
}
/** A: the allocator type. buf/bufn: the small buffer lives in [buf, buf+bufn); N: its capacity in objects */
template<class A, class T> void raw(Src &s, A &a, Upstream &up, size_t N, const char *obj, size_t objn)
{
    std::vector<Blk<T>> bs; unsigned char pat = 3; size_t steps = s.chance(1, 200) ? s.range(1, 300) : s.range(1, 24), heap = 0; (void)heap;
    for(size_t st = 0; st < steps; ++st) {
        size_t op = s.draw(10); std::string w; s.nontrivial(op);
        if(op < 4 || bs.empty()) {
            size_t n = s.range(N ? 0 : 1, N ? N + 2 : 20), al = std::max<size_t>(alignof(T), (size_t)1 << (s.coin() ? 0 : s.draw(8))); bool def = s.coin(); w = def ? strf("allocate(%zu)", n) : strf("allocate(%zu,%zu)", n, al); s.note(w); s.nontrivial(n * 256 + al); size_t before = up.nalloc; bool empty = true; for(auto &x : bs) if(x.n && (char*)x.p >= obj && (char*)x.p < obj + objn) empty = false;
            T *p = def ? a.allocate(n) : a.allocate(n, al); if(def) al = alignof(T); bool in = N && (const char*)p >= obj && (const char*)p < obj + objn;
            if(n && !in) { PBT_CHECKM(up.nalloc == before + 1 && up.live.count(p) && up.last_sz == n * sizeof(T) && up.last_al >= al, "%s: asked its resource for %zu bytes aligned to %zu", w.c_str(), up.last_sz, up.last_al); if(!def) PBT_CHECK(up.last_al == al); al = up.last_al; }
            if(in) { PBT_CHECK(up.nalloc == before); if(n) PBT_CHECKM((const char*)(p + n) <= obj + objn, "%s: block extends past the allocator", w.c_str()); }
            if(N && def && n && n <= N && empty) PBT_CHECKM(in, "%s: not served from the empty small buffer", w.c_str());
            Blk<T> b{p, n, al, pat}; pat = (unsigned char)(pat + 31); fill(b); bs.push_back(b);
        } else if(op < 6) {
            size_t k = s.draw(bs.size()); Blk<T> b = bs[k]; size_t n = s.coin() ? s.range(N ? 0 : 1, b.n ? b.n : 1) : b.n + s.range(0, N ? N : 20); if(!N && !n) n = 1; w = strf("reallocate(#%zu,%zu->%zu,%zu)", k, b.n, n, b.al); s.note(w); s.nontrivial(n); T *p = a.reallocate(b.p, b.n, n, b.al);
            for(size_t i = 0; i < std::min(n, b.n) * sizeof(T); ++i) PBT_CHECKM(((unsigned char*)p)[i] == (unsigned char)(b.pat + i * 5), "%s: byte %zu lost", w.c_str(), i); b.p = p; b.n = n; fill(b); bs[k] = b;
        } else if(op < 9) { size_t k = s.coin() ? s.draw(bs.size()) : bs.size() - 1; w = strf("deallocate(#%zu of %zu)", k, bs[k].n); s.note(w); a.deallocate(bs[k].p, bs[k].n, bs[k].al); bs.erase(bs.begin() + (ptrdiff_t)k); }
        else if(sizeof(T) > 1) { size_t n = (size_t)-1 / sizeof(T) + 1 + s.draw(40); w = strf("allocate(%zu)", n); s.note(w); PBT_CHECKM(raises([&]{ a.allocate(n); }), "%s: %zu objects of %zu bytes", w.c_str(), n, sizeof(T)); if(bs.size()) { Blk<T> &b = bs[0]; PBT_CHECKM(raises([&]{ a.reallocate(b.p, b.n, n, b.al); }), "reallocate to %zu objects of %zu bytes", n, sizeof(T)); } }
        if(N && s.chance(1, 6)) w = copies<A, T>(s, a, up, N);
        verify(bs, w.c_str()); PBT_CHECKM(up.bad == 0, "%s: memory returned to its resource with the wrong address, size or alignment", w.c_str()); size_t out = 0; for(auto &x : bs) if(x.n && !(N && (char*)x.p >= obj && (char*)x.p < obj + objn)) { ++out; PBT_CHECK(up.live.count(x.p)); } PBT_CHECKM(up.live.size() == out, "%s: the resource has %zu live blocks, expected %zu", w.c_str(), up.live.size(), out);
    }
    while(bs.size()) { size_t k = s.draw(bs.size()); a.deallocate(bs[k].p, bs[k].n, bs[k].al); bs.erase(bs.begin() + (ptrdiff_t)k); verify(bs, "final deallocation"); } PBT_CHECKM(up.live.empty() && up.bad == 0, "not everything was returned");
}
template<class T> void raw_of(Src &s)
{
    Upstream up;
    if(s.coin()) { s.note("allocator_mr"); allocator_mr<T> a(&up); raw<allocator_mr<T>, T>(s, a, up, 0, nullptr, 0); }
    else { s.note("allocator"); ScopedMemoryResource sc(&up); allocator<T> a; raw<allocator<T>, T>(s, a, up, 0, nullptr, 0); }
}
PBT_TEST(raw_clients, 4) { switch(s.draw(5)) { case 0: raw_of<char>(s); break; case 1: raw_of<int>(s); break; case 2: raw_of<S24>(s); break; case 3: raw_of<A64>(s); break; default: raw_of<B3>(s); break; } }
template<class T, size_t N, size_t Al> void small_of(Src &s)
{
    Upstream up; s.nontrivial(N);
    if(s.coin()) { s.note(strf("small_allocator_mr<%zu bytes,%zu,%zu>", sizeof(T), N, Al)); small_allocator_mr<T, N, Al> a(&up); raw<small_allocator_mr<T, N, Al>, T>(s, a, up, N, (const char*)&a, sizeof(a)); }
    else { s.note(strf("small_allocator<%zu bytes,%zu,%zu>", sizeof(T), N, Al)); ScopedMemoryResource sc(&up); small_allocator<T, N, Al> a; raw<small_allocator<T, N, Al>, T>(s, a, up, N, (const char*)&a, sizeof(a)); }
}
PBT_TEST(small_buffers, 6) { switch(s.draw(6)) { case 0: small_of<char, 16, 1>(s); break; case 1: small_of<int, 8, 4>(s); break; case 2: small_of<int, 16, 32>(s); break; case 3: small_of<S24, 3, 8>(s); break; case 4: small_of<A64, 2, 64>(s); break; default: small_of<B3, 10, 1>(s); break; } }
template<class V> void same_seq(V const& v, std::vector<int> const& m, const char *w) { PBT_CHECKM(v.size() == m.size() && std::equal(v.begin(), v.end(), m.begin()), "%s: container contents differ from the model", w); }
template<class T> struct Mr { typedef allocator_mr<T> type; static type make(MemoryResource *r) { return type(r); } };
template<class T> struct Gl { typedef allocator<T> type; static type make(MemoryResource *) { return type(); } };
template<template<class> class W> void containers(Src &s, Upstream &up, Upstream &up2)
{
    typedef typename W<int>::type AI; typedef typename W<char>::type AC; typedef std::basic_string<char, std::char_traits<char>, AC> Str; typedef typename W<Str>::type AS; typedef typename W<std::pair<const int, Str>>::type AP;
    {
        std::vector<int, AI> v(W<int>::make(&up)), v2(W<int>::make(&up2)); std::deque<int, AI> d(W<int>::make(&up)); std::list<int, AI> l(W<int>::make(&up)); Str str(W<char>::make(&up)); std::vector<Str, AS> vs(W<Str>::make(&up)); std::map<int, Str, std::less<int>, AP> mp(std::less<int>(), W<std::pair<const int, Str>>::make(&up));
        std::vector<int> m, m2; std::deque<int> md; std::list<int> ml; std::string ms; std::vector<std::string> mvs; std::map<int, std::string> mmp; size_t steps = s.chance(1, 200) ? s.range(1, 300) : s.range(1, 24);
        for(size_t st = 0; st < steps; ++st) {
            size_t op = s.draw(16); int x = (int)s.draw(100); s.nontrivial(op * 100 + (size_t)x); std::string t(s.range(0, 40), (char)('a' + x % 26)); Str ct(t.data(), t.size(), W<char>::make(&up)); s.note(strf("op%zu(%d)", op, x));
            switch(op) {
            case 0: v.push_back(x); m.push_back(x); break; case 1: v.insert(v.begin() + (ptrdiff_t)(m.size() / 2), (size_t)x % 7, x); m.insert(m.begin() + (ptrdiff_t)(m.size() / 2), (size_t)x % 7, x); break; case 2: v.resize((size_t)x % 30, x); m.resize((size_t)x % 30, x); break; case 3: v.shrink_to_fit(); break;
            case 4: v2 = v; m2 = m; break; case 5: v = std::move(v2); m = m2; v2.clear(); m2.clear(); break; case 6: d.push_front(x); md.push_front(x); break; case 7: if(md.size()) { d.pop_back(); md.pop_back(); } else { d.resize(40, x); md.resize(40, x); } break;
            case 8: l.push_back(x); ml.push_back(x); break; case 9: l.remove(x % 10); ml.remove(x % 10); break; case 10: str.append(ct.data(), ct.size()); ms += t; break; case 11: str.clear(); str.shrink_to_fit(); ms.clear(); break;
            case 12: vs.push_back(ct); mvs.push_back(t); break; case 13: vs.emplace_back(ct.c_str()); mvs.emplace_back(t.c_str()); break; case 14: if(mvs.size()) { size_t k = s.draw(mvs.size()); vs.erase(vs.begin() + (ptrdiff_t)k); mvs.erase(mvs.begin() + (ptrdiff_t)k); } break; default: mp[x % 8].assign(t.data(), t.size()); mmp[x % 8] = t; if(x % 5 == 0) { mp.erase(x % 7); mmp.erase(x % 7); } break;
            }
            same_seq(v, m, "vector"); same_seq(v2, m2, "vector"); same_seq(d, std::vector<int>(md.begin(), md.end()), "deque"); same_seq(l, std::vector<int>(ml.begin(), ml.end()), "list"); PBT_CHECK(std::string(str.data(), str.size()) == ms); PBT_CHECK(vs.size() == mvs.size());
            for(size_t i = 0; i < mvs.size(); ++i) { PBT_CHECKM(std::string(vs[i].data(), vs[i].size()) == mvs[i], "string %zu in a vector", i); PBT_CHECKM(vs[i].get_allocator().resource() == vs.get_allocator().resource(), "a string in a vector does not use the resource of the vector"); }
            PBT_CHECK(mp.size() == mmp.size()); for(auto &kv : mmp) PBT_CHECK(mp.count(kv.first) && std::string(mp[kv.first].data(), mp[kv.first].size()) == kv.second); PBT_CHECKM(up.bad == 0 && up2.bad == 0, "memory returned to another resource, or with another size or alignment, than it was allocated");
        }
        PBT_CHECK(v.get_allocator().resource() == &up || v.get_allocator().resource() == &up2 || v.get_allocator().resource() == get_memory_resource());
    }
    PBT_CHECKM(up.live.empty() && up2.live.empty() && up.bad == 0 && up2.bad == 0, "containers leaked: %zu and %zu blocks", up.live.size(), up2.live.size());
}
PBT_TEST(standard_containers, 3)
{
    Upstream up, up2; if(s.coin()) { s.note("allocator_mr"); ScopedMemoryResource sc(&up2); containers<Mr>(s, up, up2); } else { s.note("allocator"); ScopedMemoryResource sc(&up); containers<Gl>(s, up, up); }
}
PBT_TEST(identity, 2)
{   // copies and rebinds keep the resource; equality is sharing it
    Upstream u[3]; std::vector<allocator_mr<int>> as; std::vector<size_t> ms; size_t n = s.range(1, 10); ScopedMemoryResource sc(&u[2]);
    for(size_t i = 0; i < n; ++i) {
        size_t k = as.empty() ? 0 : s.draw(8); size_t j = as.empty() ? 0 : s.draw(as.size()); s.nontrivial(k * 16 + j);
        if(k < 3) { size_t r = s.draw(4); s.note(strf("new on %zu", r)); if(r == 3) { if(s.coin()) as.push_back(allocator_mr<int>()); else as.push_back(allocator_mr<int>((MemoryResource*)nullptr)); ms.push_back(2); } else { as.push_back(allocator_mr<int>(&u[r])); ms.push_back(r); } }
        else if(k == 3) { s.note("copy"); allocator_mr<int> c(as[j]); as.push_back(c); ms.push_back(ms[j]); }
        else if(k == 4) { s.note("rebind there and back"); allocator_mr<double> d(as[j]); PBT_CHECKM(d.resource() == &u[ms[j]], "rebinding changed the resource"); PBT_CHECK(d == as[j] && !(d != as[j])); allocator_mr<int>::rebind<char>::other c(as[j]); PBT_CHECK(c.resource() == &u[ms[j]]); as.push_back(allocator_mr<int>(d)); ms.push_back(ms[j]); }
        else if(k == 5) { s.note("rebound"); auto d = as[j].rebound<std::string>(); PBT_CHECK(d.resource() == &u[ms[j]]); }
        else if(k == 6) { size_t t = s.draw(as.size()); s.note("assign"); as[t] = as[j]; ms[t] = ms[j]; }
        else { s.note("select"); as.push_back(as[j].select_on_container_copy_construct()); ms.push_back(ms[j]); }
        for(size_t a = 0; a < as.size(); ++a) { PBT_CHECKM(as[a].resource() == &u[ms[a]], "allocator %zu uses another resource", a); for(size_t b = 0; b < as.size(); ++b) { PBT_CHECKM((as[a] == as[b]) == (ms[a] == ms[b]), "== of allocators on resources %zu and %zu", ms[a], ms[b]); PBT_CHECK((as[a] != as[b]) == (ms[a] != ms[b])); } allocator<int> g; PBT_CHECK(g.resource() == &u[2] && (g == as[a]) == (ms[a] == 2)); }
    }
}
static int ctr;
struct Obj { int v; Obj(int x = 5) : v(x) { ++ctr; } Obj(Obj const& o) : v(o.v) { ++ctr; } ~Obj() { --ctr; } };
struct Aware1 { typedef allocator_mr<char> allocator_type; int v; MemoryResource *r; Aware1(int x, MemoryResource *rr) : v(x), r(rr) {} Aware1(MemoryResource *rr) : v(-1), r(rr) {} };
struct Aware2 { typedef allocator_mr<char> allocator_type; int v; MemoryResource *r; Aware2(std::allocator_arg_t, MemoryResource *rr, int x) : v(x), r(rr) {} Aware2(std::allocator_arg_t, MemoryResource *rr) : v(-2), r(rr) {} };
PBT_TEST(construction, 2)
{
    Upstream up; size_t n = s.range(0, 12); int x = (int)s.draw(1000); s.note(strf("%zu of %d", n, x)); if(n) s.nontrivial(n * 1000 + (size_t)x); ctr = 0;
    { allocator_mr<Obj> a(&up); Obj *p = a.allocate(n + 2); memset((void*)p, 0x77, (n + 2) * sizeof(Obj)); Obj *q = p + 1; bool def = s.coin(); if(def) a.construct_n(q, n); else a.construct_n(q, n, x); PBT_CHECKM(ctr == (int)n, "construct_n of %zu made %d objects", n, ctr); for(size_t i = 0; i < n; ++i) PBT_CHECK(q[i].v == (def ? 5 : x)); PBT_CHECK(p[0].v == 0x77777777 && q[n].v == 0x77777777); a.destroy_n(q, n); PBT_CHECKM(ctr == 0, "destroy_n of %zu left %d objects", n, ctr); a.construct(q, x); PBT_CHECK(q->v == x && ctr == 1); a.destroy(q); PBT_CHECK(ctr == 0); a.deallocate(p, n + 2); }
    { allocator_mr<Aware1> a(&up); Aware1 *p = a.allocate(n + 1); a.construct(p, x); PBT_CHECKM(p->v == x && p->r == &up, "construct of an allocator-aware object"); a.construct(p); PBT_CHECK(p->v == -1 && p->r == &up); a.construct_n(p, n, x); for(size_t i = 0; i < n; ++i) PBT_CHECK(p[i].v == x && p[i].r == &up); a.deallocate(p, n + 1); }
    { allocator_mr<Aware2> a(&up); Aware2 *p = a.allocate(n + 1); a.construct(p, x); PBT_CHECKM(p->v == x && p->r == &up, "construct of an object taking allocator_arg"); a.construct_n(p, n, x); for(size_t i = 0; i < n; ++i) PBT_CHECK(p[i].v == x && p[i].r == &up); a.deallocate(p, n + 1); }
    PBT_CHECK(up.live.empty() && !up.bad);
}
