// P22: memory resources against a model of the live blocks
#include "huge.hpp"
#include "pbt.hpp"
#include <c4/memory_resource.hpp>
#include <memory>
#include <map>
using namespace c4; using namespace pbt;
struct Blk { char *p; size_t n, al; unsigned char pat; };
/** an upstream resource that records what it handed out; optionally fails above a limit */
struct Upstream : public MemoryResource
{
    std::map<void*, std::pair<size_t, size_t>> live; size_t bad = 0, nalloc = 0, limit = (size_t)-1, room = 0;
    ~Upstream() { for(auto &x : live) free(x.first); }
    void* do_allocate(size_t sz, size_t al, void*) override { if(sz > limit) return nullptr; void *p = nullptr; if(posix_memalign(&p, std::max(al, sizeof(void*)), sz + room ? sz + room : 1)) return nullptr; live[p] = std::make_pair(sz, al); ++nalloc; return p; }
    void do_deallocate(void *p, size_t sz, size_t al) override { auto it = live.find(p); if(it == live.end() || it->second.first != sz || it->second.second != al) { ++bad; return; } live.erase(it); free(p); }
    void* do_reallocate(void *p, size_t o, size_t n, size_t al) override { auto it = live.find(p); if(it == live.end() || it->second.first != o) { ++bad; return nullptr; } if(room && n <= room && n <= limit) { it->second.first = n; return p; } void *q = do_allocate(n, al, nullptr); if(!q) return nullptr; memcpy(q, p, std::min(o, n)); do_deallocate(p, o, it->second.second); return q; }
};
static void fill(Blk &b) { for(size_t i = 0; i < b.n; ++i) b.p[i] = (char)(unsigned char)(b.pat + i * 7); }
static void check_blocks(std::vector<Blk> const& bs, const char *what)
{
    for(size_t k = 0; k < bs.size(); ++k) {
        Blk const& b = bs[k]; PBT_CHECKM(b.p != nullptr, "%s: null block of %zu bytes", what, b.n); PBT_CHECKM(((uintptr_t)b.p & (b.al - 1)) == 0, "%s: block of %zu bytes at %p not aligned to %zu", what, b.n, (void*)b.p, b.al);
        for(size_t j = 0; j < k; ++j) PBT_CHECKM(b.p + b.n <= bs[j].p || bs[j].p + bs[j].n <= b.p || !b.n || !bs[j].n, "%s: blocks %zu and %zu overlap", what, j, k);
        for(size_t i = 0; i < b.n; ++i) PBT_CHECKM((unsigned char)b.p[i] == (unsigned char)(b.pat + i * 7), "%s: byte %zu of %zu of block %zu changed", what, i, b.n, k);
    }
}
static size_t gen_al(Src &s) { return (size_t)1 << (s.chance(1, 8) ? s.draw(13) : s.draw(6)); }
static size_t vast(Src &s) { switch(s.draw(4)) { case 0: return (size_t)-1 - (size_t)s.draw(300); case 1: return (size_t)1 << 63; case 2: return ((size_t)1 << 63) - 1 - (size_t)s.draw(300); default: return (size_t)1 << 62; } }
/** the bump-pointer model: where an allocation of n bytes aligned to al goes, or npos */
static size_t place(const char *base, size_t pos, size_t cap, size_t n, size_t al)
{ uintptr_t a = (uintptr_t)base + pos, r = (a + al - 1) & ~(uintptr_t)(al - 1); size_t off = (size_t)(r - (uintptr_t)base); return off <= cap && n <= cap - off ? off : (size_t)-1; }
static void linear_history(Src &s, MemoryResourceLinear &mr, Upstream *up, char *borrowed, size_t borrowed_n)
{
    size_t cap = mr.capacity(), pos = 0; const char *base = (const char*)mr.mem(); std::vector<Blk> bs; unsigned char pat = 1; PBT_CHECK(mr.size() == 0 && mr.slack() == cap); size_t steps = s.chance(1, 200) ? s.range(1, 300) : s.range(1, 20);
    for(size_t st = 0; st < steps; ++st) {
        std::string w; size_t op = s.draw(16); s.nontrivial(op);
        if(op < 6 || (op < 12 && bs.empty())) {
            size_t n = s.chance(1, 12) ? vast(s) : s.range(1, s.chance(1, 6) ? cap + 3 : 24), al = gen_al(s); w = strf("allocate(%zu,%zu)", n, al); s.note(w); s.nontrivial(n * 64 + al); size_t off = place(base, pos, cap, n, al); void *p = nullptr;
            bool r = al == alignof(max_align_t) && s.coin() ? raises([&]{ p = mr.allocate(n); }) : raises([&]{ p = mr.allocate(n, al); });
            PBT_CHECKM(r == (off == (size_t)-1), "%s with %zu of %zu bytes used: %s", w.c_str(), pos, cap, r ? "refused although it fits" : "accepted although it does not fit");
            if(!r) { PBT_CHECKM(p >= base && (char*)p + n <= base + cap, "%s: outside the storage", w.c_str()); PBT_CHECKM((char*)p >= base + pos, "%s: before the used part", w.c_str()); Blk b{(char*)p, n, al, pat}; pat = (unsigned char)(pat + 31); fill(b); bs.push_back(b); pos = (size_t)((char*)p - base) + n; PBT_CHECKM((char*)p == base + off, "%s: placed at %td instead of %zu", w.c_str(), (char*)p - base, off); }
        } else if(op < 11) {
            size_t k = s.coin() ? bs.size() - 1 : s.draw(bs.size()); Blk b = bs[k]; size_t n = s.chance(1, 10) ? vast(s) : s.coin() ? s.range(0, b.n) : b.n + s.range(0, s.chance(1, 4) ? cap : 16); if(n == 0 && s.coin()) n = 1; w = strf("reallocate(#%zu at %td, %zu->%zu)", k, b.p - base, b.n, n); s.note(w); s.nontrivial(n); void *p = nullptr; size_t slack = mr.slack();
            bool last = b.p + b.n == base + pos; size_t oldn = b.n; bool fits = n <= b.n || (last && n - b.n <= cap - pos) || (place(base, pos, cap, n, b.al) != (size_t)-1);
            bool r = raises([&]{ p = mr.reallocate(b.p, b.n, n, b.al); });
            PBT_CHECKM(r == !fits, "%s with %zu of %zu bytes used: %s", w.c_str(), pos, cap, r ? "refused although it fits" : "accepted although it does not fit");
            if(!r) { PBT_CHECKM(p >= base && (char*)p + n <= base + cap, "%s: outside the storage", w.c_str()); size_t keep = std::min(n, b.n); for(size_t i = 0; i < keep; ++i) PBT_CHECKM((unsigned char)((char*)p)[i] == (unsigned char)(b.pat + i * 7), "%s: byte %zu lost", w.c_str(), i); b.p = (char*)p; b.n = n; fill(b); bs[k] = b; if(last && oldn > n) PBT_CHECKM(mr.size() == pos - (oldn - n), "%s: shrinking the last block did not give its room back", w.c_str()); pos = mr.size(); PBT_CHECKM(mr.size() <= cap, "%s: used beyond capacity", w.c_str()); for(auto &x : bs) PBT_CHECKM(!x.n || x.p + x.n <= base + pos, "%s: a live block is beyond the used part", w.c_str()); if(n > keep) PBT_CHECK(mr.slack() <= slack); }
        } else if(op < 13) { if(bs.empty()) continue; size_t k = s.draw(bs.size()); w = strf("deallocate(#%zu)", k); s.note(w); mr.deallocate(bs[k].p, bs[k].n, bs[k].al); bs.erase(bs.begin() + (ptrdiff_t)k); pos = mr.size(); for(auto &x : bs) PBT_CHECK(!x.n || x.p + x.n <= base + pos); }
        else if(op == 13) { w = "clear()"; s.note(w); mr.clear(); bs.clear(); pos = 0; }
        else if(op == 14) { w = "release()"; s.note(w); mr.release(); bs.clear(); pos = 0; PBT_CHECKM(mr.capacity() == 0 && mr.size() == 0 && mr.mem() == nullptr, "release() left the memory"); if(up) PBT_CHECKM(up->live.empty(), "release() did not return the memory to its resource"); PBT_CHECKM(raises([&]{ mr.allocate(1); }), "allocation from a released resource"); cap = 0; base = nullptr; }
        else { if(s.coin() && borrowed) { size_t n = s.range(0, borrowed_n); w = strf("acquire(borrowed,%zu)", n); s.note(w); mr.acquire(borrowed, n); cap = n; PBT_CHECK(mr.mem() == borrowed); if(up) PBT_CHECKM(up->live.empty(), "acquire() leaked the previous memory"); } else { size_t n = s.range(1, 200); w = strf("acquire(%zu)", n); s.note(w); mr.acquire(n); cap = n; if(up) PBT_CHECKM(up->live.size() == 1 && up->live.count((void*)mr.mem()), "acquire() leaked the previous memory, or did not take the new one from the resource"); }
            base = (const char*)mr.mem(); pos = 0; bs.clear(); PBT_CHECK(base != nullptr && mr.capacity() == cap); }
        PBT_CHECKM(mr.size() == pos && mr.capacity() == cap && mr.slack() == cap - pos && mr.mem() == base, "%s: size %zu capacity %zu slack %zu, expected %zu and %zu", w.c_str(), mr.size(), mr.capacity(), mr.slack(), pos, cap); check_blocks(bs, w.c_str()); if(up) PBT_CHECKM(up->bad == 0, "%s: memory returned to its resource with the wrong address or size", w.c_str());
    }
}
PBT_TEST(linear, 6)
{
    switch(s.draw(4)) {
    case 0: { size_t n = s.chance(1, 16) ? s.edge_size(70000) : s.range(1, 200); s.note(strf("owned %zu", n)); s.nontrivial(n); Upstream up; Buf ex(64); { MemoryResourceLinear mr(n, &up); PBT_CHECK(up.live.size() == 1 && up.live.begin()->first == mr.mem()); linear_history(s, mr, &up, ex.ptr, ex.len); } PBT_CHECKM(up.live.empty(), "the memory was not returned to its resource"); PBT_CHECK(up.bad == 0); ex.check(); break; }
    case 1: { size_t n = s.chance(1, 16) ? s.edge_size(70000) : s.range(0, 200); s.note(strf("borrowed %zu", n)); s.nontrivial(n + 1000); Buf b(n), ex(64); Upstream up; { ScopedMemoryResource scope(&up); MemoryResourceLinear mr(b.ptr, n); linear_history(s, mr, &up, ex.ptr, ex.len); } PBT_CHECK(up.live.empty() && up.bad == 0); b.check(); ex.check(); break; }
    case 2: { s.note("array of 96"); s.nontrivial(2); struct W { char pre[32]; MemoryResourceLinearArr<96> mr; char post[32]; }; std::unique_ptr<W> w(new W); memset(w->pre, 'x', 32); memset(w->post, 'x', 32); Upstream up; { ScopedMemoryResource scope(&up); PBT_CHECK(w->mr.capacity() == 96 && (char*)w->mr.mem() >= (char*)&w->mr && (char*)w->mr.mem() + 96 <= (char*)(&w->mr + 1)); linear_history(s, w->mr, nullptr, nullptr, 0); } for(int i = 0; i < 32; ++i) PBT_CHECK(w->pre[i] == 'x' && w->post[i] == 'x'); break; }
    default: { s.note("unbound"); s.nontrivial(3); Upstream up; Buf ex(100); { MemoryResourceLinear mr((MemoryResource*)&up); linear_history(s, mr, &up, ex.ptr, ex.len); } PBT_CHECK(up.live.empty() && up.bad == 0); ex.check(); break; }
    }
}
static int hk_a, hk_f, hk_r; static size_t hk_sz, hk_al, hk_old; static void *hk_p;
static void* hook_a(size_t n, size_t al) { ++hk_a; hk_sz = n; hk_al = al; void *p = nullptr; if(posix_memalign(&p, std::max(al, sizeof(void*)), n)) return nullptr; return p; }
static void hook_f(void *p) { ++hk_f; hk_p = p; free(p); }
static void* hook_r(void *p, size_t o, size_t n, size_t al) { ++hk_r; hk_p = p; hk_old = o; hk_sz = n; hk_al = al; void *q = nullptr; if(posix_memalign(&q, std::max(al, sizeof(void*)), n)) return nullptr; memcpy(q, p, std::min(o, n)); free(p); return q; }
PBT_TEST(general_allocation, 4)
{   // raw functions, the malloc resource, the global resource and user hooks
    std::vector<Blk> bs; unsigned char pat = 9; size_t steps = s.chance(1, 200) ? s.range(1, 300) : s.range(1, 16); bool hooks = s.chance(1, 3), raw = s.coin(); MemoryResource *mr = s.coin() ? (MemoryResource*)get_memory_resource_malloc() : get_memory_resource(); auto oa = get_aalloc(); auto of = get_afree(); auto orr = get_arealloc();
    if(hooks) { set_aalloc(hook_a); set_afree(hook_f); set_arealloc(hook_r); PBT_CHECK(get_aalloc() == hook_a && get_afree() == hook_f && get_arealloc() == hook_r); } hk_a = hk_f = hk_r = 0; int ea = 0, ef = 0, er = 0; s.note(strf("%s%s", raw ? "raw" : "resource", hooks ? " with hooks" : ""));
    for(size_t st = 0; st < steps; ++st) {
        size_t op = s.draw(8); std::string w; s.nontrivial(op);
        if(op < 4 || bs.empty()) { size_t n = s.range(1, s.chance(1, 8) ? 5000 : 80), al = gen_al(s); s.nontrivial(n * 64 + al); w = strf("allocate(%zu,%zu)", n, al); s.note(w); void *p = raw ? aalloc(n, al) : mr->allocate(n, al); ++ea; if(hooks) PBT_CHECKM(hk_a == ea && hk_sz == n && hk_al == al, "%s did not reach the installed function", w.c_str()); Blk b{(char*)p, n, al, pat}; pat = (unsigned char)(pat + 31); PBT_CHECK(p != nullptr); fill(b); bs.push_back(b); }
        else if(op < 6) { size_t k = s.draw(bs.size()); Blk b = bs[k]; size_t n = s.coin() ? s.range(1, b.n) : b.n + s.range(0, 200), al = s.coin() ? b.al : gen_al(s); s.nontrivial(n); w = strf("reallocate(#%zu,%zu->%zu,%zu)", k, b.n, n, al); s.note(w); void *p = raw ? arealloc(b.p, b.n, n, al) : mr->reallocate(b.p, b.n, n, al); ++er; if(hooks) PBT_CHECKM(hk_r == er && hk_sz == n && hk_al == al && hk_old == b.n && hk_p == b.p, "%s did not reach the installed function", w.c_str());
            for(size_t i = 0; i < std::min(n, b.n); ++i) PBT_CHECKM((unsigned char)((char*)p)[i] == (unsigned char)(b.pat + i * 7), "%s: byte %zu lost", w.c_str(), i); b.p = (char*)p; b.n = n; b.al = al; fill(b); bs[k] = b; }
        else if(op == 6) { size_t k = s.draw(bs.size()); w = strf("deallocate(#%zu)", k); s.note(w); if(raw) afree(bs[k].p); else mr->deallocate(bs[k].p, bs[k].n, bs[k].al); ++ef; if(hooks) PBT_CHECKM(hk_f == ef && hk_p == bs[k].p, "deallocation did not reach the installed function"); bs.erase(bs.begin() + (ptrdiff_t)k); }
        else if(!hooks) { size_t al = s.coin() ? 0 : ((size_t)s.range(3, 200) | 1); if(al && (al & (al - 1)) == 0) ++al, al |= 1; if(al && (al & (al - 1)) == 0) continue; w = strf("allocate with alignment %zu", al); s.note(w); PBT_CHECKM(raises([&]{ if(raw) aalloc(8, al); else mr->allocate(8, al); }), "alignment %zu was accepted", al);
            #if !PBT_ASAN
            size_t h = vast(s); w = strf("allocate(%zu)", h); size_t hal = gen_al(s); PBT_CHECKM(raises([&]{ if(raw) aalloc(h, hal); else mr->allocate(h, hal); }), "allocation of %zu bytes did not report an error", h);
            { std::string sz = strf("%zu", h), al2 = strf("alignment=%zu)", std::max(hal, sizeof(void*))); PBT_CHECKM(err_msg->find(sz) != std::string::npos, "allocation of %zu bytes reported '%s'", h, err_msg->c_str()); if(err_msg->find("alignment=") != std::string::npos) PBT_CHECKM(err_msg->find(al2) != std::string::npos || err_msg->find(strf("alignment=%zu)", hal)) != std::string::npos, "allocation of %zu bytes aligned to %zu reported '%s'", h, hal, err_msg->c_str()); }
            #endif
        }
        check_blocks(bs, w.c_str());
    }
    for(auto &b : bs) { if(raw) afree(b.p); else mr->deallocate(b.p, b.n, b.al); } set_aalloc(oa); set_afree(of); set_arealloc(orr); PBT_CHECK(get_aalloc() == oa && get_afree() == of && get_arealloc() == orr);
}
#if PBT_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
// everything released is really given back: the bytes in use are the same before and after a history
PBT_TEST(nothing_kept, 2)
{
    size_t steps = s.range(1, 12); bool raw = s.coin(); MemoryResource *mr = get_memory_resource_malloc(); static Blk bs[16]; static size_t ops[16], ns[16], als[16], ks[16]; std::string d;
    for(size_t i = 0; i < steps; ++i) { ops[i] = s.draw(4); ns[i] = s.chance(1, 20) ? 0 : s.range(1, 3000); als[i] = gen_al(s); ks[i] = s.draw(16); d += strf("%zu:%zu,%zu ", ops[i], ns[i], als[i]); } s.note((raw ? "raw " : "resource ") + d); s.nontrivial(d);
    size_t nb = 0, before = __sanitizer_get_current_allocated_bytes();
    for(size_t i = 0; i < steps; ++i) {
        if(ops[i] < 2 || !nb) { size_t n = ns[i] ? ns[i] : 1; bs[nb].p = (char*)(raw ? aalloc(n, als[i]) : mr->allocate(n, als[i])); bs[nb].n = n; bs[nb].al = als[i]; ++nb; }
        else { Blk &b = bs[ks[i] % nb]; if(ops[i] == 2 && ns[i]) { b.p = (char*)(raw ? arealloc(b.p, b.n, ns[i], b.al) : mr->reallocate(b.p, b.n, ns[i], b.al)); b.n = ns[i]; } else { if(raw) afree(b.p); else mr->deallocate(b.p, b.n, b.al); b = bs[--nb]; } }
    }
    for(size_t i = 0; i < nb; ++i) { if(raw) afree(bs[i].p); else mr->deallocate(bs[i].p, bs[i].n, bs[i].al); }
    { MemoryResourceLinear lin(ns[0] + 1); (void)lin.allocate(1); lin.acquire(64); if(ops[0] & 1) lin.release(); } { MemoryResourceCounts cnt; void *p = cnt.allocate(100, 8); p = cnt.reallocate(p, 100, ns[0] + 1, 8); cnt.deallocate(p, ns[0] + 1, 8); }
    size_t after = __sanitizer_get_current_allocated_bytes(); PBT_CHECKM(after == before, "%zu bytes in use before, %zu after everything was released", before, after);
}
#endif
static std::map<void*, size_t> *fx_live; static uint64_t fx_plan; static int fx_failed, fx_bad;
static void* fx_a(size_t n, size_t al) { bool fail = fx_plan & 1; fx_plan = fx_plan >> 1 | fx_plan << 63; void *p = nullptr; if(fail || posix_memalign(&p, std::max(al, sizeof(void*)), n ? n : 1)) { ++fx_failed; return nullptr; } (*fx_live)[p] = n; return p; }
static void fx_f(void *p) { if(!p) return; auto it = fx_live->find(p); if(it == fx_live->end()) { ++fx_bad; return; } fx_live->erase(it); free(p); }
PBT_TEST(failing_functions, 3)
{   // user allocation functions that fail now and then, under the default reallocation
    std::map<void*, size_t> live; fx_live = &live; fx_failed = fx_bad = 0; fx_plan = 0; size_t nf = s.range(1, 20); for(size_t i = 0; i < nf; ++i) fx_plan |= (uint64_t)1 << s.draw(64); s.note(strf("failures %016llx", (unsigned long long)fx_plan)); s.nontrivial(fx_plan);
    auto oa = get_aalloc(); auto of = get_afree(); struct Restore { decltype(oa) a; decltype(of) f; ~Restore() { set_aalloc(a); set_afree(f); } } rst{oa, of}; set_aalloc(fx_a); set_afree(fx_f);
    MemoryResourceCounts cnt(get_memory_resource_malloc()); size_t kind = s.draw(3); MemoryResource *mr = kind == 1 ? (MemoryResource*)get_memory_resource_malloc() : (MemoryResource*)&cnt; s.note(kind == 0 ? "raw" : kind == 1 ? "malloc" : "counts");
    std::vector<Blk> bs; unsigned char pat = 5; size_t steps = s.chance(1, 200) ? s.range(1, 300) : s.range(1, 24); size_t csz = 0;
    for(size_t st = 0; st < steps; ++st) {
        size_t op = s.draw(8); std::string w; s.nontrivial(op); int f0 = fx_failed; void *p = nullptr; bool r = false;
        if(op < 3 || bs.empty()) { size_t n = s.range(1, 80), al = gen_al(s); w = strf("allocate(%zu,%zu)", n, al); s.note(w); s.nontrivial(n); if(kind == 0) { p = aalloc(n, al); r = p == nullptr; } else r = raises([&]{ p = mr->allocate(n, al); }); PBT_CHECKM(r == (fx_failed > f0), "%s %s although the installed function %s", w.c_str(), r ? "failed" : "succeeded", fx_failed > f0 ? "failed" : "did not fail"); if(!r) { Blk b{(char*)p, n, al, pat}; pat = (unsigned char)(pat + 31); fill(b); bs.push_back(b); csz += n; } }
        else if(op < 6) { size_t k = s.draw(bs.size()); Blk b = bs[k]; size_t n = s.coin() ? s.range(1, b.n) : b.n + s.range(0, 100); w = strf("reallocate(#%zu,%zu->%zu)", k, b.n, n); s.note(w); s.nontrivial(n); if(kind == 0) { p = arealloc(b.p, b.n, n, b.al); r = p == nullptr; } else r = raises([&]{ p = mr->reallocate(b.p, b.n, n, b.al); }); PBT_CHECKM(r == (fx_failed > f0), "%s %s although the installed function %s", w.c_str(), r ? "failed" : "succeeded", fx_failed > f0 ? "failed" : "did not fail");
            if(!r) { PBT_CHECK(live.count(p) && live[p] >= n); for(size_t i = 0; i < std::min(n, b.n); ++i) PBT_CHECKM((unsigned char)((char*)p)[i] == (unsigned char)(b.pat + i * 7), "%s: byte %zu lost", w.c_str(), i); csz = csz - b.n + n; b.p = (char*)p; b.n = n; fill(b); bs[k] = b; } }
        else if(op == 6) { size_t k = s.draw(bs.size()); w = strf("deallocate(#%zu)", k); s.note(w); csz -= bs[k].n; if(kind == 0) afree(bs[k].p); else mr->deallocate(bs[k].p, bs[k].n, bs[k].al); bs.erase(bs.begin() + (ptrdiff_t)k); }
        else { size_t n = s.range(1, 64); w = strf("linear(%zu)", n); s.note(w); MemoryResourceLinear l(get_memory_resource_malloc()); r = raises([&]{ l.acquire(n); }); PBT_CHECKM(r == (fx_failed > f0), "acquiring memory %s", r ? "failed" : "succeeded although the installed function failed"); if(r) { PBT_CHECKM(l.mem() == nullptr && l.capacity() == 0 && l.size() == 0, "an arena that could not get its memory claims to have it"); PBT_CHECK(raises([&]{ l.allocate(1, 1); })); } else PBT_CHECK(l.capacity() == n && l.allocate(1, 1) == l.mem()); }
        PBT_CHECKM(fx_bad == 0, "%s freed something that was not allocated", w.c_str()); PBT_CHECKM(live.size() == bs.size(), "%s: %zu blocks are allocated, expected %zu", w.c_str(), live.size(), bs.size()); for(auto &b : bs) PBT_CHECKM(live.count(b.p), "%s: a live block was freed", w.c_str()); check_blocks(bs, w.c_str());
        if(kind == 2) PBT_CHECKM(cnt.counts().curr.allocs == (ssize_t)bs.size() && cnt.counts().curr.size == (ssize_t)csz, "%s: counts %zd/%zd, expected %zu/%zu", w.c_str(), cnt.counts().curr.allocs, cnt.counts().curr.size, bs.size(), csz);
    }
    for(auto &b : bs) { if(kind == 0) afree(b.p); else mr->deallocate(b.p, b.n, b.al); } PBT_CHECK(live.empty() && fx_bad == 0);
}
struct CM { ssize_t ca = 0, cs = 0, ta = 0, ts = 0, ma = 0, ms = 0; void add(size_t n) { ++ca; cs += (ssize_t)n; ++ta; ts += (ssize_t)n; ma = std::max(ma, ca); ms = std::max(ms, cs); } void rem(size_t n) { --ca; cs -= (ssize_t)n; } };
static void same(AllocationCounts const& c, CM const& m, const char *w) { PBT_CHECKM(c.curr.allocs == m.ca && c.curr.size == m.cs && c.total.allocs == m.ta && c.total.size == m.ts && c.max.allocs == m.ma && c.max.size == m.ms, "after %s: counts curr %zd/%zd total %zd/%zd max %zd/%zd, expected %zd/%zd %zd/%zd %zd/%zd", w, c.curr.allocs, c.curr.size, c.total.allocs, c.total.size, c.max.allocs, c.max.size, m.ca, m.cs, m.ta, m.ts, m.ma, m.ms); }
PBT_TEST(counting, 4)
{
    Upstream up; if(s.coin()) up.limit = s.range(1, 60); if(s.coin()) { up.room = s.range(1, 100); s.label("reallocation in place"); } MemoryResourceCounts inner(&up); MemoryResourceCounts mr(&inner); PBT_CHECK(mr.resource() == &inner); CM m; std::vector<Blk> bs; unsigned char pat = 1; size_t steps = s.chance(1, 200) ? s.range(1, 300) : s.range(1, 20); s.note(strf("limit %zd, in place up to %zu", (ssize_t)up.limit, up.room)); AllocationCounts mark; CM mmark;
    for(size_t st = 0; st < steps; ++st) {
        size_t op = s.draw(9); std::string w; s.nontrivial(op);
        if(op < 4 || bs.empty()) { size_t n = s.range(1, 80), al = gen_al(s); s.nontrivial(n); w = strf("allocate(%zu,%zu)", n, al); s.note(w); void *p = nullptr; bool r = raises([&]{ p = mr.allocate(n, al); }); PBT_CHECKM(r == (n > up.limit), "%s", w.c_str()); if(!r) { m.add(n); Blk b{(char*)p, n, al, pat++}; fill(b); bs.push_back(b); } }
        else if(op < 6) { size_t k = s.draw(bs.size()); Blk b = bs[k]; size_t n = s.range(1, 100); s.nontrivial(n); w = strf("reallocate(#%zu,%zu->%zu)", k, b.n, n); s.note(w); void *p = nullptr; bool r = raises([&]{ p = mr.reallocate(b.p, b.n, n, b.al); }); PBT_CHECKM(r == (n > up.limit), "%s", w.c_str()); if(!r) { m.rem(b.n); m.add(n); for(size_t i = 0; i < std::min(n, b.n); ++i) PBT_CHECK((unsigned char)((char*)p)[i] == (unsigned char)(b.pat + i * 7)); b.p = (char*)p; b.n = n; fill(b); bs[k] = b; } }
        else if(op < 8) { size_t k = s.draw(bs.size()); w = strf("deallocate(#%zu)", k); s.note(w); mr.deallocate(bs[k].p, bs[k].n, bs[k].al); m.rem(bs[k].n); bs.erase(bs.begin() + (ptrdiff_t)k); }
        else { w = "mark"; AllocationCounts d = mr.counts() - mark; CM e; e.ca = m.ca - mmark.ca; e.cs = m.cs - mmark.cs; e.ta = m.ta - mmark.ta; e.ts = m.ts - mmark.ts; e.ma = m.ma - mmark.ma; e.ms = m.ms - mmark.ms; same(d, e, "subtracting counts"); same(d + mark, m, "adding counts"); AllocationCounts u = d; u.update(mark); same(u, m, "updating counts"); u.clear_counts(); same(u, CM(), "clear_counts()"); mark = mr.counts(); mmark = m; }
        same(mr.counts(), m, w.c_str()); same(inner.counts(), m, w.c_str()); check_blocks(bs, w.c_str()); PBT_CHECK(up.live.size() == bs.size() && up.bad == 0);
    }
    for(auto &b : bs) { mr.deallocate(b.p, b.n, b.al); m.rem(b.n); } same(mr.counts(), m, "the end"); PBT_CHECKM(m.ca == 0 && up.live.empty() && up.bad == 0, "not everything was returned to the underlying resource");
}
static void scopes(Src &s, int depth, std::vector<Upstream*> &pool)
{
    MemoryResource *before = get_memory_resource(); size_t n = s.draw(4);
    for(size_t i = 0; i < n; ++i) {
        size_t k = s.draw(depth > 5 ? 2 : 5); Upstream *u = pool[s.draw(pool.size())]; s.nontrivial(k * 7 + n);
        if(k == 0) { s.note("allocate"); size_t c = u->nalloc; bool cur = get_memory_resource() == u; MemoryResource *r = get_memory_resource(); void *p = r->allocate(24); r->deallocate(p, 24); if(cur) PBT_CHECK(u->nalloc == c + 1); }
        else if(k == 1) { s.note("linear"); MemoryResource *r = get_memory_resource(); MemoryResourceCounts c; PBT_CHECK(c.resource() == r); ScopedMemoryResource sc(&c); { MemoryResourceLinear l((size_t)32); PBT_CHECKM(c.counts().curr.size == 32, "a linear resource took its memory elsewhere than from the global resource"); } PBT_CHECK(c.counts().curr.size == 0 && c.counts().total.allocs == 1); }
        else if(k == 2) { s.note("{scope"); ScopedMemoryResource sc(u); PBT_CHECK(get_memory_resource() == u); scopes(s, depth + 1, pool); PBT_CHECK(get_memory_resource() == u); s.note("}"); }
        else if(k == 3) { s.note("{counts"); MemoryResource *r = get_memory_resource(); ScopedMemoryResourceCounts sc; PBT_CHECK(get_memory_resource() == &sc.mr && sc.mr.resource() == r); void *p = get_memory_resource()->allocate(10); PBT_CHECK(sc.mr.counts().curr.size == 10); scopes(s, depth + 1, pool); PBT_CHECK(get_memory_resource() == &sc.mr); sc.mr.deallocate(p, 10); PBT_CHECK(sc.mr.counts().curr.size == 0); s.note("}"); }
        else { s.note("{counts of a resource"); ScopedMemoryResourceCounts sc(u); PBT_CHECK(get_memory_resource() == &sc.mr && sc.mr.resource() == u); size_t c = u->nalloc; void *p = get_memory_resource()->allocate(10); PBT_CHECK(u->nalloc == c + 1); scopes(s, depth + 1, pool); PBT_CHECK(get_memory_resource() == &sc.mr); get_memory_resource()->deallocate(p, 10); s.note("}"); }
        PBT_CHECKM(get_memory_resource() == before, "leaving the scope did not restore the previous resource");
    }
}
PBT_TEST(scope_nesting, 2)
{
    Upstream a, b; std::vector<Upstream*> pool{&a, &b}; MemoryResource *before = get_memory_resource(); if(s.coin()) set_memory_resource(&a); scopes(s, 0, pool); set_memory_resource(before); PBT_CHECK(get_memory_resource() == before && a.live.empty() && b.live.empty() && !a.bad && !b.bad);
}
// an arena, and counts, of more bytes than 32 bits can count
PBT_TEST(huge_arena, 1)
{
    char *m = huge::region(); if(!m) { s.label("no large region"); return; } huge::Watch w; if(w.spent()) { s.label("time for long copies spent"); return; } size_t cap = huge::size(s, 33), pos = 0; MemoryResourceLinear mr(m, cap); MemoryResourceCounts mc(&mr); PBT_CHECK(mr.capacity() == cap && mr.slack() == cap); size_t steps = s.range(1, 10); char *lp = nullptr; size_t ln = 0; ssize_t live = 0, maxl = 0; size_t total = 0; s.note(strf("arena of %zu", cap)); s.nontrivial(cap);
    for(size_t st = 0; st < steps; ++st) {
        size_t n = s.coin() ? huge::size(s, 33) : s.coin() ? (size_t)s.range(1, 100) : std::max((size_t)1, huge::pos(s, cap - pos)), al = gen_al(s); bool re = lp && s.chance(1, 3); void *p = nullptr; std::string what = strf("%s(%zu,%zu) with %zu of %zu used", re ? "reallocate" : "allocate", n, al, pos, cap); s.note(what);
        if(re) { bool fits = n <= ln || n - ln <= cap - pos; if(!fits && place(m, pos, cap, n, 1) != (size_t)-1) continue; if(!fits) { PBT_CHECKM(raises([&]{ p = mc.reallocate(lp, ln, n, 1); }), "%s succeeded", what.c_str()); break; } p = mc.reallocate(lp, ln, n, 1); PBT_CHECKM(p == lp, "%s moved the last block", what.c_str()); live += (ssize_t)n - (ssize_t)ln; if(n > ln) total += n - ln; pos = (size_t)(lp - m) + n; ln = n; }
        else { size_t off = place(m, pos, cap, n, al); if(off == (size_t)-1) { PBT_CHECKM(raises([&]{ p = mr.allocate(n, al); }), "%s succeeded", what.c_str()); continue; } p = mc.allocate(n, al); PBT_CHECKM(p == m + off, "%s: at %td, expected %zu", what.c_str(), (char*)p - m, off); lp = m + off; ln = n; pos = off + n; live += (ssize_t)n; total += n; }
        maxl = std::max(maxl, live); PBT_CHECKM(mr.size() == pos && mr.slack() == cap - pos && mr.capacity() == cap, "%s: size %zu, slack %zu", what.c_str(), mr.size(), mr.slack()); PBT_CHECKM(mc.counts().curr.size == live && mc.counts().max.size == maxl, "%s: counted %zd now and %zd at most, expected %zd and %zd", what.c_str(), (ssize_t)mc.counts().curr.size, (ssize_t)mc.counts().max.size, live, maxl);
    }
}
