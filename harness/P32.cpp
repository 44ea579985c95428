// P32: calls on separate data may run at the same time. The generated input is a workload: lists of calls of every
// part of the library with their arguments, and a number of threads. Oracle: the result each call gives when run
// alone, before any thread is started; in the thread-sanitizer build, also the absence of a data race.
#include "oracle_int.hpp"
#include "oracle_real.hpp"
#include "strgen.hpp"
#include <c4/std/string.hpp>
#include <c4/std/vector.hpp>
#include <c4/charconv.hpp>
#include <c4/format.hpp>
#include <c4/dump.hpp>
#include <c4/base64.hpp>
#include <c4/utf.hpp>
#include <c4/enum.hpp>
#include <c4/bitmask.hpp>
#include <c4/hash.hpp>
#include <c4/span.hpp>
#include <c4/allocator.hpp>
#include <c4/ctor_dtor.hpp>
#include <c4/type_name.hpp>
#include <c4/ext/rng/rng.hpp>
#if __cplusplus >= 201402L
#include <c4/ext/sg14/inplace_function.h>
#endif
#include <sstream>
#include <thread>
#include <atomic>
#include <memory>
using namespace c4; using namespace pbt; using namespace oracle;

enum class Col : uint32_t { red = 1, green = 2, blue = 4, all = 7 };
namespace c4 {
template<> const EnumSymbols<Col> esyms<Col>() { static const EnumSymbols<Col>::Sym s[] = {{Col::red, "Col::red"}, {Col::green, "Col::green"}, {Col::blue, "Col::blue"}, {Col::all, "Col::all"}}; EnumSymbols<Col> r(s); return r; }
template<> size_t eoffs_cls<Col>() { return 5; }
}
struct Call
{
    int kind, sub; uint64_t u; int64_t i; double d; float f; std::string a, b, c; size_t n, m; unsigned radix; char ch;
};
enum { KINDS = 22 };
static Call gen(Src &s)
{
    Call c; c.kind = (int)s.draw(KINDS); c.sub = (int)s.draw(8); c.u = s.integer<uint64_t>(); c.i = s.integer<int64_t>(); c.d = gen_real<double>(s); c.f = gen_real<float>(s);
    c.n = s.len(20); c.m = s.len(20); static const unsigned rx[] = {10, 16, 8, 2}; c.radix = s.pick(rx); c.ch = "ab/=\"'.,"[s.draw(8)];
    switch(c.kind) {
    case 2: c.a = gen_intlike(s); break;
    case 3: c.a = s.coin() ? gen_dec_literal<double>(s) : gen_hex_literal<double>(s); if(c.a.empty()) c.a = "1"; break;
    case 4: c.a = (s.coin() ? gen_literal(s, true) : gen_dec_literal<double>(s)) + (s.coin() ? " x" : ""); break;
    default: c.a = s.stretch(s.str(30, s.coin() ? "ab/.'\" " : nullptr), 300); break;
    }
    c.b = s.str(4, "ab/."); c.c = s.str(6, "xy{}"); return c;
}
template<class F> static std::string buffered(F f)
{
    std::string b(64, '#'); size_t n = f(substr(&b[0], b.size())); for(int k = 0; n > b.size() && k < 4; ++k) { b.assign(n + 8, '#'); n = f(substr(&b[0], b.size())); }
    b.resize(std::min(n, b.size())); return b;
}
static std::string S(csubstr s) { return s.len ? std::string(s.str, s.len) : std::string(); }
static std::string N(size_t n) { return std::to_string((long long)n) + " "; }
static thread_local std::string *tl_sink;
static void sink_fn(csubstr s) { tl_sink->append(s.str, s.len); }
struct Sink { std::string *o; void operator() (csubstr s) const { o->append(s.str, s.len); } };
template<class T> static std::string ints(Call const& k)
{
    T v = (T)k.u; std::string r = buffered([&](substr b){ return to_chars(b, v); }) + " " + buffered([&](substr b){ return xtoa(b, v, k.radix == 10 ? (T)16 : (T)k.radix); }) + " " + buffered([&](substr b){ return xtoa(b, v, (T)10, k.n); });
    r += buffered([&](substr b){ return to_chars(b, fmt::hex(v)); }) + " " + buffered([&](substr b){ return to_chars(b, fmt::zpad(fmt::bin(v), k.n)); }) + " " + buffered([&](substr b){ return to_chars(b, fmt::oct(v)); });
    return r;
}
template<class T> static std::string reads(csubstr t) { T v = (T)7; bool ok = t.len && t.str[0] != '+' && from_chars(t, &v); return (ok ? "y" : "n") + std::to_string(ok ? (long long)v : 0) + (t.len && t.str[0] != '+' && overflows<T>(t) ? "o " : " "); }
template<class T> static std::string reals(T v, Call const& k)
{
    static const RealFormat_e fm[] = {FTOA_FLOAT, FTOA_SCIENT, FTOA_FLEX, FTOA_HEXA}; RealFormat_e f = fm[k.sub % 4]; int p = (int)k.n - 1; if(f == FTOA_FLOAT && p > 12) p = 12;
    return buffered([&](substr b){ return to_chars(b, v); }) + " " + buffered([&](substr b){ return xtoa(b, v, p, f); }) + " " + buffered([&](substr b){ return to_chars(b, fmt::real(v, 3, FTOA_SCIENT)); });
}
static std::string run(Call const& k)
{
    csubstr A(k.a.data(), k.a.size()), B(k.b.data(), k.b.size()), C(k.c.data(), k.c.size()); std::string r;
    switch(k.kind) {
    case 0: switch(k.sub) { case 0: return ints<int8_t>(k); case 1: return ints<uint8_t>(k); case 2: return ints<int16_t>(k); case 3: return ints<uint16_t>(k); case 4: return ints<int32_t>(k); case 5: return ints<uint32_t>(k); case 6: return ints<int64_t>(k); default: return ints<uint64_t>(k); }
    case 1: return k.sub & 4 ? reals(k.f, k) : reals(k.d, k);
    case 2: return reads<int8_t>(A) + reads<uint8_t>(A) + reads<int32_t>(A) + reads<uint32_t>(A) + reads<int64_t>(A) + reads<uint64_t>(A) + reads<uint16_t>(A) + reads<int16_t>(A);
    case 3: { double d = 1; float f = 1; bool x = atod(A, &d), y = atof(A, &f); uint64_t u = 0; uint32_t w = 0; memcpy(&u, &d, 8); memcpy(&w, &f, 4); return N(x) + N(y) + N(x ? (size_t)u : 0) + N(y ? w : 0); }
    case 4: { int64_t i = 0; uint32_t u = 0; double d = 0; csubstr w; size_t a = from_chars_first(A, &i), b = from_chars_first(A, &u), c = from_chars_first(A, &d), e = from_chars_first(A, &w); r = N(a) + N(b) + N(c) + N(e) + N((size_t)i) + N(u) + S(w) + S(A.first_int_span()) + "|" + S(A.first_real_span()) + N(A.is_number()); return r; }
    case 5: { std::string o = "pre"; catrs_append(&o, k.i, A, k.ch); std::vector<char> v; catseprs(&v, B, k.u, A, k.i); formatrs_append(&o, "<{}|{}>", A, k.u); r = o + std::string(v.begin(), v.end()); r += buffered([&](substr b){ return cat(b, A, k.i, k.d, B); }); r += buffered([&](substr b){ return catsep(b, k.ch, k.i, A, k.u); }); r += buffered([&](substr b){ return format(b, C, k.i, A); }); return r; }
    case 6: { std::string t = buffered([&](substr b){ return catsep(b, ',', k.i, k.u, (int)k.n); }); int64_t i = 0; uint64_t u = 0; int n = 0; char sep = 0; size_t q = uncatsep(csubstr(t.data(), t.size()), sep, i, u, n); r = N(q) + N((size_t)i) + N((size_t)u) + N((size_t)n); t = buffered([&](substr b){ return format(b, "({};{})", k.i, k.u); }); i = 0; u = 0; q = unformat(csubstr(t.data(), t.size()), "({};{})", i, u); return r + N(q) + N((size_t)i) + N((size_t)u); }
    case 7: r = buffered([&](substr b){ return to_chars(b, fmt::left(k.i, k.n + 20, k.ch)); }) + buffered([&](substr b){ return to_chars(b, fmt::right(A, k.m + 10)); }) + buffered([&](substr b){ return to_chars(b, fmt::boolalpha(k.sub & 1)); }) + buffered([&](substr b){ return to_chars(b, fmt::right(fmt::hex(k.u), k.n, '_')); }); { bool v = false; r += N(from_chars(k.sub & 1 ? csubstr("true") : csubstr("0"), &v)) + N(v); } return r;
    case 8: { tl_sink = &r; char scratch[64]; substr b(scratch, 40 + k.n); size_t q = cat_dump<&sink_fn>(b, A, k.i, k.ch); q += catsep_dump<&sink_fn>(b, B, k.u, A, k.i); q += format_dump<&sink_fn>(b, C, k.i, A); std::string t; Sink sk = {&t}; q += cat_dump(sk, b, k.u, A); DumpResults d; for(int j = 0; j < 40 && !d.success_until(2); ++j) d = cat_dump_resume(sk, d, b.first(std::min<size_t>(b.len, 1 + (size_t)j)), A, k.i, B); DumpResults e = format_dump_resume<&sink_fn>(b, C, k.i, k.u); return r + "|" + t + N(q) + N(d.lastok) + N(e.lastok); }
    case 9: { r = N(A.find(k.ch)) + N(A.count(k.ch)) + N(A.first_of("ab")) + N(A.last_of("/.")) + N(A.first_not_of("a")) + N(A.last_not_of('b')); if(B.len) r += N(A.find(B)) + N(A.count(B)); r += N(A.begins_with(B)) + N(A.ends_with(k.ch)) + S(A.trim(" a")) + "|" + S(A.triml(k.ch)) + "|" + S(A.unquoted()) + "|" + S(A.stripl(B)) + "|" + S(A.pair_range_esc('\'', '\\')) + "|" + S(A.pair_range_nested('a', 'b')); auto fa = A.first_of_any("ab", "./"); return r + N(fa.which); }
    case 10: { for(csubstr x : A.split(k.ch)) r += S(x) + ";"; r += S(A.basename()) + "|" + S(A.dirname()) + "|" + S(A.extshort()) + "|" + S(A.extlong()) + "|" + S(A.pop_left(k.ch)) + "|" + S(A.pop_right(k.ch, true)) + "|" + S(A.gpop_left(k.ch)); return r; }
    case 11: { std::string t = k.a; substr e(&t[0], t.size()); if(t.empty()) return r; e.reverse(); r += t; e.toupper(); r += t; e.tolower(); size_t h = k.n % t.size(); e.reverse_sub(h, t.size() - h); r += t; r += N(e.replace('a', 'z')); r += N(e.replace("b/", '-')); r += t; substr x = e.erase(h, std::min(k.m, t.size() - h)); r += N(x.len) + S(x); std::string p = B.len ? k.b : "a", d(t.size() * 6 + 10, '#'); size_t q = csubstr(k.a.data(), k.a.size()).replace_all(substr(&d[0], d.size()), csubstr(p.data(), p.size()), C); if(q <= d.size()) r += d.substr(0, q); e.fill(k.ch); return r + t; }
    case 12: { std::string e = buffered([&](substr b){ return base64_encode(b, cblob(k.a.data(), k.a.size())); }); std::string o(k.a.size() + 4, '#'); size_t n = base64_decode(csubstr(e.data(), e.size()), blob(&o[0], o.size())); r = e + N(n) + o + N(base64_valid(csubstr(e.data(), e.size()))); return r + buffered([&](substr b){ return to_chars(b, fmt::cbase64(A)); }); }
    case 13: { char b[8] = {0}; size_t n = decode_code_point((uint8_t*)b, 8, (uint32_t)(k.u % 0x110000)); r = std::string(b, n); std::string h = buffered([&](substr q){ return write_hex(q, (uint32_t)(1 + k.u % 0x10ffff)); }); char b2[8] = {0}; return r + S(decode_code_point(substr(b2, 8), csubstr(h.data(), h.size()))); }
    case 14: { uint32_t bits = (uint32_t)k.u & 7; char b[64]; size_t n = bm2str<Col>(bits, b, sizeof b); r = std::string(b, n) + N(str2bm<Col>(b)); static const char *nm[] = {"red", "Col::green", "blue", "Col::all"}; r += N((size_t)str2e<Col>(nm[k.sub & 3])) + e2str<Col>(Col::green) + N(esyms<Col>().find("none") == nullptr); std::ostringstream ss; bm2stream<Col>(ss, bits); return r + ss.str(); }
    case 15: { r = N(hash_bytes(k.a.data(), k.a.size())); rng::splitmix x; x.seed(k.u); rng::xorshift y; y.seed(k.u); rng::pcg z; z.seed(k.u); x.discard(k.n); y.discard(k.m); for(int i = 0; i < 4; ++i) r += N(x()) + N(y()) + N(z()); return r; }
    case 16: { std::vector<int> v; for(size_t i = 0; i < k.n + 4; ++i) v.push_back((int)((k.u >> i) & 7)); spanrsl<int> p(v.data(), v.size()); spanrsl<int> q = p.subspan(1, k.n % 3 + 1); r = N(q.size()) + N(q.capacity()) + N(q.offset()) + N(q.original().size()) + N(p == q) + N(p < q) + N(p.is_subspan(q)); return r; }
    case 17: { // private blocks of the shared allocation functions and of a private arena
        size_t al = (size_t)1 << (k.sub + 2), n = 16 + k.n; char *p = (char*)aalloc(n, al); memset(p, k.ch, n); p = (char*)arealloc(p, n, n + k.m, al); for(size_t i = 0; i < n; ++i) r += p[i]; r += N((uintptr_t)p % al); afree(p);
        std::vector<int, allocator<int>> v; for(int i = 0; i < 20; ++i) v.push_back(i * (int)k.n); for(int x : v) r += N((size_t)x); char mem[512]; MemoryResourceLinear lin(mem, sizeof mem); { ScopedMemoryResource sc(&lin); allocator<int> a; int *q = a.allocate(k.n + 1); r += N((char*)q >= mem && (char*)(q + k.n + 1) <= mem + 512) + N(get_memory_resource() == &lin) + N(lin.size() >= (k.n + 1) * 4); a.deallocate(q, k.n + 1); } r += N(get_memory_resource() == (MemoryResource*)get_memory_resource_malloc());
        MemoryResourceCounts cn; { ScopedMemoryResource sc(&cn); small_allocator<int, 4> sa; int *q = sa.allocate(3), *w = sa.allocate(9); q[2] = 1; w[8] = 2; sa.deallocate(w, 9); sa.deallocate(q, 3); } r += N((size_t)cn.counts().total.allocs) + N((size_t)cn.counts().curr.size); return r; }
    case 18: {
        #if __cplusplus >= 201402L
        uint64_t u = k.u; std::string t = k.a.substr(0, 8); stdext::inplace_function<size_t(size_t), 64> f = [u, t](size_t x){ return (size_t)u + x + t.size(); }, g = f, h; h = std::move(f); g.swap(h); r = N(g(k.n)) + N(h(1)); g = nullptr; r += N((bool)g);
        #endif
        return r; }
    case 19: { cspan<char> a = type_name<std::vector<Col>>(), b = type_name<Call const*>(); return std::string(a.data(), a.size()) + std::string(b.data(), b.size()); }
    case 20: { std::string o; from_chars(A, &o); std::vector<char> v; from_chars(A, &v); r = o + std::string(v.begin(), v.end()) + S(to_csubstr(o)) + N(to_csubstr(v) == to_csubstr(o)) + buffered([&](substr b){ return to_chars(b, v); }); std::ostringstream ss; ss << A << B; return r + ss.str(); }
    default: { r = N(A == B) + N(A < B) + N(A >= C) + N(A == k.ch) + N(k.c < A) + N((size_t)(A.compare(B) < 0)) + N(A != k.b); std::vector<std::string> v(3); char raw[3 * sizeof(std::string)]; (void)raw; std::string *q = (std::string*)aalloc(sizeof(std::string) * 3, alignof(std::string)); construct_n(q, (size_t)3, k.a); for(int i = 0; i < 3; ++i) r += q[i]; destroy_n(q, (size_t)3); afree(q); char d[64]; mem_repeat(d, "abcd", 4, 16); r.append(d, 64); return r + N((size_t)msb(k.u | 1)) + N(ipow<uint64_t, uint64_t>(3, k.n)); }
    }
}
struct Team
{
    std::atomic<size_t> ready, mism; size_t T; explicit Team(size_t t) : ready(0), mism((size_t)-1), T(t) {}
    void go() { ++ready; while(ready.load() < T) std::this_thread::yield(); }
};
/** thread t runs lists[t % lists.size()] rep times */
static void concurrently(Src &s, std::vector<std::vector<Call>> const& lists, size_t T, size_t rep)
{
    std::vector<std::vector<std::string>> want; for(auto const& l : lists) { want.push_back(std::vector<std::string>()); for(auto const& c : l) want.back().push_back(run(c)); }
    for(size_t i = 0; i < lists.size(); ++i) for(size_t j = 0; j < lists[i].size(); ++j) PBT_CHECKM(run(lists[i][j]) == want[i][j], "call of kind %d gives a different result when repeated", lists[i][j].kind);
    Team tm(T); std::vector<std::thread> th; std::vector<std::string> got(T);
    for(size_t t = 0; t < T; ++t) th.push_back(std::thread([&, t]{
        size_t li = t % lists.size(); std::vector<Call> const& l = lists[li]; tm.go();
        for(size_t r = 0; r < rep; ++r) for(size_t i = 0; i < l.size(); ++i) { std::string g = run(l[i]); if(g != want[li][i]) { got[t] = g; size_t none = (size_t)-1; tm.mism.compare_exchange_strong(none, t * 1000 + i); return; } }
    }));
    for(auto &x : th) x.join();
    size_t m = tm.mism.load(); if(m == (size_t)-1) return;
    size_t t = m / 1000, i = m % 1000, li = t % lists.size(); PBT_CHECKM(false, "thread %zu of %zu: a call of kind %d gave %s; alone it gives %s", t, T, lists[li][i].kind, shown(got[t]).c_str(), shown(want[li][i]).c_str()); (void)s;
}
static std::vector<Call> gen_list(Src &s, size_t mx, std::string &d) { std::vector<Call> l; size_t n = 1 + s.draw(mx); int k = (int)s.draw(KINDS); bool one = s.coin(); for(size_t i = 0; i < n; ++i) { l.push_back(gen(s)); d += strf("%d:%d %s,", l.back().kind, l.back().sub, shown(l.back().a).c_str()); } (void)k; (void)one; return l; }
#ifdef __has_feature
#if __has_feature(thread_sanitizer)
#define P32_TSAN
#endif
#endif
#if defined(__SANITIZE_THREAD__) || defined(P32_TSAN)
enum { REP = 2 };
#else
enum { REP = 12 };
#endif
PBT_TEST(own_data, 3)
{   // every thread its own calls and arguments
    size_t T = 2 + s.draw(3); std::vector<std::vector<Call>> ls; std::string d; for(size_t i = 0; i < T; ++i) { ls.push_back(gen_list(s, 8, d)); d += " / "; } s.note(strf("%zu threads: ", T) + d); s.nontrivial(d); s.label("threads with their own data"); concurrently(s, ls, T, REP);
}
PBT_TEST(same_kind, 3)
{   // all threads in the same function with different arguments
    size_t T = 2 + s.draw(3), n = 1 + s.draw(4); Call base = gen(s); std::vector<std::vector<Call>> ls(T); std::string d; for(size_t i = 0; i < T; ++i) for(size_t j = 0; j < n; ++j) { Call c = gen(s); if(base.kind < 2 || base.kind > 4) { c.kind = base.kind; } else { c.kind = base.kind; c.a = base.a; if(i) c.a = c.a.substr(0, 1 + c.a.size() / (i + 1)); if(c.kind == 3 && c.a.empty()) c.a = "1"; } ls[i].push_back(c); d += strf("%d %s,", c.kind, shown(c.a).c_str()); }
    s.note(strf("%zu threads: ", T) + d); s.nontrivial(d); s.label("threads in the same function"); concurrently(s, ls, T, REP * 2);
}
PBT_TEST(shared_inputs, 2)
{   // all threads read the same arguments
    size_t T = 2 + s.draw(3); std::string d; std::vector<std::vector<Call>> ls(1, gen_list(s, 10, d)); s.note(strf("%zu threads share: ", T) + d); s.nontrivial(d); s.label("threads sharing their input"); concurrently(s, ls, T, REP);
}
// the installed memory resource belongs to the thread that installed it
struct Own : public MemoryResource
{
    std::thread::id who; size_t foreign = 0, n = 0, live = 0; Own() : who(std::this_thread::get_id()) {}
    void *do_allocate(size_t sz, size_t al, void*) override { if(std::this_thread::get_id() != who) ++foreign; ++n; ++live; void *p = nullptr; return posix_memalign(&p, std::max(al, sizeof(void*)), sz ? sz : 1) ? nullptr : p; }
    void do_deallocate(void *p, size_t, size_t) override { if(std::this_thread::get_id() != who) ++foreign; --live; free(p); }
    void *do_reallocate(void *p, size_t o, size_t n2, size_t al) override { void *q = do_allocate(n2, al, nullptr); memcpy(q, p, std::min(o, n2)); do_deallocate(p, o, al); return q; }
};
PBT_TEST(memory_resources, 2)
{
    size_t T = 2 + s.draw(3); std::vector<std::vector<int>> plan(T); std::string d; for(auto &p : plan) { size_t n = 1 + s.draw(8); for(size_t i = 0; i < n; ++i) { p.push_back((int)s.draw(5)); d += (char)('0' + p.back()); } d += ' '; }
    s.note("plans " + d); s.nontrivial(d + strf("%zu", T)); Own mine; bool inst = s.coin(); MemoryResource *before = get_memory_resource(); if(inst) set_memory_resource(&mine); MemoryResource *cur = get_memory_resource();
    Team tm(T); std::vector<std::string> err(T); std::vector<std::thread> th;
    for(size_t t = 0; t < T; ++t) th.push_back(std::thread([&, t]{
        MemoryResource *dflt = get_memory_resource_malloc(); Own a, b; tm.go(); MemoryResource *want = get_memory_resource(); if(want != dflt) { err[t] = "a new thread does not start with the default resource"; want = dflt; }
        for(int op : plan[t]) {
            if(get_memory_resource() != want) { err[t] = "the resource of this thread was changed by another"; break; } std::this_thread::yield();
            if(op == 0) set_memory_resource(want = &a); else if(op == 1) set_memory_resource(want = dflt);
            else if(op == 2) { ScopedMemoryResource sc(&b); std::vector<int, allocator<int>> v; for(int i = 0; i < 9; ++i) v.push_back(i); std::this_thread::yield(); if(get_memory_resource() != &b || b.live != 1) { err[t] = "the scoped resource of this thread is not in effect"; break; } }
            else { size_t n0 = a.n; allocator<char> al; char *p = al.allocate(20); memset(p, (int)t, 20); std::this_thread::yield(); p = al.reallocate(p, 20, 50); for(int i = 0; i < 20; ++i) if(p[i] != (char)t) err[t] = "a block changed"; al.deallocate(p, 50); if((want == &a) != (a.n != n0)) { err[t] = "the allocation was not served by this thread's resource"; break; } }
        }
        if(a.foreign || b.foreign) err[t] = "another thread used the resource of this one"; if(a.live || b.live) err[t] = "blocks left"; set_memory_resource(dflt);
    }));
    for(auto &x : th) x.join();
    PBT_CHECKM(get_memory_resource() == cur, "the resource of the first thread was changed by another"); set_memory_resource(before); PBT_CHECK(mine.foreign == 0);
    for(size_t t = 0; t < T; ++t) PBT_CHECKM(err[t].empty(), "thread %zu: %s", t, err[t].c_str());
}
