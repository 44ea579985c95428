// A small choice-sequence property-testing engine (C++11).
//
// * every random decision of a case goes through Src::draw(n), which records
//   the choice; a case is therefore fully described by its choice sequence,
//   and shrinking works on that sequence (delete chunks, lower values), for
//   plain values and for operation histories alike.
// * cases run in forked workers, so a sanitizer abort, a signal, a hang or an
//   unexpected library error is caught, shrunk and replayed like a failed check.
#ifndef PBT_HPP_
#define PBT_HPP_
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <string>
#include <vector>
#include <algorithm>
#include <limits>
#include <type_traits>

#if defined(__SANITIZE_ADDRESS__)
#   define PBT_ASAN 1
#elif defined(__has_feature)
#   if __has_feature(address_sanitizer)
#       define PBT_ASAN 1
#   endif
#endif
#ifndef PBT_ASAN
#   define PBT_ASAN 0
#endif

namespace pbt {

inline uint64_t mix64(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(const char *s, size_t n, uint64_t h=0)
{
    for(size_t i = 0; i < n; ++i) h = mix64(h ^ (unsigned char)s[i]);
    return mix64(h ^ n);
}
inline uint64_t hash_str(std::string const& s, uint64_t h=0) { return hash_str(s.data(), s.size(), h); }

std::string strf(const char *fmt, ...) __attribute__((format(printf,1,2)));
std::string shown(const char *s, size_t n);
inline std::string shown(std::string const& s) { return shown(s.data(), s.size()); }

[[noreturn]] void fail(std::string const& msg);

struct Src
{
    // mode
    bool replaying;
    bool verbose;      // collect notes
    uint64_t state;
    const uint64_t *in; size_t in_n; size_t pos;
    // case info
    uint64_t case_index;
    bool is_nontrivial;
    uint64_t h;
    std::string notes;

    uint64_t raw();
    /** uniform in [0,n); n==0 means the full 64 bit range. simplest is 0 */
    uint64_t draw(uint64_t n);
    bool coin() { return draw(2) != 0; }
    /** true with probability num/den; shrinks to false */
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    /** inclusive range, shrinks to lo */
    size_t range(size_t lo, size_t hi) { return lo + (size_t)draw((uint64_t)(hi - lo) + 1u); }
    int64_t irange(int64_t lo, int64_t hi) { return (int64_t)((uint64_t)lo + draw((uint64_t)hi - (uint64_t)lo + 1u)); }
    /** a length, biased to small, bounded by max */
    size_t len(size_t max)
    {
        size_t m = max;
        switch(draw(8)) {
            case 0: case 1: case 2: m = std::min<size_t>(max, 4); break;
            case 3: case 4: m = std::min<size_t>(max, 10); break;
            case 5: case 6: m = std::min<size_t>(max, 4 + (size_t)draw(60)); break;
            default: break;
        }
        return (size_t)draw((uint64_t)m + 1u);
    }
    template<class T, size_t N> T const& pick(T const (&arr)[N]) { return arr[draw(N)]; }
    template<class T> T const& pick(std::vector<T> const& v) { return v[draw(v.size())]; }
    void note(std::string const& s) { if(verbose) { if(!notes.empty()) notes += "; "; notes += s; } }
    /** mark the case non-trivial; the key makes it distinct */
    void nontrivial(uint64_t key) { is_nontrivial = true; h = mix64(h ^ key); }
    void nontrivial(std::string const& key) { nontrivial(hash_str(key)); }
    /** count an event class */
    void label(const char *name);

    // common generators
    std::string str(size_t maxlen, const char *alphabet);   // alphabet==nullptr: all bytes
    std::string bytes(size_t maxlen) { return str(maxlen, nullptr); }
    /** a size next to where a narrow counter or a fixed buffer would give out */
    size_t edge_size(size_t lim) { static const size_t at[] = {64, 128, 256, 512, 1024, 4096, 32768, 65536}; size_t n = 1; while(n < 8 && at[n] <= lim) ++n; size_t k = (size_t)draw(n); if(k > 4) k = chance(1, 4) ? k : (size_t)draw(5); return at[k] - 4 + (size_t)draw(9); }
    /** now and then repeats a piece of the text until it is as long as some edge_size() */
    std::string stretch(std::string t, size_t lim = 70000)
    {
        if(!chance(1, 48)) return t;
        size_t to = edge_size(lim); if(t.empty()) t = "a";
        size_t b = (size_t)draw(t.size()), n = 1 + (size_t)draw(std::min<size_t>(4, t.size() - b)); std::string piece = t.substr(b, n), ins;
        while(t.size() + ins.size() < to) ins += piece;
        if(t.size() + ins.size() > to && ins.size() >= t.size() + ins.size() - to) ins.resize(to - t.size());
        t.insert(b, ins); return t;
    }
    uint64_t u64();         // boundary-biased
    template<class T> T integer()
    {
        typedef typename std::make_unsigned<T>::type U;
        uint64_t v;
        switch(draw(7)) {
            case 0: v = draw(20); break;
            case 1: v = (uint64_t)(0) - draw(20); break;
            case 2: v = (uint64_t)std::numeric_limits<T>::max() - draw(20); break;
            case 3: v = (uint64_t)std::numeric_limits<T>::min() + draw(20); break;
            case 4: v = draw(0); break;
            default: v = u64(); break;
        }
        return (T)(U)v;
    }
};

typedef void (*test_fn)(Src &s);
struct Test
{
    const char *name;
    test_fn fn;
    uint64_t weight;     // random: relative number of cases; enumerated: 0
    uint64_t enum_count; // >0: enumerate the first choice
    bool thorough_only;
};
int register_test(Test t);
#define PBT_TEST(name_, weight_) \
    static void pbt_##name_(pbt::Src &s); \
    static int pbt_reg_##name_ = pbt::register_test(pbt::Test{#name_, &pbt_##name_, weight_, 0, false}); \
    static void pbt_##name_(pbt::Src &s)
/** exhaustively enumerates the first draw(count) of the case */
#define PBT_ENUM(name_, count_) \
    static void pbt_##name_(pbt::Src &s); \
    static int pbt_reg_##name_ = pbt::register_test(pbt::Test{#name_, &pbt_##name_, 0, count_, false}); \
    static void pbt_##name_(pbt::Src &s)
#define PBT_ENUM_THOROUGH(name_, count_) \
    static void pbt_##name_(pbt::Src &s); \
    static int pbt_reg_##name_ = pbt::register_test(pbt::Test{#name_, &pbt_##name_, 0, count_, true}); \
    static void pbt_##name_(pbt::Src &s)

[[noreturn]] void failf(const char *file, int line, const char *cond, const char *fmt, ...) __attribute__((format(printf,4,5), cold, noinline));
#define PBT_CHECK(cond) do { if(__builtin_expect(!(cond), 0)) pbt::failf(__FILE__, __LINE__, #cond, " "); } while(0)
#define PBT_CHECKM(cond, ...) do { if(__builtin_expect(!(cond), 0)) pbt::failf(__FILE__, __LINE__, #cond, __VA_ARGS__); } while(0)

/** a cheap type-erased callable reference, to keep harness code small */
template<class Sig> struct fref;
template<class R, class ...A> struct fref<R(A...)>
{
    void const* obj; R (*call)(void const*, A...);
    template<class F> fref(F const& f) : obj(&f), call([](void const* o, A... a) -> R { return (*(F const*)o)(a...); }) {}
    R operator() (A... a) const { return call(obj, a...); }
};

// ---- library error capture (installed as the c4 error callback by main)
extern jmp_buf err_jmp;
extern volatile bool err_expected;
extern std::string *err_msg;
/** run f; true if it raised a library error */
template<class F> __attribute__((noinline)) void call_(F const& f) { f(); }
template<class F> __attribute__((noinline)) bool raises(F const& f)
{
    err_expected = true;
    if(setjmp(err_jmp) == 0) {
        call_(f);
        err_expected = false;
        return false;
    }
    err_expected = false;
    return true;
}

// ---- guarded buffers
/** a block of exactly n chars. Under ASan it is an exact heap block; otherwise
 * it has guard zones on both sides which check() verifies. `guard` also is the
 * adversarial content an over-read would see. */
struct Buf
{
    char *base; char *ptr; size_t len; char guard;
    enum { G = 64 };
    explicit Buf(size_t n, char fill='\x5a', char guard_='7') { init(n, guard_); if(n) memset(ptr, fill, n); }
    explicit Buf(std::string const& s, char guard_='7') { init(s.size(), guard_); if(len) memcpy(ptr, s.data(), len); }
    void init(size_t n, char g)
    {
        len = n; guard = g;
        #if PBT_ASAN
        base = (char*)malloc(n ? n : 1); // n==0: one byte, but never legally touched: pointer is past it
        ptr = n ? base : base + 1;
        #else
        base = (char*)malloc(n + 2*G);
        memset(base, g, n + 2*G);
        ptr = base + G;
        #endif
    }
    ~Buf() { free(base); }
    void check(const char *what="") const
    {
        #if !PBT_ASAN
        for(size_t i = 0; i < G; ++i)
            if(base[i] != guard || ptr[len + i] != guard)
                fail(strf("write outside the buffer: %s", what));
        #else
        (void)what;
        #endif
    }
    std::string str() const { return std::string(ptr, len); }
    std::string first(size_t n) const { return std::string(ptr, n); }
    Buf(Buf const&) = delete; Buf& operator=(Buf const&) = delete;
};

} // namespace pbt
// call fn(..., a[0], ..., a[n-1]) with as many arguments as the vector a has, at most 12
#define PBT_SPREAD(a, fn, ...) \
    if((a).empty()) return fn(__VA_ARGS__); \
    PBT_SPREAD1(a, fn, __VA_ARGS__)
#define PBT_SPREAD1(a, fn, ...) \
    switch((a).size()) { \
    case 1: return fn(__VA_ARGS__, (a)[0]); \
    case 2: return fn(__VA_ARGS__, (a)[0], (a)[1]); \
    case 3: return fn(__VA_ARGS__, (a)[0], (a)[1], (a)[2]); \
    case 4: return fn(__VA_ARGS__, (a)[0], (a)[1], (a)[2], (a)[3]); \
    case 5: return fn(__VA_ARGS__, (a)[0], (a)[1], (a)[2], (a)[3], (a)[4]); \
    case 6: return fn(__VA_ARGS__, (a)[0], (a)[1], (a)[2], (a)[3], (a)[4], (a)[5]); \
    case 7: return fn(__VA_ARGS__, (a)[0], (a)[1], (a)[2], (a)[3], (a)[4], (a)[5], (a)[6]); \
    case 8: return fn(__VA_ARGS__, (a)[0], (a)[1], (a)[2], (a)[3], (a)[4], (a)[5], (a)[6], (a)[7]); \
    case 9: return fn(__VA_ARGS__, (a)[0], (a)[1], (a)[2], (a)[3], (a)[4], (a)[5], (a)[6], (a)[7], (a)[8]); \
    case 10: return fn(__VA_ARGS__, (a)[0], (a)[1], (a)[2], (a)[3], (a)[4], (a)[5], (a)[6], (a)[7], (a)[8], (a)[9]); \
    case 11: return fn(__VA_ARGS__, (a)[0], (a)[1], (a)[2], (a)[3], (a)[4], (a)[5], (a)[6], (a)[7], (a)[8], (a)[9], (a)[10]); \
    default: return fn(__VA_ARGS__, (a)[0], (a)[1], (a)[2], (a)[3], (a)[4], (a)[5], (a)[6], (a)[7], (a)[8], (a)[9], (a)[10], (a)[11]); }
#endif
