// P25: errors reach the installed handler, with the right message; scopes restore the settings
#include "pbt.hpp"
#include <c4/error.hpp>
#include <c4/substr.hpp>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
using namespace c4; using namespace pbt;
static jmp_buf jb; static int calls[3]; static std::string *got; static size_t got_len; static bool got_term; static int mode; // 0 longjmp, 1 throw, 2 return
struct Thrown { int cb; };
static void on(int k, const char *msg, size_t len) { ++calls[k]; got_len = len; got_term = msg[len] == '\0'; got->assign(msg, len); if(mode == 0) longjmp(jb, k + 1); if(mode == 1) throw Thrown{k}; }
static void cb0(const char *m, size_t n) { on(0, m, n); } static void cb1(const char *m, size_t n) { on(1, m, n); } static void cb2(const char *m, size_t n) { on(2, m, n); }
static error_callback_type const cbs[3] = {cb0, cb1, cb2};
struct Restore { error_flags f; error_callback_type c; Restore() : f(get_error_flags()), c(get_error_callback()) { if(!got) got = new std::string(); calls[0] = calls[1] = calls[2] = 0; mode = 0; got->clear(); } ~Restore() { set_error_flags(f); set_error_callback(c); } };
/** run f with stderr going to memory; returns what was written */
struct Capture { int saved, fd; Capture() { fflush(stderr); saved = dup(2); fd = memfd_create("err", 0); dup2(fd, 2); } std::string done() { fflush(stderr); dup2(saved, 2); close(saved); off_t n = lseek(fd, 0, SEEK_END); std::string r((size_t)n, '\0'); if(n) { lseek(fd, 0, SEEK_SET); if(read(fd, &r[0], (size_t)n) != n) r.clear(); } close(fd); return r; } };
/** raise f, expecting handler k to get `want` (before truncation) */
template<class F> void expect_raise(F const& f, int k, std::string const& want, const char *what)
{
    calls[0] = calls[1] = calls[2] = 0; mode = 0; volatile bool returned = false;
    if(setjmp(jb) == 0) { call_(f); returned = true; }
    PBT_CHECKM(!returned, "%s: raising the error returned to the caller", what); PBT_CHECKM(calls[0] + calls[1] + calls[2] == 1 && calls[k] == 1, "%s: handlers called %d,%d,%d times instead of the installed one (%d) once", what, calls[0], calls[1], calls[2], k);
    std::string w = want.substr(0, 1023); PBT_CHECKM(*got == w, "%s: the message is %s, expected %s", what, shown(*got).c_str(), shown(w).c_str()); PBT_CHECKM(got_term, "%s: the message is not terminated at its length", what);
}
template<class F> bool silent(F const& f) { calls[0] = calls[1] = calls[2] = 0; mode = 0; if(setjmp(jb) == 0) call_(f); return calls[0] + calls[1] + calls[2] == 0; }
static std::string text(Src &s) { std::string t = s.str(s.chance(1, 4) ? 3000 : 60, "abc %ds\n1xyzn"); if(s.chance(1, 4)) { size_t n = 1018 + (size_t)s.draw(10); std::string r; while(r.size() < n) r += t.empty() ? "k" : t; t = r.substr(0, n); } return t; }
PBT_TEST(messages, 6)
{
    Restore rs; int k = (int)s.draw(3); bool log = s.chance(1, 8); error_flags fl = ON_ERROR_CALLBACK | (log ? (error_flags)ON_ERROR_LOG : 0u) | (s.coin() ? (error_flags)ON_ERROR_ABORT : 0u) | (s.coin() ? (error_flags)ON_ERROR_DEBUGBREAK : 0u); set_error_flags(fl); set_error_callback(cbs[k]); PBT_CHECK(get_error_flags() == fl && get_error_callback() == cbs[k]);
    std::string t = text(s); long long v = s.integer<long long>(); unsigned u = (unsigned)s.draw(100000); double d = (double)s.irange(-5000, 5000) / 8; size_t op = s.draw(9); s.note(strf("op %zu flags %u message of %zu characters", op, fl, t.size())); s.nontrivial(t); s.nontrivial(op * 64 + fl); std::string logged, want; const char *tc = t.c_str(); Capture *c = log || s.chance(1, 16) ? new Capture : nullptr;
    switch(op) {
    case 0: want = t; expect_raise([&]{ C4_ERROR("%s", tc); }, k, want, "C4_ERROR"); break;
    case 1: want = strf("a%lldb%uc%s|%.3f", v, u, tc, d); expect_raise([&]{ C4_ERROR("a%lldb%uc%s|%.3f", v, u, tc, d); }, k, want, "C4_ERROR with arguments"); break;
    case 2: want = strf("check failed: v == v + 1"); expect_raise([&]{ C4_CHECK(v == v + 1); }, k, want, "C4_CHECK"); break;
    case 3: want = "check failed: (v%si == 9 && u%10u == 11)"; { long long si = 5; expect_raise([&]{ C4_CHECK((v%si == 9 && u%10u == 11)); }, k, want, "C4_CHECK with a remainder"); } break;
    case 4: want = strf("check failed: u == u + 1\n%s is %u", tc, u); expect_raise([&]{ C4_CHECK_MSG(u == u + 1, "%s is %u", tc, u); }, k, want, "C4_CHECK_MSG"); break;
    case 5: { long long si = 5; want = strf("check failed: v%%si == 9\n%s is %u", tc, u); expect_raise([&]{ C4_CHECK_MSG(v%si == 9, "%s is %u", tc, u); }, k, want, "C4_CHECK_MSG with a remainder"); break; }
    case 6: want = "NOT IMPLEMENTED"; expect_raise([&]{ C4_NOT_IMPLEMENTED(); }, k, want, "C4_NOT_IMPLEMENTED"); break;
    case 7: want = strf("NOT IMPLEMENTED: %s", tc); expect_raise([&]{ C4_NOT_IMPLEMENTED_IF_MSG(v == v, "%s", tc); }, k, want, "C4_NOT_IMPLEMENTED_IF_MSG"); break;
    default: want = strf("never reach this point: %s %u", tc, u); expect_raise([&]{ C4_NEVER_REACH_MSG("%s %u", tc, u); }, k, want, "C4_NEVER_REACH_MSG"); break;
    }
    if(c) { logged = c->done(); delete c; if(!(fl & ON_ERROR_LOG)) { PBT_CHECKM(logged.empty(), "logging is off, but stderr had %s", shown(logged.substr(0, 200)).c_str()); return; } PBT_CHECKM(logged.find(want.substr(0, 1023)) != std::string::npos, "the message was not logged; stderr had %s", shown(logged.substr(0, 200)).c_str()); }
}
PBT_TEST(no_false_errors, 3)
{   // satisfied checks are silent and evaluate their condition once; assertions depend on the build
    Restore rs; set_error_flags(ON_ERROR_CALLBACK); set_error_callback(cbs[s.draw(3)]); int n = (int)s.irange(1, 1000), ev = 0; auto yes = [&]{ ++ev; return true; }; auto no = [&]{ ++ev; return false; }; s.nontrivial((uint64_t)n); s.note(strf("%d", n));
    PBT_CHECK(silent([&]{ C4_CHECK(yes()); }) && ev == 1); ev = 0; PBT_CHECK(silent([&]{ C4_CHECK_MSG(yes(), "x%d", n); }) && ev == 1); ev = 0; PBT_CHECK(silent([&]{ C4_NOT_IMPLEMENTED_IF(no()); }) && ev == 1); ev = 0; PBT_CHECK(silent([&]{ C4_NOT_IMPLEMENTED_IF_MSG(no(), "a"); }) && ev == 1); ev = 0;
    PBT_CHECK(silent([&]{ if(n > 0) C4_CHECK(n > 0); else C4_ERROR("bad"); }));
    PBT_CHECK(!silent([&]{ C4_CHECK(no()); }) && ev == 1); ev = 0;
    #if defined(NDEBUG) && !defined(C4_FORCED_ASSERT)
    const bool on = false;
    #else
    const bool on = true;
    #endif
    PBT_CHECK(silent([&]{ C4_ASSERT(no()); }) == !on && ev == (int)on); ev = 0; PBT_CHECK(silent([&]{ C4_XASSERT(no()); }) == !on && ev == (int)on); ev = 0; PBT_CHECK(silent([&]{ C4_ASSERT_MSG(no(), "m%d", n); }) == !on && ev == (int)on); if(on) PBT_CHECK(*got == strf("check failed: no()\nm%d", n)); ev = 0;
    PBT_CHECK(silent([&]{ C4_ASSERT(yes()); C4_XASSERT(yes()); C4_ASSERT_MSG(yes(), "a"); C4_XASSERT_MSG(yes(), "a"); C4_ASSERT_IF(false, no()); C4_ASSERT_IF(true, yes()); }) && ev == (on ? 5 : 0)); ev = 0; PBT_CHECK(silent([&]{ C4_ASSERT_IF(true, no()); }) == !on);
    // an unmet precondition of the library is reported in checked builds
    char buf[8] = {}; substr ss(buf, (size_t)s.draw(9)); size_t i = ss.len + s.draw(5); if(on) { PBT_CHECKM(!silent([&]{ volatile char c = ss[i]; (void)c; }), "operator[] out of range was not reported"); PBT_CHECK(!silent([&]{ volatile size_t l = ss.sub(i + 1).len; (void)l; })); } if(ss.len) PBT_CHECK(silent([&]{ volatile char c = ss[ss.len - 1]; (void)c; ss.sub(ss.len); ss.first(ss.len); }));
}
struct Set { error_flags f; int cb; };
static void agree(Set m) { PBT_CHECKM(get_error_flags() == m.f, "the flags are %u, expected %u", get_error_flags(), m.f); PBT_CHECKM(get_error_callback() == (m.cb < 0 ? (error_callback_type)nullptr : cbs[m.cb]), "the callback is not the expected one"); }
static error_flags gen_flags(Src &s) { return (error_flags)s.draw(16) & ~(error_flags)ON_ERROR_LOG; }
static void scopes(Src &s, int depth, Set m)
{
    size_t n = s.draw(4);
    for(size_t i = 0; i < n; ++i) {
        agree(m); size_t op = s.draw(depth > 4 ? 3 : 8); s.nontrivial(op * 11 + n);
        if(op == 0) { if((m.f & ON_ERROR_CALLBACK) && m.cb >= 0) { s.note("raise"); expect_raise([&]{ C4_ERROR("depth %d", depth); }, m.cb, strf("depth %d", depth), "C4_ERROR in a scope"); } }
        else if(op == 1) { m.f = gen_flags(s); set_error_flags(m.f); s.note("set flags"); }
        else if(op == 2) { m.cb = (int)s.draw(4) - 1; set_error_callback(m.cb < 0 ? nullptr : cbs[m.cb]); s.note("set callback"); }
        else {
            Set in = m; bool exc = s.chance(1, 3); error_flags f = gen_flags(s); int c = (int)s.draw(4) - 1; error_callback_type cp = c < 0 ? nullptr : cbs[c]; s.note(exc ? "{!" : "{");
            try {
                if(op < 5) { ScopedErrorSettings sc(cp); in.cb = c; agree(in); scopes(s, depth + 1, in); if(exc) { if((get_error_flags() & ON_ERROR_CALLBACK) && get_error_callback()) { mode = 1; C4_ERROR("thrown"); } throw Thrown{9}; } }
                else if(op == 5) { ScopedErrorSettings sc(f); in.f = f; agree(in); scopes(s, depth + 1, in); if(exc) throw Thrown{9}; }
                else { ScopedErrorSettings sc(f, cp); in.f = f; in.cb = c; agree(in); scopes(s, depth + 1, in); if(exc) { if((get_error_flags() & ON_ERROR_CALLBACK) && get_error_callback()) { mode = 1; C4_CHECK(false); } throw Thrown{9}; } }
            } catch(Thrown const&) { mode = 0; }
            s.note("}"); agree(m);
        }
    }
}
PBT_TEST(scope_nesting, 4) { Restore rs; Set m{gen_flags(s), (int)s.draw(4) - 1}; set_error_flags(m.f); set_error_callback(m.cb < 0 ? nullptr : cbs[m.cb]); s.nontrivial(m.f * 4 + (unsigned)(m.cb + 1)); s.note(strf("flags %u callback %d", m.f, m.cb)); scopes(s, 0, m); }
PBT_TEST(location, 1)
{   // the log names the place which raised the error
    Restore rs; set_error_flags(ON_ERROR_CALLBACK | ON_ERROR_LOG); set_error_callback(cbs[s.draw(3)]); std::string t = s.str(20, "abc%d"); const char *tc = t.c_str(); s.nontrivial(t); s.note(shown(t)); size_t op = s.draw(3); volatile int line = 0; Capture c; mode = 0;
    if(setjmp(jb) == 0) {
        if(op == 0) { line = __LINE__; C4_ERROR("%s", tc); } else if(op == 1) { line = __LINE__; C4_CHECK_MSG(tc == nullptr, "%s", tc); } else { line = __LINE__; C4_WARNING("%s", tc); }
    }
    std::string o = c.done(); PBT_CHECKM(o.find(strf("%s:%d:", __FILE__, (int)line)) != std::string::npos, "the log does not name %s:%d: %s", __FILE__, (int)line, shown(o).c_str());
}
#if defined(C4_EXCEPTIONS_ENABLED) && defined(C4_ERROR_THROWS_EXCEPTION)
#include <stdexcept>
PBT_TEST(exceptions, 4)
{   // with exceptions enabled and requested, the error is thrown with its message, after the handler (if any) returned
    Restore rs; bool cbk = s.coin(); error_flags fl = ON_ERROR_THROW | (s.coin() ? (error_flags)ON_ERROR_ABORT : 0u) | (cbk ? (error_flags)ON_ERROR_CALLBACK : 0u) | (s.chance(1, 8) ? (error_flags)ON_ERROR_LOG : 0u); int k = (int)s.draw(4) - 1; set_error_flags(fl); set_error_callback(k < 0 ? nullptr : cbs[k]); mode = 2;
    std::string t = text(s); const char *tc = t.c_str(); unsigned u = (unsigned)s.draw(1000); std::string want; volatile bool returned = false; std::string what; bool caught = false; size_t op = s.draw(3); s.nontrivial(t); s.nontrivial(fl * 8 + op); s.note(strf("flags %u callback %d message of %zu characters", fl, k, t.size())); Capture c;
    try { if(op == 0) { want = t; C4_ERROR("%s", tc); } else if(op == 1) { want = strf("check failed: u == 1000\n%s %u", tc, u); C4_CHECK_MSG(u == 1000, "%s %u", tc, u); } else { want = "NOT IMPLEMENTED: " + t; C4_NOT_IMPLEMENTED_MSG("%s", tc); } returned = true; }
    catch(std::runtime_error const& e) { caught = true; what = e.what(); }
    c.done(); PBT_CHECKM(!returned && caught, "the error was not thrown"); want = want.substr(0, 1023); PBT_CHECKM(what == want, "the exception says %s, expected %s", shown(what).c_str(), shown(want).c_str()); PBT_CHECKM(calls[0] + calls[1] + calls[2] == (cbk && k >= 0), "the handlers were called %d times", calls[0] + calls[1] + calls[2]); if(cbk && k >= 0) PBT_CHECK(calls[k] == 1 && *got == want);
}
const size_t num_flags = 16;
#else
const size_t num_flags = 32; // the exception flag is without effect
#endif
static int pipefd;
static void cb_return(const char *m, size_t n) { char b[2] = {'C', (char)(n & 0x7f)}; if(write(pipefd, b, 2) != 2) _exit(3); }
PBT_ENUM(does_not_return, num_flags * 3)
{   // in a child: when no handler diverts control the process ends; the handler was called at most once, and only if enabled
    size_t k = s.draw(num_flags * 3); error_flags f = (error_flags)(k % num_flags); int c = (int)(k / num_flags); s.nontrivial(k); s.note(strf("flags %u, %s", f, c == 0 ? "no callback" : c == 1 ? "callback returning" : "callback returning, failed check")); int p[2]; if(pipe(p)) return; fflush(stderr); pid_t pid = fork();
    if(pid == 0) { close(p[0]); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); dup2(nul, 1); signal(SIGABRT, SIG_DFL); pipefd = p[1]; set_error_flags(f); set_error_callback(c ? cb_return : nullptr); 
        #if defined(C4_EXCEPTIONS_ENABLED) && defined(C4_ERROR_THROWS_EXCEPTION)
        try { if(c == 2) C4_CHECK(k == 999); else C4_ERROR("bye"); } catch(...) { if(write(p[1], "T", 1) != 1) _exit(5); _exit(0); }
        #else
        if(c == 2) C4_CHECK(k == 999); else C4_ERROR("bye");
        #endif
        if(write(p[1], "R", 1) != 1) _exit(4); _exit(0); }
    close(p[1]); char b[64]; size_t n = 0; for(;;) { ssize_t r = read(p[0], b + n, sizeof(b) - n); if(r <= 0) break; n += (size_t)r; } close(p[0]); int st = 0; waitpid(pid, &st, 0); std::string o(b, n); size_t len = c == 2 ? strlen("check failed: k == 999") : 3; std::string want = c && (f & ON_ERROR_CALLBACK) ? std::string("C") + (char)len : std::string();
    PBT_CHECKM(o == want, "flags %u: the child reported %s, expected %s (C: callback, R: the error returned, T: it was thrown although that was not asked for)", f, shown(o).c_str(), shown(want).c_str()); PBT_CHECKM(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "flags %u: the error did not abort the process (status %d)", f, st);
}
PBT_TEST(warnings, 1)
{
    Restore rs; set_error_flags(ON_ERROR_CALLBACK | ON_ERROR_LOG); set_error_callback(cbs[s.draw(3)]); std::string t = text(s); s.nontrivial(t); s.note(strf("warning of %zu characters", t.size())); const char *tc = t.c_str(); Capture c; bool q = silent([&]{ C4_WARNING("%s", tc); }); std::string o = c.done(); PBT_CHECKM(q, "a warning invoked the error handler"); PBT_CHECKM(o.find(t.substr(0, 1023)) != std::string::npos, "the warning was not logged");
}
