// engine of pbt.hpp: registry, forked workers, shrinking, replay, statistics
#include "pbt.hpp"
#include <c4/error.hpp>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <map>
#include <unordered_set>

#ifdef PBT_COVERAGE // tools/coverage.py: which lines of /repo/src the checks execute
extern "C" int __llvm_profile_write_file(void);
#endif
namespace pbt {

jmp_buf err_jmp;
volatile bool err_expected = false;
static std::string s_errmsg;
std::string *err_msg = &s_errmsg;

std::string strf(const char *fmt, ...)
{
    char buf[4096];
    va_list a; va_start(a, fmt);
    int n = vsnprintf(buf, sizeof(buf), fmt, a);
    va_end(a);
    if(n < 0) n = 0;
    return std::string(buf, std::min<size_t>((size_t)n, sizeof(buf)-1));
}
std::string shown(const char *s, size_t n)
{
    std::string r = "\"";
    for(size_t i = 0; i < n; ++i) {
        unsigned char c = (unsigned char)s[i];
        if(c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if(c >= 32 && c < 127) r += (char)c;
        else r += strf("\\x%02x", c);
    }
    return r + "\"";
}

struct Shared
{
    volatile uint64_t target, index, progress, done;
    volatile uint64_t evaluations, nontrivial;
    uint64_t n_rec; uint64_t rec[1 << 16];
    char msg[8192];
    char notes[8192];
    // statistics
    uint64_t n_hashes; uint64_t hashes[1 << 19];
    uint64_t hashes_dropped;
    uint64_t tgt_eval[64], tgt_nt[64];
    uint64_t n_labels; char label_name[128][48]; uint64_t label_count[128];
    char samples[48][600]; uint64_t n_samples;
};
static Shared *g = nullptr;      // of this process (worker or child)
static std::vector<Test> *g_tests;

int register_test(Test t)
{
    if(!g_tests) g_tests = new std::vector<Test>;
    g_tests->push_back(t);
    return 0;
}

void fail(std::string const& msg)
{
    if(g) {
        size_t n = std::min(msg.size(), sizeof(g->msg) - 1);
        memcpy(g->msg, msg.data(), n); g->msg[n] = 0;
    }
#ifdef PBT_LIBFUZZER
    fprintf(stderr, "PBT-FAIL %s\n", msg.c_str());
    abort();
#endif
    _exit(77);
}

void failf(const char *file, int line, const char *cond, const char *fmt, ...)
{
    char buf[4096];
    va_list a; va_start(a, fmt);
    vsnprintf(buf, sizeof(buf), fmt, a);
    va_end(a);
    const char *base = strrchr(file, '/');
    fail(strf("%s:%d: check failed: %.600s: ", base ? base + 1 : file, line, cond) + buf);
}

static void on_c4_error(const char *msg, size_t len)
{
    if(err_expected) {
        err_msg->assign(msg, len);
        longjmp(err_jmp, 1);
    }
    fail("unexpected library error: " + std::string(msg, len));
}

uint64_t Src::raw()
{
    state += 0x9E3779B97F4A7C15ull;
    uint64_t z = state;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t Src::draw(uint64_t n)
{
    uint64_t v;
    if(pos < in_n) {
        v = in[pos];
        if(n && v >= n) v %= n;
    } else if(replaying) {
        v = 0;
    } else {
        v = raw();
        if(n) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
    }
    ++pos;
    if(g && g->n_rec < sizeof(g->rec)/sizeof(g->rec[0])) g->rec[g->n_rec++] = v;
    return v;
}
void Src::label(const char *name)
{
    if(!g) return;
    for(uint64_t i = 0; i < g->n_labels; ++i)
        if(strncmp(g->label_name[i], name, 47) == 0) { g->label_count[i]++; return; }
    if(g->n_labels < 128) {
        strncpy(g->label_name[g->n_labels], name, 47);
        g->label_count[g->n_labels++] = 1;
    }
}
std::string Src::str(size_t maxlen, const char *alphabet)
{
    size_t n = len(maxlen);
    std::string r(n, '\0');
    size_t na = alphabet ? strlen(alphabet) : 0;
    for(size_t i = 0; i < n; ++i)
        r[i] = alphabet ? alphabet[draw(na)] : (char)(unsigned char)draw(256);
    return r;
}
uint64_t Src::u64()
{
    switch(draw(8)) {
        case 0: { unsigned sh = (unsigned)draw(64); return ((uint64_t)1 << sh) + draw(5) - 2u; }
        case 1: { uint64_t p = 1; unsigned e = (unsigned)draw(20); for(unsigned i = 0; i < e; ++i) p *= 10u; return p + draw(5) - 2u; }
        case 2: { uint64_t p = 1; unsigned e = (unsigned)draw(22); for(unsigned i = 0; i < e; ++i) p *= 8u; return p + draw(5) - 2u; }
        case 3: { unsigned sh = (unsigned)draw(64); return draw(0) >> sh; }
        case 4: { // decimal with repeated digits
            uint64_t v = 0; unsigned e = 1 + (unsigned)draw(20); uint64_t d = draw(10);
            for(unsigned i = 0; i < e; ++i) { v = v * 10u + (draw(4) ? d : draw(10)); } return v; }
        case 5: return draw(300);
        default: return draw(0);
    }
}

// --------------------------------------------------------------------------
static uint64_t g_seed = 1;

static void run_case(Test const& t, uint64_t ti, uint64_t index, const uint64_t *in, size_t in_n, bool replay, bool verbose, Src *out)
{
    Src s;
    s.replaying = replay;
    s.verbose = verbose;
    s.state = mix64(mix64(g_seed * 1000003u + hash_str(t.name, strlen(t.name))) ^ mix64(index));
    s.in = in; s.in_n = in_n; s.pos = 0;
    s.case_index = index;
    s.is_nontrivial = false; s.h = hash_str(t.name, strlen(t.name)); s.notes.clear();
    g->n_rec = 0;
    (void)ti;
    err_expected = false;
    c4::set_error_callback(&on_c4_error);
    c4::set_error_flags(c4::ON_ERROR_CALLBACK);
    t.fn(s);
    if(out) *out = s;
}

struct Plan { std::vector<uint64_t> cases; };

static Shared* new_shared()
{
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    if(p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shared*)p;
}

static void worker(Shared *sh, Plan const& plan, unsigned w, unsigned W)
{
    g = sh;
    std::unordered_set<uint64_t> seen;
    for(size_t ti = 0; ti < g_tests->size(); ++ti) {
        Test const& t = (*g_tests)[ti];
        uint64_t n = plan.cases[ti];
        uint64_t nsamples = 0;
        for(uint64_t i = w; i < n; i += W) {
            sh->target = ti; sh->index = i; sh->progress = sh->progress + 1;
            Src s;
            bool verbose = (w == 0) && nsamples < 2 && (i / W >= n / W / 3);
            uint64_t first = i;
            run_case(t, ti, i, t.enum_count ? &first : nullptr, t.enum_count ? 1u : 0u, false, verbose, &s);
            sh->evaluations = sh->evaluations + 1;
            sh->tgt_eval[ti]++;
            if(s.is_nontrivial) {
                sh->nontrivial = sh->nontrivial + 1;
                sh->tgt_nt[ti]++;
                if(sh->n_hashes >= sizeof(sh->hashes)/sizeof(sh->hashes[0])) sh->hashes_dropped++; // not counted any more
                else if(seen.insert(s.h).second) sh->hashes[sh->n_hashes++] = s.h;
                if(verbose && !s.notes.empty() && sh->n_samples < 48) {
                    snprintf(sh->samples[sh->n_samples++], 600, "%s: %s", t.name, s.notes.c_str());
                    ++nsamples;
                }
            }
        }
    }
    sh->done = 1;
    fflush(nullptr);
    #ifdef PBT_COVERAGE
    __llvm_profile_write_file();
    #endif
    _exit(0);
}

static double now()
{
    struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

/** run one choice sequence in a child; true if it fails */
static bool fails(Shared *sh, Test const& t, uint64_t ti, uint64_t index, std::vector<uint64_t> const& ch, bool from_seed, std::string *msg, std::vector<uint64_t> *rec, std::string *notes, const char *errfile)
{
    sh->msg[0] = 0; sh->notes[0] = 0; sh->n_rec = 0;
    fflush(nullptr);
    pid_t p = fork();
    if(p == 0) {
        int fd = open(errfile, O_WRONLY|O_CREAT|O_TRUNC, 0644);
        if(fd >= 0) { dup2(fd, 2); close(fd); }
        g = sh;
        struct rlimit rl; rl.rlim_cur = 30; rl.rlim_max = 40;
        setrlimit(RLIMIT_CPU, &rl);
        Src s;
        run_case(t, ti, index, ch.empty() ? nullptr : ch.data(), ch.size(), !from_seed, notes != nullptr, &s);
        if(notes) snprintf(sh->notes, sizeof(sh->notes), "%s", s.notes.c_str());
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    bool failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if(failed && msg) {
        *msg = sh->msg;
        if(msg->empty()) {
            *msg = WIFSIGNALED(st) ? strf("terminated by signal %d", WTERMSIG(st)) : strf("exit status %d", WEXITSTATUS(st));
            FILE *f = fopen(errfile, "r");
            if(f) { // keep the interesting lines
                char line[512]; int k = 0;
                while(k < 14 && fgets(line, sizeof(line), f))
                    if(strstr(line, "ERROR") || strstr(line, "runtime error") || strstr(line, " #") || strstr(line, "terminate")) { *msg += "\n  "; line[strcspn(line, "\n")] = 0; *msg += line; ++k; }
                fclose(f);
            }
        }
    }
    if(rec) rec->assign(sh->rec, sh->rec + sh->n_rec);
    if(notes) *notes = sh->notes;
    return failed;
}

static std::vector<uint64_t> shrink(Shared *sh, Test const& t, uint64_t ti, uint64_t index, std::vector<uint64_t> best, const char *errfile)
{
    double t0 = now();
    int budget = 3000;
    auto try_ = [&](std::vector<uint64_t> const& c) -> bool {
        if(budget-- <= 0 || now() - t0 > 40.) return false;
        std::vector<uint64_t> rec;
        if(fails(sh, t, ti, index, c, false, nullptr, &rec, nullptr, errfile)) {
            best = c;
            if(rec.size() < best.size()) best.resize(rec.size());
            return true;
        }
        return false;
    };
    bool progress = true;
    while(progress && budget > 0 && now() - t0 < 40.) {
        progress = false;
        for(size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1; chunk /= 2) {
            for(size_t i = 0; i + chunk <= best.size(); ) {
                std::vector<uint64_t> c(best);
                c.erase(c.begin() + (long)i, c.begin() + (long)(i + chunk));
                if(try_(c)) progress = true; else i += chunk;
            }
            if(chunk == 1) break;
        }
        for(size_t i = 0; i < best.size(); ++i) {
            if(best[i] == 0) continue;
            std::vector<uint64_t> c(best);
            c[i] = 0;
            if(try_(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = i < best.size() ? best[i] : 0; // binary search for a smaller failing value
            while(hi - lo > 1 && i < best.size()) {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best; c[i] = mid;
                if(try_(c)) { hi = mid; progress = true; } else lo = mid;
                if(budget <= 0) break;
            }
            if(i < best.size() && best[i] > 0) { c = best; c[i]--; if(try_(c)) progress = true; }
        }
    }
    while(!best.empty() && best.back() == 0) best.pop_back();
    return best;
}

static std::string json_str(std::string const& s)
{
    std::string r = "\"";
    for(char cc : s) {
        unsigned char c = (unsigned char)cc;
        if(c == '"' || c == '\\') { r += '\\'; r += cc; }
        else if(c == '\n') r += "\\n";
        else if(c < 32 || c >= 127) r += strf("\\u%04x", c);
        else r += cc;
    }
    return r + "\"";
}

static Plan make_plan(uint64_t unit, bool thorough, const char *only)
{
    Plan plan;
    for(auto const& t : *g_tests) {
        uint64_t n = t.enum_count ? ((t.thorough_only && !thorough) ? 0 : t.enum_count) : t.weight * unit;
        if(only && strcmp(only, t.name)) n = 0;
        plan.cases.push_back(n);
    }
    return plan;
}

static int replay_history(uint64_t seed, uint64_t unit, unsigned w, unsigned W, bool thorough)
{
    g_seed = seed;
    Shared *sh = new_shared();
    Plan plan = make_plan(unit, thorough, nullptr);
    fflush(nullptr);
    pid_t p = fork();
    if(p == 0) worker(sh, plan, w, W);
    int st; waitpid(p, &st, 0);
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->done);
    printf("replay of a worker history: %s %s\n", bad ? "failed" : "passed", sh->msg);
    return bad ? 1 : 0;
}

static int do_replay(const char *file, int times)
{
    FILE *f = fopen(file, "r");
    if(!f) { fprintf(stderr, "cannot open %s\n", file); return 3; }
    char name[128] = ""; std::vector<uint64_t> ch; char line[1 << 16];
    while(fgets(line, sizeof(line), f)) {
        if(strncmp(line, "target ", 7) == 0) { sscanf(line + 7, "%127s", name); }
        else if(strncmp(line, "history ", 8) == 0) {
            unsigned long long sd = 0, un = 0; unsigned w = 0, W = 1; int th = 0;
            sscanf(line + 8, "%llu %llu %u %u %d", &sd, &un, &w, &W, &th);
            fclose(f);
            return replay_history(sd, un, w, W, th != 0);
        }
        else if(strncmp(line, "choices", 7) == 0) {
            char *p = line + 7; char *e;
            while(true) { unsigned long long v = strtoull(p, &e, 10); if(e == p) break; ch.push_back(v); p = e; }
        }
    }
    fclose(f);
    for(size_t ti = 0; ti < g_tests->size(); ++ti) {
        Test const& t = (*g_tests)[ti];
        if(strcmp(t.name, name)) continue;
        Shared *sh = new_shared();
        std::string err = std::string(file) + ".stderr";
        int nf = 0; std::string msg, notes;
        for(int i = 0; i < times; ++i)
            if(fails(sh, t, ti, 0, ch, false, &msg, nullptr, &notes, err.c_str())) ++nf;
        printf("replay of %s: %d/%d failed\n%s\n", name, nf, times, nf ? msg.c_str() : notes.c_str());
        unlink(err.c_str());
        return nf == times ? 1 : 0;
    }
    fprintf(stderr, "no such target: %s\n", name);
    return 3;
}

} // namespace pbt

#ifndef PBT_LIBFUZZER
int main(int argc, char **argv)
{
    using namespace pbt;
    uint64_t unit = 1000; unsigned W = 8; const char *stats = nullptr; const char *replay_out = "replay.txt"; bool thorough = false, noshrink = false;
    const char *only = nullptr;
    if(!g_tests) { fprintf(stderr, "no tests\n"); return 3; }
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() { return argv[++i]; };
        if(a == "--seed") g_seed = strtoull(next(), nullptr, 10);
        else if(a == "--unit") unit = strtoull(next(), nullptr, 10);
        else if(a == "--workers") W = (unsigned)atoi(next());
        else if(a == "--stats") stats = next();
        else if(a == "--replay-out") replay_out = next();
        else if(a == "--thorough") thorough = true;
        else if(a == "--noshrink") noshrink = true;
        else if(a == "--only") only = next();
        else if(a == "--replay") return do_replay(next(), 3);
        else if(a == "--list") { for(auto &t : *g_tests) printf("%s\n", t.name); return 0; }
    }
    double t0 = now();
    Plan plan = make_plan(unit, thorough, only);
    std::vector<Shared*> sh; std::vector<pid_t> pids; std::vector<std::string> errs;
    for(unsigned w = 0; w < W; ++w) sh.push_back(new_shared());
    for(unsigned w = 0; w < W; ++w) {
        errs.push_back(strf("%s.w%u.stderr", replay_out, w));
        fflush(nullptr);
        pid_t p = fork();
        if(p == 0) {
            int fd = open(errs[w].c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644);
            if(fd >= 0) { dup2(fd, 2); close(fd); }
            worker(sh[w], plan, w, W);
        }
        pids.push_back(p);
    }
    std::vector<uint64_t> lastprog(W, 0); std::vector<double> lasttime(W, now());
    std::vector<bool> alive(W, true);
    int failed = -1; bool hang = false;
    unsigned nalive = W;
    while(nalive > 0 && failed < 0) {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if(p > 0) {
            for(unsigned w = 0; w < W; ++w) if(pids[w] == p && alive[w]) {
                alive[w] = false; --nalive;
                if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w]->done)) failed = (int)w;
            }
            continue;
        }
        usleep(5000);
        double t = now();
        for(unsigned w = 0; w < W; ++w) if(alive[w]) {
            if(sh[w]->progress != lastprog[w]) { lastprog[w] = sh[w]->progress; lasttime[w] = t; }
            else if(t - lasttime[w] > 60.) { failed = (int)w; hang = true; }
        }
    }
    for(unsigned w = 0; w < W; ++w) if(alive[w]) { kill(pids[w], SIGKILL); waitpid(pids[w], nullptr, 0); }
    int rc = 0;
    std::string vmsg, vtarget;
    if(failed >= 0) {
        Shared *f = sh[(unsigned)failed];
        uint64_t ti = f->target, idx = f->index;
        Test const& t = (*g_tests)[ti];
        vtarget = t.name;
        Shared *child = new_shared();
        std::string errfile = std::string(replay_out) + ".stderr";
        std::vector<uint64_t> ch, first, best; std::string msg;
        if(t.enum_count) first.push_back(idx);
        bool rep = fails(child, t, ti, idx, first, true, &msg, &ch, nullptr, errfile.c_str());
        if(rep) {
            // the recorded choices must reproduce it as a replay
            bool replays = fails(child, t, ti, 0, ch, false, &msg, nullptr, nullptr, errfile.c_str());
            if(replays) { best = (hang || noshrink) ? ch : shrink(child, t, ti, 0, ch, errfile.c_str()); }
            int nf = 0; std::string notes;
            for(int k = 0; k < 3; ++k) nf += fails(child, t, ti, 0, replays ? best : ch, false, &msg, nullptr, &notes, errfile.c_str());
            if(nf == 3) {
                rc = 1;
                FILE *o = fopen(replay_out, "w");
                if(o) {
                    fprintf(o, "target %s\nchoices", t.name);
                    for(uint64_t c : best) fprintf(o, " %llu", (unsigned long long)c);
                    fprintf(o, "\nmessage %s\n", json_str(msg).c_str());
                    fclose(o);
                }
                vmsg = msg;
                printf("FAILED %s: %s\n", t.name, msg.c_str());
            } else rep = false;
        }
        if(!rep) {
            // does not reproduce in isolation: it depends on what ran before it in the
            // same process (or on uninitialised memory). The replay is the whole history.
            printf("FAILED (history-dependent) %s case %llu: %s\n", t.name, (unsigned long long)idx, f->msg);
            if(hang) rc = 4; // no answer
            else {
                rc = 1; vmsg = f->msg;
                FILE *o = fopen(replay_out, "w");
                if(o) {
                    fprintf(o, "target %s\nhistory %llu %llu %d %u %d\nmessage %s\n", t.name, (unsigned long long)g_seed, (unsigned long long)unit, failed, W, (int)thorough, json_str(vmsg).c_str());
                    fclose(o);
                }
            }
        }
        unlink(errfile.c_str());
    }
    // statistics
    uint64_t ev = 0, nt = 0, dropped = 0;
    std::unordered_set<uint64_t> all;
    std::map<std::string, uint64_t> labels;
    for(unsigned w = 0; w < W; ++w) {
        ev += sh[w]->evaluations; nt += sh[w]->nontrivial; dropped += sh[w]->hashes_dropped;
        for(uint64_t i = 0; i < sh[w]->n_hashes; ++i) all.insert(sh[w]->hashes[i]);
        for(uint64_t i = 0; i < sh[w]->n_labels; ++i) labels[sh[w]->label_name[i]] += sh[w]->label_count[i];
        unlink(errs[w].c_str());
    }
    if(stats) {
        FILE *o = fopen(stats, "w");
        if(o) {
            fprintf(o, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"wall_s\":%.3f,\"seed\":%llu,\n \"targets\":{",
                    (unsigned long long)ev, (unsigned long long)nt, (unsigned long long)(all.size()), now() - t0, (unsigned long long)g_seed);
            for(size_t ti = 0; ti < g_tests->size(); ++ti) {
                uint64_t e = 0, n = 0;
                for(unsigned w = 0; w < W; ++w) { e += sh[w]->tgt_eval[ti]; n += sh[w]->tgt_nt[ti]; }
                fprintf(o, "%s\"%s\":{\"evaluations\":%llu,\"nontrivial\":%llu,\"exhaustive\":%s}", ti ? "," : "", (*g_tests)[ti].name,
                        (unsigned long long)e, (unsigned long long)n, (*g_tests)[ti].enum_count ? "true" : "false");
            }
            fprintf(o, "},\n \"labels\":{");
            bool first = true;
            for(auto const& l : labels) { fprintf(o, "%s%s:%llu", first ? "" : ",", json_str(l.first).c_str(), (unsigned long long)l.second); first = false; }
            fprintf(o, "},\n \"samples\":[");
            first = true;
            for(uint64_t i = 0; i < sh[0]->n_samples; ++i) { fprintf(o, "%s%s", first ? "" : ",\n  ", json_str(sh[0]->samples[i]).c_str()); first = false; }
            fprintf(o, "],\n \"failed_target\":%s,\"message\":%s,\"hashes_dropped\":%llu}\n", json_str(vtarget).c_str(), json_str(vmsg).c_str(), (unsigned long long)dropped);
            fclose(o);
        }
    }
    return rc;
}
#else
static std::vector<uint64_t> *lf_choices;
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    // first byte: target; then variable-length little-endian choices
    using namespace pbt;
    if(!g_tests || size < 1) return 0;
    if(!g) { g = new_shared(); lf_choices = new std::vector<uint64_t>; }
    std::vector<Test const*> rnd;
    for(auto const& t : *g_tests) if(!t.enum_count) rnd.push_back(&t);
    if(rnd.empty()) return 0;
    Test const& t = *rnd[data[0] % rnd.size()];
    lf_choices->clear();
    for(size_t i = 1; i < size; ) {
        unsigned n = data[i] < 248 ? 0 : 1u << (data[i] - 248u > 3 ? 3 : data[i] - 248u);
        uint64_t v = data[i++];
        if(n) { v = 0; for(unsigned k = 0; k < n && i < size; ++k) v |= (uint64_t)data[i++] << (8*k); }
        lf_choices->push_back(v);
    }
    if(const char *path = getenv("PBT_CURRENT")) { // turn a saved input into a replay file
        FILE *o = fopen(path, "w");
        if(o) { fprintf(o, "target %s\nchoices", t.name); for(uint64_t c : *lf_choices) fprintf(o, " %llu", (unsigned long long)c); fprintf(o, "\n"); fclose(o); }
    }
    run_case(t, 0, 0, lf_choices->data(), lf_choices->size(), true, false, nullptr);
    return 0;
}
#endif
