// P12: streaming output emits the whole text once, in order, even when resumed
#include "anyarg.hpp"
#include <c4/dump.hpp>
using namespace c4; using namespace pbt; using namespace oracle; using anyarg::Any;

static std::string sink;
// some sinks write by means of a dump of their own
static int nest; static std::string inner;
static void put_inner(csubstr t) { inner.append(t.str, t.len); }
struct FnInner { void operator() (csubstr t) const { put_inner(t); } };
static void put(csubstr t)
{
    if(nest) {
        inner.clear(); char b[32]; substr sb(b, sizeof b);
        if(nest == 1) cat_dump<&put_inner>(sb, 12, t, 'x'); else if(nest == 2) { DumpResults r = catsep_dump_resume(FnInner(), sb.first(1), '-', 12, t, 'x'); catsep_dump_resume(FnInner(), r, sb, '-', 12, t, 'x'); } else format_dump<&put_inner>(sb, "{}{}{}", 12, t, 'x');
        size_t sp = nest == 2 ? 1 : 0; PBT_CHECKM(inner.size() == t.len + 3 + 2 * sp, "nested dump of %zu characters emitted %zu", t.len, inner.size()); sink.append(inner, 2 + sp, t.len); return;
    }
    sink.append(t.str, t.len);
}
struct Fn { void operator() (csubstr t) const { put(t); } };

/** an argument which is either a string view, dumped directly, or a value which goes through the buffer */
struct Arg { bool direct; Any a; csubstr sub; };
struct Piece { std::string text; bool direct; bool real; size_t need() const { return direct ? 0 : text.size(); } };

// turn a run-time list of arguments into a call with the right static types
template<size_t Left> struct Expand
{
    template<class R, class F, class ...Done> static R go(F const& f, Arg const* a, Arg const* end, Done const& ...done)
    {
        if(a == end) return f.template call<R>(done...);
        if(a->direct) return Expand<Left-1>::template go<R>(f, a + 1, end, done..., a->sub);
        return Expand<Left-1>::template go<R>(f, a + 1, end, done..., a->a);
    }
};
template<> struct Expand<0> { template<class R, class F, class ...Done> static R go(F const& f, Arg const*, Arg const*, Done const& ...done) { return f.template call<R>(done...); } };
// long lists: values and string views alternate, or there are only values
static csubstr const& arg_of(std::true_type, Arg const& a) { return a.sub; }
static Any const& arg_of(std::false_type, Arg const& a) { return a.a; }
enum { MAX_ARGS = 9 };
template<class D0, class D1, size_t Left> struct Long
{
    template<class R, class F, class ...Done> static R go(F const& f, Arg const* a, Arg const* end, Done const& ...done)
    {
        if(a == end) return f.template call<R>(done...);
        return Long<D1, D0, Left-1>::template go<R>(f, a + 1, end, done..., arg_of(D0(), *a));
    }
};
template<class D0, class D1> struct Long<D0, D1, 0> { template<class R, class F, class ...Done> static R go(F const& f, Arg const*, Arg const*, Done const& ...done) { return f.template call<R>(done...); } };
template<class R, class F> static R with_long_args(F const& f, std::vector<Arg> const& a)
{
    Arg const *p = a.data() + 4, *e = a.data() + a.size(); typedef std::true_type Y; typedef std::false_type N;
    if(a[0].direct) return Long<Y, N, MAX_ARGS - 4>::template go<R>(f, p, e, a[0].sub, a[1].a, a[2].sub, a[3].a);
    if(a[1].direct) return Long<N, Y, MAX_ARGS - 4>::template go<R>(f, p, e, a[0].a, a[1].sub, a[2].a, a[3].sub);
    return Long<N, N, MAX_ARGS - 4>::template go<R>(f, p, e, a[0].a, a[1].a, a[2].a, a[3].a);
}
template<class R, class F> static R with_args(F const& f, std::vector<Arg> const& a) { if(a.size() > 3) return with_long_args<R>(f, a);
    Arg const* p = a.data() + 1; // at least one argument
    if(a[0].direct) return Expand<2>::go<R>(f, p, a.data() + a.size(), a[0].sub);
    return Expand<2>::go<R>(f, p, a.data() + a.size(), a[0].a); }

struct Cat { int m; substr b; template<class R, class ...A> R call(A const& ...a) const { return m ? cat_dump(Fn(), b, a...) : cat_dump<&put>(b, a...); } };
struct CatR { int m; DumpResults const* r; substr b; template<class R, class ...A> R call(A const& ...a) const {
    if(r) return m ? cat_dump_resume(Fn(), *r, b, a...) : cat_dump_resume<&put>(*r, b, a...);
    return m ? cat_dump_resume(Fn(), b, a...) : cat_dump_resume<&put>(b, a...); } };
template<class Sep> struct Catsep { int m; substr b; Sep const& sep; template<class R, class ...A> R call(A const& ...a) const { return m ? catsep_dump(Fn(), b, sep, a...) : catsep_dump<&put>(b, sep, a...); } };
template<class Sep> struct CatsepR { int m; DumpResults const* r; substr b; Sep const& sep; template<class R, class ...A> R call(A const& ...a) const {
    if(r) return m ? catsep_dump_resume(Fn(), *r, b, sep, a...) : catsep_dump_resume<&put>(*r, b, sep, a...);
    return m ? catsep_dump_resume(Fn(), b, sep, a...) : catsep_dump_resume<&put>(b, sep, a...); } };
struct Fmt { int m; substr b; csubstr f; template<class R, class ...A> R call(A const& ...a) const { return m ? format_dump(Fn(), b, f, a...) : format_dump<&put>(b, f, a...); } };
struct FmtR { int m; DumpResults const* r; substr b; csubstr f; template<class R, class ...A> R call(A const& ...a) const {
    if(r) return m ? format_dump_resume(Fn(), *r, b, f, a...) : format_dump_resume<&put>(*r, b, f, a...);
    return m ? format_dump_resume(Fn(), b, f, a...) : format_dump_resume<&put>(b, f, a...); } };

static std::string join(std::vector<Piece> const& p, size_t n) { std::string r; for(size_t i = 0; i < n && i < p.size(); ++i) r += p[i].text; return r; }
static void one_shot(Src &s, const char *what, std::vector<Piece> const& p, fref<size_t(substr)> f)
{
    size_t mx = 0; bool real = false; for(auto const& x : p) { mx = std::max(mx, x.need()); real |= x.real; }
    size_t L = s.coin() ? mx + s.draw(4) : s.draw(mx + 3); if(real && s.coin()) L = mx + 400;
    Buf b(L, '#'); sink.clear(); size_t r = f(substr(b.ptr, b.len)); b.check(what);
    std::string full = join(p, p.size());
    if(L >= 1 && L >= mx + (real ? 400 : 0)) {
        PBT_CHECKM(sink == full && r <= L, "%s with a buffer of %zu emitted %s and returned %zu, expected %s", what, L, shown(sink).c_str(), r, shown(full).c_str());
    } else if(!real) {
        size_t k = 0; if(L) while(k < p.size() && p[k].need() <= L) ++k;
        PBT_CHECKM(sink == join(p, k), "%s with a buffer of %zu emitted %s, expected %s", what, L, shown(sink).c_str(), shown(join(p, k)).c_str());
    }
    if(!real) PBT_CHECKM(r == mx, "%s with a buffer of %zu returned %zu, but the largest piece needs %zu", what, L, r, mx);
    if(!real || r > L) { // retry from scratch with what it asked for
        for(int it = 0; it < 500; ++it) {
            L = std::max<size_t>(1, r); Buf c(L, '#'); sink.clear(); r = f(substr(c.ptr, c.len)); c.check(what); if(r <= L) break;
        }
        PBT_CHECKM(sink == full, "%s: with the size it asked for it emitted %s, expected %s", what, shown(sink).c_str(), shown(full).c_str());
    }
}
static void history(Src &s, const char *what, std::vector<Piece> const& p, fref<DumpResults(DumpResults const*, substr)> f)
{
    size_t mx = 0; bool real = false; for(auto const& x : p) { mx = std::max(mx, x.need()); real |= x.real; }
    size_t steps = s.draw(4); sink.clear(); DumpResults r; size_t done = 0; bool started = false; std::string hist;
    for(size_t it = 0; it < steps + 600; ++it) {
        size_t L = it < steps ? (size_t)s.draw(mx + 2) : std::max<size_t>(1, r.bufsize);
        size_t reported = r.bufsize; 
        Buf b(L, '#'); r = f(started ? &r : nullptr, substr(b.ptr, b.len)); b.check(what);
        size_t now = r.lastok == DumpResults::noarg ? 0 : r.lastok + 1; hist += strf(" %zu", L);
        PBT_CHECKM(now >= done && now <= p.size(), "%s, buffers%s: %zu pieces done after %zu, of %zu", what, hist.c_str(), now, done, p.size());
        PBT_CHECKM(sink == join(p, now), "%s, buffers%s: emitted %s but reports %zu pieces, %s", what, hist.c_str(), shown(sink).c_str(), now, shown(join(p, now)).c_str());
        if(now < p.size() && !p[now].real && p[now].need() > L) PBT_CHECKM(r.bufsize >= p[now].need(), "%s, buffers%s: needs %zu but reports %zu", what, hist.c_str(), p[now].need(), r.bufsize);
        if(!real) {
            PBT_CHECKM(r.bufsize <= mx, "%s, buffers%s: reports %zu but %zu is enough", what, hist.c_str(), r.bufsize, mx);
            if(L >= std::max<size_t>(1, reported)) { // every piece up to the first that does not fit
                size_t k = done; while(k < p.size() && p[k].need() <= L) ++k;
                PBT_CHECKM(now == k, "%s, buffers%s: %zu pieces done, but the first %zu fit", what, hist.c_str(), now, k);
            }
            if(started && L >= std::max<size_t>(1, reported) && L >= 1) PBT_CHECKM(now == p.size(), "%s, buffers%s: %zu of %zu pieces although %zu was enough", what, hist.c_str(), now, p.size(), reported);
        }
        PBT_CHECK(r.argfail() == now && r.success_until(p.size() - 1) == (now == p.size()) && (now == 0 || r.success_until(now - 1)) && r.write_arg(now) && (now == 0 || !r.write_arg(now - 1)));
        started = true; done = now;
        if(done == p.size() && it >= steps) break;
    }
    PBT_CHECKM(done == p.size(), "%s, buffers%s: never completes", what, hist.c_str());
    // resuming a complete dump emits nothing more
    Buf b(std::max<size_t>(1, r.bufsize), '#'); DumpResults r2 = f(&r, substr(b.ptr, b.len)); b.check(what);
    PBT_CHECKM(sink == join(p, p.size()) && r2.lastok == r.lastok, "%s: resuming a complete dump emitted %s", what, shown(sink).c_str());
}
static Arg gen_arg(Src &s, bool reals) { Arg r; r.a = anyarg::gen(s, reals, 12); r.direct = s.chance(1, 3); return r; }
static void fix(Arg &a) { a.sub = csubstr(a.a.text.data(), a.a.text.size()); }
PBT_TEST(dumps, 10)
{
    bool reals = s.chance(1, 4); size_t n = s.chance(1, 6) ? s.range(4, MAX_ARGS) : 1 + s.draw(3); std::vector<Arg> a; std::string d; size_t alt = s.draw(3);
    for(size_t i = 0; i < n; ++i) { a.push_back(gen_arg(s, reals)); if(n > 3) a[i].direct = alt < 2 && i % 2 == alt; d += (a[i].direct ? "direct " : "") + anyarg::desc(a[i].a) + " "; }
    Arg sep = gen_arg(s, reals); fix(sep); for(auto &x : a) fix(x);
    std::string f = anyarg::gen_format(s, n); csubstr cf(f.data(), f.size());
    s.note(strf("args [%s] sep %s%s format %s", d.c_str(), sep.direct ? "direct " : "", anyarg::desc(sep.a).c_str(), shown(f).c_str())); s.nontrivial(d + f);
    std::vector<Piece> pc, ps, pf;
    for(size_t i = 0; i < n; ++i) {
        Piece x = {a[i].a.text, a[i].direct, a[i].a.real() && !a[i].direct}; pc.push_back(x);
        if(i) ps.push_back(Piece{sep.a.text, sep.direct, sep.a.real() && !sep.direct});
        ps.push_back(x);
    }
    std::string rest = f; size_t k = 0;
    for(;;) { size_t pos = k < n ? rest.find("{}") : std::string::npos; pf.push_back(Piece{rest.substr(0, pos), true, false}); if(pos == std::string::npos) break; pf.push_back(pc[k++]); rest = rest.substr(pos + 2); }
    int m = (int)s.draw(2); nest = s.chance(1, 4) ? 1 + (int)s.draw(3) : 0; if(nest) s.label("sink which dumps");
    one_shot(s, "cat_dump", pc, [&](substr b){ Cat c = {m, b}; return with_args<size_t>(c, a); });
    one_shot(s, "format_dump", pf, [&](substr b){ Fmt c = {m, b, cf}; return with_args<size_t>(c, a); });
    one_shot(s, "catsep_dump", ps, [&](substr b){ if(sep.direct) { Catsep<csubstr> c = {m, b, sep.sub}; return with_args<size_t>(c, a); } Catsep<Any> c = {m, b, sep.a}; return with_args<size_t>(c, a); });
    history(s, "cat_dump_resume", pc, [&](DumpResults const* r, substr b){ CatR c = {m, r, b}; return with_args<DumpResults>(c, a); });
    history(s, "format_dump_resume", pf, [&](DumpResults const* r, substr b){ FmtR c = {m, r, b, cf}; return with_args<DumpResults>(c, a); });
    history(s, "catsep_dump_resume", ps, [&](DumpResults const* r, substr b){ if(sep.direct) { CatsepR<csubstr> c = {m, r, b, sep.sub}; return with_args<DumpResults>(c, a); } CatsepR<Any> c = {m, r, b, sep.a}; return with_args<DumpResults>(c, a); });
}
// literal arguments, function pointer dumpers, lambdas with state, longer lists
PBT_TEST(native, 3)
{
    nest = 0;
    int i = s.integer<int>(); int64_t l = s.integer<int64_t>(); std::string st = s.bytes(10); csubstr sub(st.data(), st.size()); char c = (char)s.draw(256); size_t w = s.len(20);
    std::string ti = int_text((i128)i, 10, false), tl = int_text((i128)l, 10, false), tz = anyarg::padr(ti, w, '*'); int m = (int)s.draw(3);
    s.note(strf("%d %s %s width %zu", i, tl.c_str(), shown(st).c_str(), w)); s.nontrivial(hash_str(st, (uint64_t)i * 31 + (uint64_t)l + w));
    std::vector<Piece> p = {{ti, false, false}, {"lit", true, false}, {st, true, false}, {tl, false, false}, {std::string(1, c), false, false}, {tz, false, false}, {st, false, false}};
    one_shot(s, "cat_dump(native)", p, [&](substr b) -> size_t { if(m == 0) return cat_dump<&put>(b, i, "lit", sub, l, c, fmt::right(i, w, '*'), st); if(m == 1) return cat_dump(&put, b, i, "lit", sub, l, c, fmt::right(i, w, '*'), st);
        auto fn = [&](csubstr t) { put(t); }; return cat_dump(fn, b, i, "lit", sub, l, c, fmt::right(i, w, '*'), st); });
    history(s, "cat_dump_resume(native)", p, [&](DumpResults const* r, substr b) -> DumpResults { auto fn = [&](csubstr t) { put(t); };
        if(!r) return m == 0 ? cat_dump_resume<&put>(b, i, "lit", sub, l, c, fmt::right(i, w, '*'), st) : m == 1 ? cat_dump_resume(&put, b, i, "lit", sub, l, c, fmt::right(i, w, '*'), st) : cat_dump_resume(fn, b, i, "lit", sub, l, c, fmt::right(i, w, '*'), st);
        return m == 0 ? cat_dump_resume<&put>(*r, b, i, "lit", sub, l, c, fmt::right(i, w, '*'), st) : m == 1 ? cat_dump_resume(&put, *r, b, i, "lit", sub, l, c, fmt::right(i, w, '*'), st) : cat_dump_resume(fn, *r, b, i, "lit", sub, l, c, fmt::right(i, w, '*'), st); });
    std::vector<Piece> q; for(size_t k = 0; k < p.size(); ++k) { if(k) q.push_back(Piece{", ", true, false}); q.push_back(p[k]); }
    one_shot(s, "catsep_dump(native)", q, [&](substr b) -> size_t { return m == 0 ? catsep_dump<&put>(b, ", ", i, "lit", sub, l, c, fmt::right(i, w, '*'), st) : catsep_dump(&put, b, ", ", i, "lit", sub, l, c, fmt::right(i, w, '*'), st); });
    history(s, "catsep_dump_resume(native)", q, [&](DumpResults const* r, substr b) -> DumpResults {
        if(!r) return m == 0 ? catsep_dump_resume<&put>(b, ", ", i, "lit", sub, l, c, fmt::right(i, w, '*'), st) : catsep_dump_resume(&put, b, ", ", i, "lit", sub, l, c, fmt::right(i, w, '*'), st);
        return m == 0 ? catsep_dump_resume<&put>(*r, b, ", ", i, "lit", sub, l, c, fmt::right(i, w, '*'), st) : catsep_dump_resume(&put, *r, b, ", ", i, "lit", sub, l, c, fmt::right(i, w, '*'), st); });
    std::vector<Piece> z = {{"", true, false}, p[0], {"<", true, false}, p[1], {">", true, false}, p[3], {"", true, false}, p[5], {"end", true, false}};
    one_shot(s, "format_dump(native)", z, [&](substr b) -> size_t { return m == 0 ? format_dump<&put>(b, "{}<{}>{}{}end", i, "lit", l, fmt::right(i, w, '*')) : format_dump(&put, b, "{}<{}>{}{}end", i, "lit", l, fmt::right(i, w, '*'), st); });
    history(s, "format_dump_resume(native)", z, [&](DumpResults const* r, substr b) -> DumpResults {
        if(!r) return m == 0 ? format_dump_resume<&put>(b, "{}<{}>{}{}end", i, "lit", l, fmt::right(i, w, '*')) : format_dump_resume(&put, b, "{}<{}>{}{}end", i, "lit", l, fmt::right(i, w, '*'), st);
        return m == 0 ? format_dump_resume<&put>(*r, b, "{}<{}>{}{}end", i, "lit", l, fmt::right(i, w, '*')) : format_dump_resume(&put, *r, b, "{}<{}>{}{}end", i, "lit", l, fmt::right(i, w, '*'), st); });
    // single values
    sink.clear(); Buf b(64, '#'); size_t r = m == 0 ? dump<&put>(substr(b.ptr, b.len), i) : dump(&put, substr(b.ptr, b.len), i); PBT_CHECK(r == ti.size() && sink == ti);
    sink.clear(); r = m == 0 ? dump<&put>(substr(b.ptr, b.len), sub) : dump(&put, substr(b.ptr, b.len), sub); PBT_CHECK(r == 0 && sink == st);
    sink.clear(); r = m == 0 ? dump<&put>(substr(b.ptr, b.len), "literal") : dump(&put, substr(b.ptr, b.len), "literal"); PBT_CHECK(r == 0 && sink == "literal");
    sink.clear(); r = dump<&put>(substr(b.ptr, ti.size() - 1), i); PBT_CHECK(r == ti.size() && sink.empty());
}
