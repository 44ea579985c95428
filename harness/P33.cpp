// P33: preprocessor, type-level and configuration helpers. Every case is a generated program: it is given to a
// drawn compiler and language standard, and the outcome is compared with an expansion or a value computed here.
#include "pbt.hpp"
#include <c4/config.hpp>
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>
#include <map>
using namespace pbt;
extern char **environ;
struct Out { int rc; std::string out, err; };
static std::string slurp(FILE *f) { std::string r; rewind(f); char b[4096]; size_t n; while((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static Out run(std::vector<std::string> args, std::string const& input)
{
    FILE *i = tmpfile(), *o = tmpfile(), *e = tmpfile(); if(!i || !o || !e) { fprintf(stderr, "no temporary files\n"); _exit(3); }
    fwrite(input.data(), 1, input.size(), i); fflush(i); lseek(fileno(i), 0, SEEK_SET);
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_adddup2(&fa, fileno(i), 0); posix_spawn_file_actions_adddup2(&fa, fileno(o), 1); posix_spawn_file_actions_adddup2(&fa, fileno(e), 2);
    std::vector<char*> a; for(size_t k = 0; k < args.size(); ++k) a.push_back((char*)args[k].c_str()); a.push_back(nullptr);
    Out r; pid_t p; r.rc = -1; int st = 0; if(posix_spawnp(&p, a[0], &fa, nullptr, a.data(), environ) == 0) { while(waitpid(p, &st, 0) < 0) {} r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128; }
    posix_spawn_file_actions_destroy(&fa); r.out = slurp(o); r.err = slurp(e); fclose(i); return r;
}
struct Comp { std::string cxx, std; int cpp; std::vector<std::string> args; };
static Comp compiler(Src &s)
{
    static const char *cxx[] = {"g++", "clang++"}; static const char *sd[] = {"11", "14", "17", "20", "23"}; static int cp[] = {11, 14, 17, 20, 20};
    Comp c; size_t k = s.draw(5); c.cxx = s.pick(cxx); c.std = sd[k]; c.cpp = cp[k]; const char *src = getenv("C4_SRC"); c.args = {c.cxx, "-std=" + std::string(s.chance(1, 4) ? "gnu++" : "c++") + c.std, "-w", "-x", "c++", "-I", src ? src : "/repo/src", "-DC4_NO_DEBUG_BREAK"}; s.note(c.cxx + " " + c.args[1]); return c;
}
static std::vector<std::string> tokens(std::string const& t)
{
    std::vector<std::string> r; size_t i = 0, n = t.size();
    while(i < n) { char c = t[i]; if(isspace((unsigned char)c)) { ++i; continue; } size_t b = i; if(c == '"' || c == '\'') { ++i; while(i < n && t[i] != c) { if(t[i] == '\\') ++i; ++i; } if(i < n) ++i; } else if(isalnum((unsigned char)c) || c == '_') { while(i < n && (isalnum((unsigned char)t[i]) || t[i] == '_')) ++i; } else ++i; r.push_back(t.substr(b, i - b)); }
    return r;
}
static std::string strz(std::string const& t) { std::string r = "\""; bool in = false; char q = 0; for(size_t i = 0; i < t.size(); ++i) { char c = t[i]; if(!in && (c == '"' || c == '\'')) { in = true; q = c; } else if(in && c == q && t[i - 1] != '\\') in = false; if(c == '"' || (c == '\\' && in)) r += '\\'; r += c; } return r + "\""; }
static std::string arg(Src &s) { static const char *fixed[] = {"(p,q)", "g(p, q)", "\"s,t\"", "'c'", "a + b", "A<B>", "-1", "x[3]", "\"\\n\"", "1.5e3", "((u),(v,w))", "::n::m", "*p", "a|b", "&r"}; switch(s.draw(4)) { case 0: return strf("a%d", (int)s.draw(100)); case 1: return strf("%d", (int)s.draw(1000)); case 2: return fixed[s.draw(15)]; default: return s.chance(1, 6) ? std::string() : strf("v_%d", (int)s.draw(9)); } }
// expands a user macro by its definition
static std::string what_def() { return "#define U_id(x) x\n#define U_call(x) f(x)\n#define U_q(x) #x\n#define U_decl(x) int x = 0\n#define U_pair(x) {x, #x}\n#define U_two(x) x x\n#define USEP |\n"; }
static std::string what(size_t k, std::string const& x) { switch(k) { case 0: return x; case 1: return "f(" + x + ")"; case 2: return strz(x); case 3: return "int " + x + " = 0"; case 4: return "{" + x + ", " + strz(x) + "}"; default: return x + " " + x; } }
static const char *whats[] = {"U_id", "U_call", "U_q", "U_decl", "U_pair", "U_two"};
PBT_TEST(for_each, 6)
{
    Comp c = compiler(s); size_t n = s.range(1, 24); std::string prog = what_def(); prog = std::string(s.coin() ? "#include <c4/preprocessor.hpp>\n" : "#include <c4/language.hpp>\n") + prog; std::vector<std::string> want, inv; std::string key = c.cxx + c.std;
    for(size_t i = 0; i < n; ++i)
    {
        size_t m = s.coin() ? s.range(1, 32) : s.coin() ? s.range(1, 4) : s.range(29, 32), w = s.draw(6); std::string args, e; struct P { const char *in, *out; }; static const P seps[] = {{";", ";"}, {"+", "+"}, {"C4_COMMA", ","}, {"C4_COMMA_X", ","}, {"", ""}, {"&&", "&&"}, {"sep_t", "sep_t"}, {"(z)", "(z)"}, {";;", ";;"}, {"USEP", "|"}, {"<<", "<<"}, {"+ 1 +", "+ 1 +"}}; size_t k = s.draw(13);
        for(size_t j = 0; j < m; ++j) { std::string a = arg(s); args += ", " + a; e += " " + what(w, a) + " " + (k < 12 ? seps[k].out : ";"); }
        std::string call = k < 12 ? strf("C4_FOR_EACH_SEP(%s, %s%s)", whats[w], seps[k].in, args.c_str()) : strf("C4_FOR_EACH(%s%s)", whats[w], args.c_str()); inv.push_back(call); want.push_back(e); prog += strf("@@%zu\n", i) + call + "\n"; key += call; s.note(call);
    }
    prog += "@@end\n"; s.nontrivial(key); std::vector<std::string> a = c.args; a.push_back("-E"); a.push_back("-P"); a.push_back("-"); Out r = run(a, prog);
    PBT_CHECKM(r.rc == 0, "the program is not accepted: %s", r.err.substr(0, 1500).c_str());
    for(size_t i = 0; i < n; ++i) { std::string m = strf("@@%zu", i), m2 = i + 1 < n ? strf("@@%zu", i + 1) : std::string("@@end"); size_t b = r.out.find(m), e = b == std::string::npos ? b : r.out.find(m2, b); PBT_CHECKM(e != std::string::npos, "no expansion %zu in %s", i, r.out.substr(0, 400).c_str()); std::string got = r.out.substr(b + m.size(), e - b - m.size()); PBT_CHECKM(tokens(got) == tokens(want[i]), "%s gives %s, expected %s", inv[i].c_str(), got.c_str(), want[i].c_str()); }
}
static std::string ident(Src &s, const char *pre) { return strf("%s%d", pre, (int)s.draw(50)); }
PBT_TEST(paste_and_quote, 3)
{
    Comp c = compiler(s); size_t n = s.range(1, 24); std::string prog = "#include <c4/preprocessor.hpp>\n"; std::map<std::string, std::string> defs; std::string key = c.cxx + c.std;
    size_t nd = s.range(1, 6); std::vector<std::string> names; for(size_t i = 0; i < nd; ++i) { std::string nm = strf("M%zu", i), v = i && s.chance(1, 3) ? names[s.draw(i)] : ident(s, "foo_"); prog += "#define " + nm + " " + v + "\n"; names.push_back(nm); std::string x = v; if(defs.count(v)) x = defs[v]; defs[nm] = x; }
    std::vector<std::string> want, inv;
    for(size_t i = 0; i < n; ++i)
    {
        std::string x = s.coin() ? names[s.draw(nd)] : ident(s, "id"), y = s.coin() ? names[s.draw(nd)] : s.coin() ? ident(s, "id") : strf("%d", (int)s.draw(100)), X = defs.count(x) ? defs[x] : x, Y = defs.count(y) ? defs[y] : y, in, out;
        switch(s.draw(9)) { case 0: in = "C4_CAT(" + x + ", " + y + ")"; out = x + y; if(defs.count(out)) out = defs[out]; break; case 1: in = "C4_XCAT(" + x + ", " + y + ")"; out = X + Y; break; case 2: in = "C4_QUOTE(" + x + ")"; out = "\"" + x + "\""; break; case 3: in = "C4_XQUOTE(" + x + ")"; out = "\"" + X + "\""; break; case 4: in = "C4_EXPAND(" + x + ")"; out = X; break; case 5: in = "C4_XQUOTE(" + x + " + " + y + ")"; out = "\"" + X + " + " + Y + "\""; break; case 6: in = "C4_XQUOTE(C4_XCAT(" + x + ", " + y + "))"; out = "\"" + X + Y + "\""; break; case 7: in = "C4_XCAT(C4_CAT(zz_, " + ident(s, "k") + "), " + y + ")"; out = "zz_" + in.substr(in.find("zz_, ") + 5, in.find("), ") - in.find("zz_, ") - 5) + Y; break; default: in = "h<" + x + " C4_COMMA " + y + ">"; out = "h<" + X + " , " + Y + ">"; }
        inv.push_back(in); want.push_back(out); prog += strf("@@%zu\n", i) + in + "\n"; key += in; s.note(in);
    }
    prog += "@@end\n"; s.nontrivial(key + prog); std::vector<std::string> a = c.args; a.push_back("-E"); a.push_back("-P"); a.push_back("-"); Out r = run(a, prog); PBT_CHECKM(r.rc == 0, "the program is not accepted: %s", r.err.substr(0, 1500).c_str());
    for(size_t i = 0; i < n; ++i) { std::string m = strf("@@%zu", i), m2 = i + 1 < n ? strf("@@%zu", i + 1) : std::string("@@end"); size_t b = r.out.find(m), e = b == std::string::npos ? b : r.out.find(m2, b); PBT_CHECKM(e != std::string::npos, "no expansion %zu", i); std::string got = r.out.substr(b + m.size(), e - b - m.size()); PBT_CHECKM(tokens(got) == tokens(want[i]), "%s gives %s, expected %s", inv[i].c_str(), got.c_str(), want[i].c_str()); }
}
// a translation unit of assertions: each is evaluated by the compiler
struct Unit
{
    std::string head, body; std::vector<std::string> what; size_t n = 0;
    void claim(std::string const& cond, std::string const& text) { body += strf("static_assert(%s, \"claim %zu\");\n", cond.c_str(), n++); what.push_back(text); }
    void check(Src &s, Comp const& c)
    {
        s.nontrivial(c.cxx + c.std + head + body); std::vector<std::string> a = c.args; a.push_back("-fsyntax-only"); a.push_back("-"); Out r = run(a, head + body); if(r.rc == 0) return;
        size_t p = r.err.find("\"claim "), q = r.err.find("claim "); if(p == std::string::npos) p = q; if(p != std::string::npos) { size_t k = (size_t)atoi(r.err.c_str() + r.err.find("claim ", p) + 6); if(k < what.size()) PBT_CHECKM(false, "does not hold with %s C++%s: %s", c.cxx.c_str(), c.std.c_str(), what[k].c_str()); }
        PBT_CHECKM(false, "the program is not accepted by %s C++%s: %s", c.cxx.c_str(), c.std.c_str(), r.err.substr(0, 1500).c_str());
    }
};
PBT_TEST(version_order, 1)
{
    Comp c = compiler(s); Unit u; u.head = s.coin() ? "#include <c4/preprocessor.hpp>\n" : "#include <c4/config.hpp>\n"; size_t n = s.range(1, 40);
    for(size_t i = 0; i < n; ++i)
    {
        int v[6]; std::string t[6]; for(int k = 0; k < 6; ++k) { int a = (int)s.draw(k % 3 ? 100 : 200), b = (int)s.draw(a + 1); v[k] = k >= 3 && s.coin() ? v[k - 3] : a; switch(s.draw(4)) { case 0: t[k] = strf("%d", v[k]); break; case 1: t[k] = strf("%d + %d", v[k] - std::min(b, v[k]), std::min(b, v[k])); break; case 2: t[k] = strf("1 ? %d : 7", v[k]); break; default: t[k] = strf("%d | 0", v[k]); } }
        std::string A = strf("C4_VERSION_CAT(%s, %s, %s)", t[0].c_str(), t[1].c_str(), t[2].c_str()), B = strf("C4_VERSION_CAT(%s, %s, %s)", t[3].c_str(), t[4].c_str(), t[5].c_str()); bool lt = std::lexicographical_compare(v, v + 3, v + 3, v + 6), eq = std::equal(v, v + 3, v + 3); s.note(A + " vs " + B);
        u.claim(strf("(%s < %s) == %d && (%s == %s) == %d && 2 * %s == %d", A.c_str(), B.c_str(), (int)lt, A.c_str(), B.c_str(), (int)eq, A.c_str(), 2 * (v[0] * 10000 + v[1] * 100 + v[2])), A + " against " + B);
        u.body += strf("#if (%s < %s) != %d\nstatic_assert(false, \"claim %zu\");\n#endif\n", A.c_str(), B.c_str(), (int)lt, u.n - 1);
    }
    u.check(s, c);
}
// classes with a known size, from generated members
static std::string klass(Src &s, std::string const& name)
{
    static const char *ty[] = {"char", "short", "int", "long long", "double", "void*", "float"}; std::string b; size_t m = s.draw(5); for(size_t i = 0; i < m; ++i) b += strf(" %s m%zu%s;", ty[s.draw(7)], i, s.chance(1, 4) ? strf("[%d]", 1 + (int)s.draw(9)).c_str() : "");
    std::string al = s.chance(1, 6) ? strf("alignas(%d) ", 1 << (3 + s.draw(4))) : std::string(); std::string base; std::string pre; if(s.chance(1, 4)) { base = " : B" + name; pre = "struct B" + name + " { B" + name + "(); int q; char r; };\n"; }
    if(s.chance(1, 3)) b += " " + name + "(int, char);"; if(s.chance(1, 8)) b += " virtual ~" + name + "();"; if(m == 0) al.clear(); /* an empty class keeps its alignment in a packed one, and its size stays a multiple of it */ return pre + "struct " + al + name + base + " {" + b + " };\n";
}
PBT_TEST(sized_wrappers, 3)
{
    Comp c = compiler(s); Unit u; u.head = s.coin() ? "#include <c4/types.hpp>\n" : "#include <c4/config.hpp>\n"; size_t nk = s.range(1, 5); std::string defs; for(size_t i = 0; i < nk; ++i) defs += klass(s, strf("K%zu", i)); u.head += defs; s.note(defs); size_t n = s.range(1, 25);
    for(size_t i = 0; i < n; ++i)
    {
        std::string t = strf("K%d", (int)s.draw(nk)); int a = s.coin() ? (int)s.range(1, 40) : (int)s.range(1, 300), b = (int)s.range(1, 70); std::string x;
        switch(s.draw(6)) { case 0: x = strf("c4::MinSized<%s, %d>", t.c_str(), a); u.claim(strf("sizeof(%s) == (sizeof(%s) < %d ? %d : sizeof(%s))", x.c_str(), t.c_str(), a, a, t.c_str()), x); break;
        case 1: x = strf("c4::MultSized<%s, %d>", t.c_str(), a); u.claim(strf("sizeof(%s) %% %d == 0 && sizeof(%s) >= sizeof(%s) && sizeof(%s) - sizeof(%s) < %d", x.c_str(), a, x.c_str(), t.c_str(), x.c_str(), t.c_str(), a), x); break;
        case 2: x = strf("c4::MinMultSized<%s, %d, %d>", t.c_str(), a, b); u.claim(strf("sizeof(%s) %% %d == 0 && sizeof(%s) >= %d && sizeof(%s) >= sizeof(%s) && (sizeof(%s) < %d + %d || sizeof(%s) < sizeof(%s) + %d)", x.c_str(), b, x.c_str(), a, x.c_str(), t.c_str(), x.c_str(), a, b, x.c_str(), t.c_str(), b), x); break;
        case 3: x = strf("c4::UbufSized<%s>", t.c_str()); u.claim(strf("sizeof(%s) %% 16 == 0 && sizeof(%s) >= 64 && sizeof(%s) >= sizeof(%s) && (sizeof(%s) == 64 || sizeof(%s) < sizeof(%s) + 16)", x.c_str(), x.c_str(), x.c_str(), t.c_str(), x.c_str(), x.c_str(), t.c_str()), x); break;
        case 4: x = strf("c4::Padded<%s, %d>", t.c_str(), a - 1); u.claim(strf("sizeof(%s) == sizeof(%s) + %d", x.c_str(), t.c_str(), a - 1), x); break;
        default: x = strf("remainders %d of %d", a, b); u.claim(strf("c4::min_remainder(%d, %d) == %d && c4::mult_remainder(%d, %d) == %d", a, b, a < b ? b - a : 0, a, b, (b - a % b) % b), x); }
        s.note(x);
    }
    u.check(s, c);
}
PBT_TEST(typedef_trait, 3)
{
    Comp c = compiler(s); Unit u; u.head = s.coin() ? "#include <c4/types.hpp>\n" : "#include <c4/config.hpp>\n"; static const char *names[] = {"value_type", "iterator", "foo", "bar_t", "reference", "type", "x"}; static const char *tys[] = {"int", "void", "int&", "const char*", "S0", "S0&&", "int[4]", "void(int)", "unsigned long const", "S0 volatile&"};
    size_t nt = s.range(1, 5); std::string d; std::vector<std::string> tr; { std::vector<int> pool = {0, 1, 2, 3, 4, 5, 6}; for(size_t i = 0; i < nt; ++i) { size_t k = s.draw(pool.size()); tr.push_back(names[pool[k]]); pool.erase(pool.begin() + (long)k); d += "C4_DEFINE_HAS_TYPEDEF(" + tr.back() + ");\n"; } }
    size_t nk = s.range(1, 6); std::vector<std::map<std::string, int>> has(nk); std::string cl = "struct S0 {}; struct Dummy { int foo; void bar_t(); static int x; };\n";
    for(size_t i = 0; i < nk; ++i) { std::string b, base; if(i && s.chance(1, 3)) { size_t p = s.draw(i); base = strf(" : K%zu", p); has[i] = has[p]; } for(int k = 0; k < 7; ++k) { int how = (int)s.draw(5); std::string nm = names[k]; if(how == 1) { b += " using " + nm + " = " + s.pick(tys) + ";"; has[i][nm] = 1; } else if(how == 2) { b += " struct " + nm + " {};"; has[i][nm] = 1; } else if(how == 3 && s.coin()) { b += " int " + nm + ";"; has[i][nm] = 0; } else if(how == 4 && s.chance(1, 3)) { b += " private: using " + nm + " = int; public:"; has[i][nm] = 0; } } cl += strf("struct K%zu%s {%s };\n", i, base.c_str(), b.c_str()); }
    u.head += cl + d; s.note(cl + d); size_t n = s.range(1, 30); for(size_t i = 0; i < n; ++i) { std::string const& t = tr[s.draw(nt)]; size_t k = s.draw(nk + 2); if(k < nk) u.claim(strf("bool(has_%s<K%zu>::value) == %d", t.c_str(), k, has[k].count(t) ? has[k][t] : 0), strf("has_%s<K%zu>", t.c_str(), k)); else u.claim(strf("!has_%s<%s>::value", t.c_str(), k == nk ? "int" : "Dummy"), "has_" + t + " of a type without it"); }
    u.check(s, c);
}
// composed types
static std::string type(Src &s, int depth, bool &scalar, int &bytes, bool &plain)   // bytes < 0: unknown
{
    static const struct { const char *n; int b; } base[] = {{"char", 1}, {"signed char", 1}, {"unsigned short", 2}, {"int", 4}, {"unsigned long", 8}, {"float", 4}, {"double", 8}, {"bool", 1}, {"En", 4}, {"long double", 16}}; scalar = true; plain = true; size_t k = s.draw(depth > 0 ? 6 : 2);
    switch(k) { case 0: { size_t i = s.draw(10); bytes = base[i].b; return base[i].n; } case 1: { int n = (int)s.range(1, 20); scalar = false; bytes = n; return strf("P<%d>", n); }
    case 2: { bool a, p; int b; std::string t = type(s, depth - 1, a, b, p); bytes = 8; return t + "*"; }
    case 3: { scalar = false; plain = false; bytes = (int)s.range(1, 20); return strf("N<%d>", bytes); }
    case 4: { bool a, p; int b; std::string t = type(s, depth - 1, a, b, p); scalar = false; plain = p; bytes = b; return "W<" + t + ">"; }
    default: { bytes = 8; bool a, p; int b; std::string t = type(s, depth - 1, a, b, p); return "Fn<" + t + ">*"; } }
}
PBT_TEST(pass_by_value, 2)
{
    Comp c = compiler(s); Unit u;
    u.head = "#include <c4/types.hpp>\n#include <type_traits>\nenum En { e0 }; template<int N> struct P { char c[N]; }; template<int M> struct N { N(); N(N const&); ~N(); char c[M]; }; template<class T> struct W { T v; }; template<class T> using Fn = void(T const&);\n"; size_t n = s.range(1, 40);
    for(size_t i = 0; i < n; ++i) { bool sc, pl; int b; std::string t = type(s, 3, sc, b, pl); bool val = sc || (pl && b <= 8); u.claim(strf("std::is_same<c4::fastcref<%s>, %s>::value && bool(c4::cref_uses_val<%s>::value) == %d", t.c_str(), val ? t.c_str() : (t + " const&").c_str(), t.c_str(), (int)val), "fastcref<" + t + ">"); s.note(t); }
    u.check(s, c);
}
PBT_TEST(instance_of, 2)
{
    Comp c = compiler(s); Unit u; u.head = "#include <c4/types.hpp>\ntemplate<class...> struct V {}; template<class A> struct One {}; template<class A, class B> struct Two {}; template<class A, class B = int> struct Def {}; struct Der : One<int> {};\n"; static const char *tpl[] = {"V", "One", "Two", "Def"}; static const char *at[] = {"int", "char*", "One<int>", "V<>", "Two<int, V<int>>", "Der"}; size_t n = s.range(1, 40);
    for(size_t i = 0; i < n; ++i) { size_t q = s.draw(4), k = s.draw(7); std::string t; int of = -1; static const int ar[] = {-1, 1, 2, 2}; if(k < 4) { of = (int)k; int m = ar[k] < 0 ? (int)s.draw(6) : ar[k]; t = std::string(tpl[k]) + "<"; for(int j = 0; j < m; ++j) t += std::string(j ? ", " : "") + s.pick(at); t += ">"; if(k == 3 && s.coin()) { t = std::string("Def<") + s.pick(at) + ">"; } if(s.chance(1, 6)) { static const char *suf[] = {"*", "&", " const", "[2]"}; t += s.pick(suf); of = -1; } } else t = at[k - 4 == 1 ? 1 : k - 4 == 2 ? 5 : 0]; u.claim(strf("bool(c4::is_instance_of_tpl<%s, %s>::value) == %d", tpl[q], t.c_str(), (int)(of == (int)q)), t + " of " + tpl[q]); s.note(t); }
    u.check(s, c);
}
PBT_TEST(sequences, 2)
{
    Comp c = compiler(s); Unit u; u.head = std::string(s.coin() ? "#include <c4/types.hpp>\n" : "#include <c4/config.hpp>\n") + "#include <type_traits>\ntemplate<class S, class T> struct Is { static constexpr bool v = false; }; template<class T, T... I> struct Is<c4::integer_sequence<T, I...>, T> { static constexpr bool all(T) { return true; } template<class... R> static constexpr bool all(T k, T a, R... r) { return a == k && all(T(k + 1), r...); } static constexpr bool v = all(T(0), I...); };\ntemplate<class T> constexpr long long sz() { return (long long)T::size(); }\n"; static const char *ty[] = {"int", "unsigned", "size_t", "short", "long long", "unsigned char", "char"}; size_t n = s.range(1, 12);
    for(size_t i = 0; i < n; ++i) { const char *t = ty[s.draw(7)]; int k = s.coin() ? (int)s.draw(20) : s.coin() ? (int)s.draw(70) : (int)s.draw(126); switch(s.draw(3)) { case 0: u.claim(strf("Is<c4::make_integer_sequence<%s, %d>, %s>::v && sz<c4::make_integer_sequence<%s, %d>>() == %d && std::is_same<c4::make_integer_sequence<%s, %d>::value_type, %s>::value", t, k, t, t, k, k, t, k, t), strf("make_integer_sequence<%s, %d>", t, k)); break; case 1: { int kk = s.chance(1, 4) ? k * 3 : k; u.claim(strf("Is<c4::make_index_sequence<%d>, std::size_t>::v && sz<c4::make_index_sequence<%d>>() == %d", kk, kk, kk), strf("make_index_sequence<%d>", kk)); break; } default: { std::string l; int m = k % 12; for(int j = 0; j < m; ++j) l += std::string(j ? ", " : "") + ty[s.draw(7)]; u.claim(strf("std::is_same<c4::index_sequence_for<%s>, c4::make_index_sequence<%d>>::value", l.c_str(), m), "index_sequence_for<" + l + ">"); } } }
    u.check(s, c);
}
PBT_TEST(counts, 1)
{
    Comp c = compiler(s); Unit u; u.head = "#include <c4/preprocessor.hpp>\nstruct Q { char c[3]; double d; };\n"; static const char *ty[] = {"char", "int", "Q", "double", "void*"}; size_t n = s.range(1, 30);
    for(size_t i = 0; i < n; ++i) { int k = 1 + (int)s.draw(s.coin() ? 5 : 1000), m = 1 + (int)s.draw(7); const char *t = ty[s.draw(5)]; u.head += strf("extern %s a%zu[%d]; extern %s b%zu[%d][%d];\n", t, i, k, t, i, k, m); std::string str((size_t)s.draw(30), 'x'); u.claim(strf("C4_COUNTOF(a%zu) == %d && C4_COUNTOF(b%zu) == %d && C4_COUNTOF(b%zu[0]) == %d && 1000 %% C4_COUNTOF(a%zu) == %d && C4_COUNTOF(\"%s\") == %zu && sizeof(C4_WIDEN(\"%s\")) == %zu * sizeof(wchar_t)", i, k, i, k, i, m, i, 1000 % k, str.c_str(), str.size() + 1, str.c_str(), str.size() + 1), strf("%s[%d], %s[%d][%d], text of %zu", t, k, t, k, m, str.size())); }
    u.check(s, c);
}
// what the configuration macros say is what the compiler is
PBT_TEST(configuration, 2)
{
    Comp c = compiler(s); Unit u; static const char *hs[] = {"c4/config.hpp", "c4/common.hpp", "c4/error.hpp", "c4/substr.hpp", "c4/language.hpp"}; int forced = 0; bool noexc = s.chance(1, 4), nortti = s.chance(1, 4); if(noexc) c.args.push_back("-fno-exceptions"); if(nortti) c.args.push_back("-fno-rtti"); static const int lv[] = {11, 14, 17, 20};
    if(s.chance(1, 2)) { std::vector<int> ok; for(int l : lv) if(l <= c.cpp) ok.push_back(l); forced = ok[s.draw(ok.size())]; c.args.push_back(strf("-DC4_CPP=%d", forced)); } int cpp = forced ? forced : c.cpp; u.head = strf("#include <%s>\n", forced || noexc ? "c4/language.hpp" : hs[s.draw(5)]);
    s.note(u.head + strf("forced %d", forced)); u.claim(strf("C4_CPP == %d", cpp), "C4_CPP"); for(int l : lv) { u.body += strf("#if defined(C4_CPP%d) != %d\nstatic_assert(false, \"claim %zu\");\n#endif\n", l, (int)(l <= cpp), u.n); u.claim("true", strf("C4_CPP%d in C++%d", l, cpp)); }
    if(c.cxx == "g++") u.claim("C4_GCC_VERSION == __GNUC__ * 10000 + __GNUC_MINOR__ * 100 + __GNUC_PATCHLEVEL__", "C4_GCC_VERSION"); else u.claim("C4_CLANG_VERSION == __clang_major__ * 10000 + __clang_minor__ * 100 + __clang_patchlevel__", "C4_CLANG_VERSION");
    u.body += strf("#if defined(C4_GCC) != %d || defined(C4_CLANG) != %d || defined(C4_MSVC) || defined(C4_ICC) || !defined(C4_GCC_LIKE)\nstatic_assert(false, \"claim %zu\");\n#endif\n", (int)(c.cxx == "g++"), (int)(c.cxx != "g++"), u.n); u.claim("true", "the compiler"); 
    u.body += strf("#if defined(C4_EXCEPTIONS) != %d || defined(C4_RTTI) != %d\nstatic_assert(false, \"claim %zu\");\n#endif\n", (int)!noexc, (int)!nortti, u.n); u.claim("true", "exceptions and run-time types"); u.claim(strf("C4_IF_EXCEPTIONS_(1, 2) == %d && C4_IF_RTTI_(1, 2) == %d", noexc ? 2 : 1, nortti ? 2 : 1), "C4_IF_EXCEPTIONS_, C4_IF_RTTI_");
    u.head += "#include <c4/cpu.hpp>\n#include <c4/platform.hpp>\n"; u.claim("C4_WORDSIZE == sizeof(void*) && C4_LITTLE_ENDIAN == (__BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__) && C4_BIG_ENDIAN == (__BYTE_ORDER__ == __ORDER_BIG_ENDIAN__) && !C4_MIXED_ENDIAN", "word size and byte order"); u.body += strf("#if !defined(C4_UNIX) || !defined(C4_LINUX) || !defined(C4_POSIX) || defined(C4_WIN)\nstatic_assert(false, \"claim %zu\");\n#endif\n", u.n); u.claim("true", "the platform");
    u.body += "C4_FLATTEN int f1(int x); C4_FLATTEN int f1(int x) { C4_ASSUME(x > 0); C4_UNUSED(x); return C4_LIKELY(x == 1) ? C4_EXPECT(x, 1) : C4_UNLIKELY(x == 3) ? 2 : 3; } C4_ALWAYS_INLINE int f2() { return 1; } C4_NO_INLINE int f3() { return f2(); } C4_HOT int f4(); C4_COLD int f5(); C4_CONST int f6(int); C4_PURE int f7(int); C4_NORETURN void f8(); C4_NODISCARD int f9(); C4_DEPRECATED(\"x\") int f10(); C4_CONSTEXPR14 int f11() { return 3; } C4_CONSTEXPR11 int f12() { return 4; } C4_INLINE_CONSTEXPR int k13 = 5; C4_STATIC_ASSERT(k13 == 5); C4_STATIC_ASSERT_MSG(f12() == 4, \"four\"); int f14(int * C4_RESTRICT p) { if C4_IF_CONSTEXPR (sizeof(int) == 4) return *p; C4_UNREACHABLE(); }\n#include <c4/restrict.hpp>\nint f15(int $ a, int c$ b, int $$ r, int c$$ q) { return *a + *b + r + q; }\n#include <c4/unrestrict.hpp>\n#ifdef $\nstatic_assert(false, \"restrict leftover\");\n#endif\n"; if(cpp >= 14 && c.cpp >= 14) u.claim("f11() == 3", "C4_CONSTEXPR14"); u.check(s, c);
}

// a sized wrapper is its value plus room
struct Cnt { static int copies, moves; std::string t; int v; Cnt() : v(0) {} Cnt(std::string const& t_, int v_) : t(t_), v(v_) {} Cnt(Cnt const& o) : t(o.t), v(o.v) { ++copies; } Cnt(Cnt && o) : t(std::move(o.t)), v(o.v) { ++moves; o.v = -1; } Cnt& operator= (Cnt const& o) { t = o.t; v = o.v; ++copies; return *this; } Cnt& operator= (Cnt && o) { t = std::move(o.t); v = o.v; o.v = -1; ++moves; return *this; } Cnt& operator= (int k) { v = k; return *this; } bool is(std::string const& a, int b) const { return t == a && v == b; } };
int Cnt::copies, Cnt::moves;
template<class P> static void padded(Src &s)
{
    enum { N = 3 }; struct Mem { char lo[16]; alignas(16) char m[N][(sizeof(P) + 15) / 16 * 16]; char hi[16]; }; alignas(16) Mem m; memset((void*)&m, 0x6b, sizeof m); P *p[N]; std::string t[N]; int v[N]; for(int i = 0; i < N; ++i) { t[i] = s.str(30, "abc"); v[i] = (int)s.draw(1000); p[i] = new ((void*)m.m[i]) P(t[i], v[i]); } size_t n = s.range(1, 20); std::string log;
    for(size_t k = 0; k < n; ++k)
    {
        int i = (int)s.draw(N), j = (int)s.draw(N), c = 0, mv = 0; size_t op = s.draw(7); log += strf("%zu:%d%d ", op, i, j); Cnt::copies = Cnt::moves = 0;
        switch(op) { case 0: { Cnt x(t[j], v[j]); P q(x); PBT_CHECKM(q.is(t[j], v[j]) && x.is(t[j], v[j]), "wrapping a value changed it"); c = 1; break; } case 1: { Cnt x(t[j], v[j]); P q(std::move(x)); PBT_CHECKM(q.is(t[j], v[j]) && x.v == -1, "wrapping a temporary did not take it"); mv = 1; break; } case 2: *p[i] = *p[j]; t[i] = t[j]; v[i] = v[j]; c = 1; break; case 3: { P q(*p[j]); *p[i] = std::move(q); t[i] = t[j]; v[i] = v[j]; c = 1; mv = 1; break; } case 4: { int z = (int)s.draw(100); *p[i] = z; v[i] = z; break; } case 5: { std::string z = s.str(30, "xy"); Cnt x(z, k); *p[i] = static_cast<Cnt const&>(x); t[i] = z; v[i] = (int)k; c = 1; break; } default: { Cnt &r = *p[i]; r.v += 1; ++v[i]; } }
        PBT_CHECKM(Cnt::copies == c && Cnt::moves == mv, "operation %zu made %d copies and %d moves, expected %d and %d", op, Cnt::copies, Cnt::moves, c, mv); for(int a = 0; a < N; ++a) PBT_CHECKM(p[a]->is(t[a], v[a]), "value %d after operation %zu", a, op);
    }
    s.note(log); s.nontrivial(log + strf("%zu", sizeof(P))); for(int i = 0; i < N; ++i) { p[i]->~P(); for(size_t q = sizeof(P); q < sizeof m.m[i]; ++q) PBT_CHECKM(m.m[i][q] == 0x6b, "wrote past the object"); } for(int q = 0; q < 16; ++q) PBT_CHECK(m.lo[q] == 0x6b && m.hi[q] == 0x6b);
}
PBT_TEST(padded_values, 200) { using namespace c4; switch(s.draw(5)) { case 0: padded<Padded<Cnt, 0>>(s); break; case 1: padded<Padded<Cnt, 13>>(s); break; case 2: padded<MinSized<Cnt, 77>>(s); break; case 3: padded<MultSized<Cnt, 48>>(s); break; default: padded<UbufSized<Cnt>>(s); } }
