"""C14: whatever the input, the options and the state of the output directory, the generator ends normally and its exit status tells the truth."""
import os, re, resource, signal, subprocess
from . import build, hgen, tool
from .hgen import *
from .pbt import Violation, Inconclusive

FEAT = dict(clash=True, ws=True, mdecl=True, tmacro=True, api=True, ienum=True, irecptr=True, fparam=True, aparam=True, bigenum=True, cpost=True, kr=True, mfun=True,
            arrtd_param=True, arrtd=True, macro2=True, multidim=True, multidim_param=True, packed=True)

# valid declarations of all kinds; @ is replaced by a number
SNIPPETS = [
    "_Complex double cplx@(float _Complex a);", "struct cx@ { double _Complex z; int a; }; void usecx@(struct cx@ *p);",
    "typedef int v4si@ __attribute__((vector_size(16))); v4si@ vec@(v4si@ a);", "_Atomic int atom@; void useatom@(_Atomic int *p);",
    "void atomfn@(_Atomic(long) *p, int b);", "typedef int fnt@(int, char *); fnt@ viatype@; void takesfn@(fnt@ *f, fnt@ g);",
    "int (*retfp@(int a))(int, char);", "int (*(*retfp2@(void))(int))(long);", "int vla@(int n, int a[n]);", "int vla2@(int n, int a[*]);", "int vla3@(int n, int m, double a[n][m]);",
    "int pa@(int (*a)[4], int (*b)[2][3]);", "typedef int arr@[5]; void usearr@(arr@ a, arr@ *b, const arr@ c);", "struct arrs@ { int a[2][3][4]; int (*p)[3]; arrq@ b; };",
    "static inline int inl@(int a) { return a + 1; }", "static int unused@(void);", "inline int inl2@(int a) { return a; }", "extern inline int inl3@(int a);",
    "int redecl@(int a); int redecl@(int b); extern int redecl@(int);", "int kr@();", "void vol@(volatile int *p, volatile char c);", "void restr@(char *restrict a, const char *__restrict b);",
    "struct flex@ { int n; char data[]; }; void useflex@(struct flex@ *p);", "struct zero@ { int n; char data[0]; }; struct zero@ *retzero@(void);", "struct empty@ { }; void useempty@(struct empty@ e, struct empty@ *p);",
    "union empt@ { }; void useempt@(union empt@ *p);", "typedef union { int *i; float *f; } tu@ __attribute__((transparent_union)); void usetu@(tu@ a);",
    "struct __attribute__((packed)) pk@ { char a; int b; }; void usepk@(struct pk@ p);", "struct al@ { _Alignas(16) char a; } __attribute__((aligned(32))); void useal@(struct al@ p);",
    "enum e@ { A@ = -1, B@ = 'x', C@ = sizeof(int), D@ = (1 ? 2 : 3), }; void usee@(enum e@ a);", "enum fwdenum@; ", "enum { ANON@ }; void useanon@(int a);",
    "_Noreturn void nr@(void);", "void __attribute__((noreturn, format(printf, 1, 2))) fm@(const char *f, ...);", "void as@(int a) __asm__(\"other@\");", "__typeof__(int) ty@(__typeof__(1 + 1L) a);",
    "_Static_assert(sizeof(int) == 4, \"x\");", "#pragma pack(push, 1)\nstruct pp@ { char a; long b; };\n#pragma pack(pop)\nvoid usepp@(struct pp@ a);", "_Pragma(\"GCC poison poisoned@\")\nint afterpragma@(void);",
    "#line 77 \"elsewhere@.h\"\nint lined@(int a);\nint lined2@(void);", "# 12 \"a b:c@.h\" 1\nint marker@(int a);", "int dollar$@(int a$b);", "int caf\u00e9@(int \u00e9l\u00e8ve);", "int conti\\\nnued@(int a\\\n, int b);",
    "int <:dig@(void); ".replace("<:", "") + "int digr@(int a<:3:>);", "extern int var@, *varp@; extern const char *const names@[];", "_Thread_local extern int tls@;".replace("_Thread_local extern", "extern _Thread_local"),
    "typedef struct self@ self@; struct self@ { self@ *next; void (*f)(self@ *); }; self@ *useself@(self@ **a);", "typedef struct { struct { struct { int x; }; union { int y; float z; }; }; } deep@; deep@ usedeep@(deep@ a);",
    "typedef struct tagfn@ *(*fntd@)(struct tagfn@ *, fnarg@); void usefntd@(fntd@ f);", "void structinparam@(struct onlyhere@ *p);", "void longp@(int a0,int a1,int a2,int a3,int a4,int a5,int a6,int a7,int a8,int a9,int b0,int b1,int b2,int b3,int b4,int b5,int b6,int b7,int b8,int b9);",
    "int ****ptr4@(char ****a, const char *const *const *b);", "void multi@(void), multi2@(int), *multi3@(long);", "int a@, fnmix@(int), *b@;", "typedef int td1@, *td2@, (*td3@)(int); td2@ usetds@(td1@ a, td3@ b);",
    "#define EMPTY@\nEMPTY@ int mac@(EMPTY@ int a EMPTY@) EMPTY@;", "#define FN@(n) int n##@(int a, int b)\nFN@(pasted);", "#define LOOP@ LOOP@\nint loop@(int a);", "#define STR@ \"un\\\"closed\nint str@(void);".replace("un\\\"closed", "a\\\"b\""),
    "#define VA@(f, ...) f(__VA_ARGS__)\nint VA@(vafn@, int a, char b);", "#if 0\nint skipped@(\n#endif\nint notskipped@(int a);", "#ifdef __cplusplus\nextern \"C\" {\n#endif\nint cpp@(void);\n#ifdef __cplusplus\n}\n#endif",
    "#include <stdio.h>\nint file@(FILE *f, size_t n);", "#include <stdarg.h>\nint val@(const char *f, va_list ap);", "#include <time.h>\nint tm@(struct tm *t, time_t x);", "#include <pthread.h>\nint thr@(pthread_mutex_t *m, pthread_t t);",
    "#include <math.h>\nfloat_t mth@(double_t x);", "#include <stdint.h>\n#include <stdbool.h>\nbool bl@(bool a, uint_fast16_t b, intmax_t c);", "#include <complex.h>\ndouble complex cxx@(float complex *p);", "#include <sys/socket.h>\nint sk@(const struct sockaddr *a, socklen_t *l);",
    "#include <signal.h>\nvoid sg@(siginfo_t *i, sigset_t s);", "#include <wchar.h>\nwchar_t *wc@(const wchar_t *a, mbstate_t *s);", "#include <setjmp.h>\nvoid sj@(jmp_buf b);",
    "/* comment with int f(int); and * / */ int cm@(int /* in */ a, /* , */ int b /* ) */);", "// int no(int);\nint ln@(int a, // first\n int b // second )\n);", "/** \"quote */ int q@(void); /* ' */",
    "int attrpar@(int a __attribute__((unused)), int b);", "__attribute__((deprecated(\"use (other), not this\"))) int dep@(int a);", "__attribute__((warn_unused_result)) __attribute__((nonnull(1))) int nn@(int *p);",
    "int __attribute__((const)) cst@(int a);", "[[maybe_unused]] int;".replace("[[maybe_unused]] int;", "int std@(void);"), "extern int const *const cc@(const int *const a);", "int const volatile *cv@(int const volatile *a);",
    "void fparr@(int (*a[3])(int));", "struct fpf@ { int (*f)(int a, int (*cb)(void *)); int (*arr[2])(void); }; void usefpf@(struct fpf@ *p);", "struct bf@ { int a : 3, : 0, b : 5; unsigned c : 1; _Bool d : 1; }; void usebf@(struct bf@ x);",
    "struct nested@ { struct in@ { int a; } i; struct in@ *p; enum ie@ { Q@ } e; }; void usenested@(struct nested@ n, struct in@ i);", "void names@(int error, int matcher, int to_return, int currentCall, int easyMock_x, int idx, int numCalls);",
    "int to_return@(int printCallStack, int call, int cur);", "void gen@(long long unsigned int a, unsigned long int long b, signed s, short unsigned int c);", "__extension__ typedef long long ext@; ext@ useext@(ext@ a);", "__int128 i128@(unsigned __int128 a);",
    "typedef __builtin_va_list bva@; void usebva@(bva@ a);", "void noparamname@(int, char *, void (*)(int));", "int varia@(int a, ...);", "struct opaque@; struct opaque@ *mk@(void); void del@(struct opaque@ *);", "typedef void vd@; vd@ usevd@(vd@);",
    "typedef const int ci@; ci@ useci@(ci@ a, ci@ *b);", "const struct cst_s@ { int a; } *usecs@(void);", "typedef enum te@ te@; enum te@ { TE@ }; te@ usete@(te@ a);".replace("typedef enum te@ te@; enum te@ { TE@ };", "enum te@ { TE@ }; typedef enum te@ te@;"),
    "__float128 f128@(__float128 a);", "unsigned char uc@[3]; signed char sc@(signed char a);", "struct s_@ { int struct_, union_; const char *class_; }; void uses_@(struct s_@ a);", "int main(int argc, char **argv);",
    "#define getter@(x) x\nint (getter@)(int a);", "int (paren@)(int a);", "int (*(fpr@))(int);", "void *malloc@(__SIZE_TYPE__ n) __attribute__((malloc, alloc_size(1)));", "struct p2@ { int *a, **b, c[2], (*d)[2]; }; void usep2@(struct p2@ *x);",
]
SNIPPETS = [s for s in SNIPPETS if "arrq@" not in s and "fnarg@" not in s]
BROKEN = ["unknown@_t bad@(int a);", "int bad@(unknown@_t *p);", "struct brk@ { unknown@_t f; };", "int bv@ = ;", "typedef unk@ tdb@;", "int bad@(int a;", "struct brk@ { int a };", "#error stop@", "#include \"missing@.h\"",
          "int x@; float x@;", "int bad@(int a int b);", "@@@;", "enum eb@ { };", "int arr@[-1];", "struct incompl@ vari@;", "typedef struct { int a; int a; } dup@;", "int bad@(void) { return unknown@; }", "\"stray@\";", "} ", "#if\n", "int dd@(int a, int a);"]
TOKENS = ["int", "struct", "(", ")", "{", "}", ";", "*", "[", "]", ",", "...", "const", "void", "typedef", "union", "enum", "\"", "'", "#", "\\", "/*", "*/", "//", "__attribute__((", "0x", "1e", ":", "=", "static", "extern", "\0", "\xff", "\n", "#include", "#define X", "%", "<", "sizeof", "operator", "class", "template<", "&", "~"]
EXTRA_OPTS = [["--generate-types"], ["--mock-only", "fn1"], ["--ignore-generation-of", "fn1"], ["--generate-comparator-of", "EasyMock_all_comparators"], ["--generate-attribute", "format"], ["--generate-attribute", "visibility"],
              ["--ignore-field-generation-of", "size_t"], ["--generate-included-functions"], ["-DX=1"], ["-UX"], ["-I/nonexistent"], ["--generate-comparator-of", "nothing"]]


def shared():
    return {"gen": build.generator("plain"), "gen_asan": build.generator("asan")}


def snippet(src, i):
    return src.choice(SNIPPETS).replace("@", str(i))


def valid_text(src):
    """A header that should be valid C, and the names of plainly declared functions in it."""
    fns = []
    parts = []
    if src.bool(3, 4):
        h = hgen.Gen(src, FEAT).header("hdr.h")
        parts.append("\n".join("#include " + i for i in h.includes))
        parts += h.chunks
        fns = [f.name for f in h.funcs]
    for i in range(src.int(0, 4) if parts else src.int(1, 6)):
        parts.insert(src.int(0, len(parts)), snippet(src, 100 + i))
    return "\n".join(parts) + src.choice(["\n", "", "\n\n", "\r\n", " "]), fns


def mutate(src, t):
    for _ in range(src.int(1, 4)):
        n = len(t)
        i = src.int(0, n)
        j = min(n, i + src.choice([1, 1, 2, 5, 20, 100]))
        k = src.choice(["del", "ins", "dup", "trunc", "swap", "byte", "line", "subst"])
        if k == "del":
            t = t[:i] + t[j:]
        elif k == "ins":
            t = t[:i] + src.choice(TOKENS) + t[i:]
        elif k == "dup":
            t = t[:j] + t[i:j] * src.choice([1, 1, 1, 2, 50]) + t[j:]
        elif k == "trunc":
            t = t[:i]
        elif k == "swap":
            l = src.choice([1, 3, 10])
            t = t[:i] + t[j:j + l] + t[i:j] + t[j + l:]
        elif k == "byte":
            t = t[:i] + chr(src.int(1, 255)) + t[i + 1:]
        elif k == "line":
            ls = t.split("\n")
            a = src.draw(len(ls))
            ls.insert(src.int(0, len(ls)), ls.pop(a))
            t = "\n".join(ls)
        else:
            ws = list(re.finditer(r"[A-Za-z_]\w*|[^\w\s]", t))
            if ws:
                m = ws[src.draw(len(ws))]
                t = t[:m.start()] + src.choice([ws[src.draw(len(ws))].group(0), src.choice(TOKENS)]) + t[m.end():]
    return t


def garbage(src):
    k = src.choice(["bytes", "tokens", "deep", "long", "empty", "blank"])
    if k == "bytes":
        return "".join(chr(src.int(0, 255)) for _ in range(src.int(1, 60)))
    if k == "tokens":
        return " ".join(src.choice(TOKENS) for _ in range(src.int(1, 40)))
    if k == "deep":
        n = src.choice([10, 100, 200])
        return src.choice(["int f(" + "int (*" * n + "p" + ")(void)" * n + ");", "struct s { " * n + "int a; " + "} m; " * n, "int f(int " + "*" * n + "p);", "int f" + "(" * n + "int a" + ")" * n + ";", "typedef int t0; " + "".join("typedef t%d *t%d; " % (i, i + 1) for i in range(n)) + "void f(t%d a);" % n])
    if k == "long":
        n = src.choice([1000, 5000, 70000])
        return src.choice(["int " + "f" * n + "(int a);", "int f(int " + "p" * n + ");", "struct " + "s" * n + " { int a; }; void f(struct " + "s" * n + " x);", "/*" + "c" * n + "*/ int f(int a);", "#define M " + "1 + " * n + "1\nint f(int a);"])
    return {"empty": "", "blank": src.choice([" ", "\n\n", "/* only */", "// x", "#define A 1", "typedef int t;", "int v;", ";;"])}[k]


def accepts(cc, path, opts, lang):
    old = ["-Wno-error=" + x for x in ("implicit-int", "implicit-function-declaration", "int-conversion", "incompatible-function-pointer-types")] if cc == "clang" else []   # warnings up to clang 15
    p = tool.cc([cc, "-w"] + old + [ "-x" + lang, "-fsyntax-only", "-ferror-limit=0" if cc.startswith("clang") else "-fmax-errors=0", path] + opts)
    return p.returncode == 0


def chatter(text):
    return [l.strip() for l in text.replace("\r", "").splitlines() if l.strip() and not re.match(r"\s*(Generating .* in |Warning: (Undefining|Redefining))", l)]


def run_gen(exe, args, limit=None, cwd=None):
    def pre():
        if limit is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    try:
        return subprocess.run([exe] + args, capture_output=True, text=True, errors="replace", timeout=60, env=tool.ENVG, stdin=subprocess.DEVNULL, preexec_fn=pre, cwd=cwd)
    except subprocess.TimeoutExpired:
        raise Violation("hang", "the generator did not end within 60 s: %s" % args)


def ended(p, args):
    if p.returncode not in (0, 1):
        det = [l for l in p.stderr.splitlines() if "ERROR" in l or "runtime error" in l or "ssert" in l or "what()" in l or "terminate" in l or "unexpected here" in l or re.search(r"#[1-6] .* in ", l)][:8]
        raise Violation("crash", "exit status %d: %s" % (p.returncode, " | ".join(det)[:900] or p.stderr[-600:]))
    if p.returncode and not chatter(p.stderr):
        raise Violation("no-message", "exit status %d without a message" % p.returncode)


def complete(d, base):
    """Both files there and whole; returns what is wrong or None."""
    for e in ("h", "cpp" if os.path.exists(os.path.join(d, "easyMock_%s.cpp" % base)) else "c"):
        f = os.path.join(d, "easyMock_%s.%s" % (base, e))
        if not os.path.isfile(f):
            return "easyMock_%s.%s is not a file after exit status 0" % (base, e)
        if os.path.getsize(f) == 0:
            return "easyMock_%s.%s is empty after exit status 0" % (base, e)
        # a cut file has an unbalanced conditional or brace
        t = re.sub(r'"(\\.|[^"\\\n])*"|\'(\\.|[^\'\\\n])*\'|//[^\n]*|/\*.*?\*/', " ", tool.read(f), flags=re.S)
        nif = len(re.findall(r"^\s*#\s*if", t, re.M)) - len(re.findall(r"^\s*#\s*endif", t, re.M))
        if nif:
            return "easyMock_%s.%s has unbalanced conditionals after exit status 0" % (base, e)
    return None


def c14(src, ctx):
    w = ctx.work
    kind = src.weighted([(6, "valid"), (6, "mutated"), (2, "garbage"), (4, "broken"), (4, "fault"), (2, "cpp")])
    asan = src.bool(1, 3)
    gen = ctx.shared["gen_asan" if asan else "gen"]
    opts = []
    for o in src.subset(EXTRA_OPTS, 1, 9):
        opts += o
    ign = src.bool(1, 4)
    os.makedirs(w + "/in")
    os.makedirs(w + "/out")
    files = {}
    fns = []
    lang = "c"
    base = src.choice(["hdr.h"] * 6 + ["a-b.h", "x y.h", "noext", "a.b.h", ".h", "caf\u00e9.h", "h" * 200 + ".h"])
    if kind == "valid":
        text, fns = valid_text(src)
    elif kind == "mutated":
        text, _ = valid_text(src)
        text = mutate(src, text)
    elif kind == "garbage":
        text = garbage(src)
    elif kind == "broken":
        h = hgen.Gen(src, dict(max_types=2, macros=False, comments=False)).header("hdr.h")
        fns = [f.name for f in h.funcs]
        parts = ["\n".join("#include " + i for i in h.includes)] + h.chunks
        for i in range(src.int(1, 3)):
            b = src.choice(BROKEN).replace("@@@;", "@at;").replace("@at", "@ at").replace("@", str(i)) if False else src.choice(BROKEN)
            parts.insert(src.int(0, len(parts)), b.replace("@", str(i)))
        text = "\n".join(parts) + "\n"
        opts = [o for o in opts if o in ("-DX=1", "-UX")]
    elif kind == "cpp":
        lang = "c++"
        text = src.choice(["class K { public: int m(int a); K(); ~K(); static int s(); virtual void v() const; };", "namespace n { int f(int &r); }", "template<typename T> T t(T a);", "int over(int a); int over(char b);", "struct S { int operator+(int); operator bool(); };",
                           "enum class E : char { A }; int f(E e);", "int f(int a = 3, const char *s = \"x\");", "int f(int &&r) noexcept; auto g() -> int;", "#include <string>\nint f(const std::string &s);", "#include <vector>\nstd::vector<int> v();", "extern \"C\" int c(int);",
                           "using T = int; T f(T a);", "namespace { int anon(); } namespace a::b { class C { public: int f(int); }; }", "class F; int f(F *a); int g(F &b);", "struct D { int a; D() = delete; }; void f(D *d);", "class I { protected: int p(); private: int q(); };", "class A { public: A *m(A *a); A &n(A &b); A o(A c); A *p; };", "class G; class F { public: G *g(F *f); G *p; }; class G { public: F *f(G *g); F*q; }; void f(G *g);",
                           "struct F { struct G {void f(F *g); }; G h(G *g); G x; };", "struct B { virtual void a(B*) = 0; }; struct C : B { void a(B*) override; void c(C*); }; void f(C *c, B*b);", "struct M { M(); M(const M&); M(M&&); M& operator=(const M&); bool operator==(const M&) const; M* clone() const; };",
                           "template<class T> struct V { void f(V<T> *a); V *g(V &); T t; }; void f(V<int> v); void g(V<V<int>> *v);", "struct A2 { int a; void (*f)(A2 *); int m(void (*g)(A2 *)); };", "#include <map>\n#include <functional>\nint m(std::map<int, int> &m, std::function<int(int)> f);",
                           "constexpr int k(int a) { return a; } inline int l() { return 1; } int z();", "[[nodiscard]] int f(int a); [[noreturn]] void g();", "namespace x { struct S { int a; }; namespace y { S *f(const S &s); } using y::f; }", "typedef struct { int a; bool b; } P; P f(P p, const P *q, P &r); bool g(wchar_t a, char16_t b, char32_t c);",
                           "union U { int a; float b; }; enum E { A, B }; U f(E e, U &u); struct L { static L *get(); ~L(); operator int() const; L operator[](int i); };"])
        if src.bool(1, 3):
            text = mutate(src, text)
        opts += ["--mock-cpp"] if src.bool(5, 6) else []
    else:
        text, fns = valid_text(src)
    path = w + "/in/" + base
    with open(path, "w", encoding="latin1" if kind in ("mutated", "garbage") else "utf-8", errors="replace") as f:
        f.write(text)
    files["in/" + base] = text
    args = ["-i", path, "-o", w + "/out"] + opts + (["--ignore-parser-error"] if ign else [])
    files["arguments"] = " ".join(args).replace(w, "")
    stem = os.path.splitext(base)[0] if "." in base else base
    try:
        if kind == "fault":
            fault(src, ctx, gen, w, base, path, args)
            return
        cc_opts = [o for o in opts if o.startswith(("-D", "-U", "-I"))]
        acc = [accepts(c, path, cc_opts, lang) for c in (("gcc", "clang") if lang == "c" else ("g++", "clang++"))]
        p = run_gen(gen, args)
        ended(p, args)
        state = "accepted" if all(acc) else "rejected" if not any(acc) else "undecided"
        if lang == "c++" and "--mock-cpp" not in opts or base in ("noext", ".h"):
            state = "undecided"     # no language is implied by the name of the file
        if state == "accepted" and p.returncode and only_unsupported(text, p.stderr):
            state = "unsupported"
        if state == "accepted" and p.returncode:
            raise Violation("rejected", "gcc and clang accept the header, the generator fails: %s" % tool.err_tail(p))
        if state == "rejected" and not p.returncode and not ign:
            raise Violation("accepted", "gcc and clang reject the header, the generator succeeds")
        if p.returncode == 0:
            out = [f for f in os.listdir(w + "/out")]
            if len(out) != 2:
                raise Violation("incomplete", "exit status 0 with the output files %s" % out)
            bad = complete(w + "/out", [f for f in out if f.endswith(".h")][0][len("easyMock_"):-2])
            if bad:
                raise Violation("incomplete", bad)
        if fns and ign and kind == "broken" and state != "undecided" and not any(x in text for x in ("#error", "#if\n", "} \n")):
            if p.returncode:
                raise Violation("ignored", "--ignore-parser-error, and still exit status %d: %s" % (p.returncode, tool.err_tail(p)))
            t = tool.read(w + "/out/easyMock_%s.h" % stem)
            missing = [f for f in fns if not re.search(r"\b%s_ExpectAndReturn\b" % f, t)]
            # what the compiler itself recovers: functions whose declaration clang keeps
            kept = ast_functions(path)
            missing = [f for f in missing if f in kept]
            if missing:
                raise Violation("not-mocked", "functions parsed in spite of the errors are not mocked: %s" % missing)
        if state == "accepted" and kind == "valid" and fns and not any(o.startswith(("--mock-only", "--ignore-gen")) for o in opts):
            t = tool.read([os.path.join(w, "out", f) for f in os.listdir(w + "/out") if f.endswith(".h")][0])
            missing = [f for f in fns if not re.search(r"\b%s_ExpectAndReturn\b" % f, t)]
            if missing:
                raise Violation("incomplete", "exit status 0 without a mock of %s" % missing)
        ctx.label(kind + "_" + state)
        ctx.label("rc%d" % p.returncode)
        ctx.label("asan", int(asan))
        ctx.count()
        if kind != "garbage":
            ctx.hit((kind, text, tuple(opts), ign))
        ctx.sample = {"kind": kind, "header": text[:800], "arguments": files["arguments"], "status": p.returncode, "compilers": state}
    except Violation as v:
        v.files.update(files)
        raise


def only_unsupported(text, err):
    """Open finding unsupported_types: the generator says that it cannot mock a function that uses one of these types."""
    errors = [l for l in err.splitlines() if re.search(r"error: ", l) and "too many errors emitted" not in l]
    return bool(errors) and all("can't be mocked" in l for l in errors) and re.search(r"_Complex|complex|_Atomic|vector_size|__float128|nullptr|wchar_t|char16_t|char32_t|::\*|#include <(string|vector|map|memory|functional)>", text)


def ast_functions(path):
    """Functions the compiler's parser keeps and considers valid."""
    p = tool.cc(["clang", "-w", "-xc", "-fsyntax-only", "-ferror-limit=0", "-Xclang", "-ast-dump", "-fno-color-diagnostics", path])
    return {m.group(1) for m in re.finditer(r"^[|`]-FunctionDecl 0x\w+ (?:prev 0x\w+ )?<[^>]*> \S+ (?:referenced |used )?(\w+) '", p.stdout, re.M)}


def fault(src, ctx, gen, w, base, path, args):
    """Something is wrong with a path or the file system."""
    k = src.choice(["missing", "inputdir", "nodir", "outfile", "dir_c", "dir_h", "full_c", "full_h", "limit", "limit", "limit", "limit", "dangling", "stale", "relative"])
    args = list(args)
    if base in ("noext", ".h"):
        return      # no language is implied by the name of the file
    out = w + "/out"
    stem = os.path.splitext(base)[0]
    if base in (".h", "noext"):
        stem = base
    c = tool.cc(["gcc", "-w", "-xc", "-fsyntax-only", path])
    ref_dir = w + "/ref"
    os.makedirs(ref_dir)
    rargs = list(args)
    rargs[3] = ref_dir
    ref = run_gen(gen, rargs)
    ended(ref, rargs)
    if ref.returncode and only_unsupported(tool.read(path), ref.stderr):
        return
    if ref.returncode:
        raise Inconclusive("no reference output: " + tool.err_tail(ref))
    names = sorted(os.listdir(ref_dir))
    limit, must_fail, cwd = None, None, None
    hname = [n for n in names if n.endswith(".h")][0]
    cname = [n for n in names if n.endswith(".c")][0]
    if k == "missing":
        args[1] = w + "/in/nothing.h"
        must_fail = True
    elif k == "inputdir":
        args[1] = w + "/in"
        must_fail = True
    elif k == "nodir":
        args[3] = w + "/none/" + src.choice(["", "x"])
        must_fail = True
    elif k == "outfile":
        args[3] = path
        must_fail = True
    elif k in ("dir_c", "dir_h"):
        os.mkdir(os.path.join(out, cname if k == "dir_c" else hname))
        must_fail = True
    elif k in ("full_c", "full_h"):
        os.symlink("/dev/full", os.path.join(out, cname if k == "full_c" else hname))
        must_fail = True
    elif k == "dangling":
        os.symlink(w + "/nowhere/x", os.path.join(out, cname))
        must_fail = True
    elif k == "limit":
        sizes = sorted(os.path.getsize(os.path.join(ref_dir, n)) for n in names)
        limit = src.choice([0, 1, 100, sizes[0] - 1, sizes[0], sizes[1] - 1, sizes[1], src.int(0, sizes[1]), 4096, 8192, sizes[1] // 4096 * 4096])
        limit = max(limit, 0)
        must_fail = limit < sizes[1]
    elif k == "stale":
        for n in names:
            tool.write(os.path.join(out, n), "x" * 200000)
        must_fail = False
    else:
        cwd = w
        args[1], args[3] = "in/" + base, src.choice(["out", "./out/", "in/../out"])
        must_fail = False
    p = run_gen(gen, args, limit, cwd)
    ended(p, args)
    what = "%s%s" % (k, "" if limit is None else " of %d bytes" % limit)
    if must_fail and p.returncode == 0:
        raise Violation("lies", "exit status 0 with the fault '%s'" % what)
    if not must_fail and p.returncode:
        raise Violation("fails", "exit status %d with '%s': %s" % (p.returncode, what, tool.err_tail(p)))
    if p.returncode == 0:
        for n in names:
            a, b = tool.read_b(os.path.join(ref_dir, n)), tool.read_b(os.path.join(out, n))
            if k != "relative" and a != b or k == "relative" and abs(len(a) - len(b)) > 400:
                raise Violation("incomplete", "exit status 0 with '%s', but %s has %d bytes instead of %d" % (what, n, len(b), len(a)))
    ctx.count()
    ctx.label("fault_" + k)
    ctx.hit((k, limit, base, tool.read(path)[:2000]))


CHECKS = {
    "C14": dict(fn=c14, shared=shared, quick=(900, 60), thorough=(60000, 600),
                rule="case = a header (generated, with exotic declarations, byte- and token-mutated, garbage, with inserted errors, or C++) or a fault (missing or unusable paths, full devices, a file-size limit at any byte), with random options, on the plain or the ASan/UBSan generator; the exit status is judged by whether gcc and clang both accept or both reject the header and by the files written; non-trivial = every case but pure garbage; distinct by header text and options"),
}
