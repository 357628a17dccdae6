"""C12 (which functions are mocked), C15 (determinism), C17 (attributes, suppressed fields)."""
import os, re, shutil
from . import build, hgen, tool
from .hgen import *
from .pbt import Violation, Inconclusive


def shared():
    return {"gen": build.generator("plain"), "fw": build.framework("plain")}


# ------------------------------------------------------------------ C12
SIG = [("int", "int", "{0}"), ("unsigned long", "unsigned long", "{0}"), ("char *", "char *", "{0}"), ("struct S12 *", "struct S12 *", "{0}"),
       ("double", "double", "{0}"), ("TDi", "TDi", "{0}"), ("const char *", "const char *", "{0}"), ("TDi *", "TDi *", "{0}")]
# other spellings of the same parameter type, as a compatible redeclaration may use them
RESPELL = {"TDi": ["int", "TDi2"], "int": ["TDi", "signed int", "const int"], "TDi *": ["int *", "TDi2 *", "TDi *const"], "char *": ["char *const"],
           "double": ["const double"], "struct S12 *": ["TDs *"], "const char *": ["char const *"], "unsigned long": ["long unsigned"]}
RET_RESPELL = {"TDi": ["int"], "int": ["TDi"], "TDi *": ["int *"], "struct S12 *": ["TDs *"]}
PRE = "typedef int TDi;\ntypedef TDi TDi2;\nstruct S12 { int a; };\ntypedef struct S12 TDs;\n"


class D12:
    """One function: where and how it is declared."""
    def __init__(self, name):
        self.name, self.file, self.kind, self.text = name, 0, "", ""
        self.orig = self.types = True      # may that mode mock it?
        self.cond = None


def sig12(src, void_only=False):
    ret = "void" if void_only or src.bool(1, 4) else src.choice([a for a, _, _ in SIG])
    ps = [(src.choice([a for a, _, _ in SIG]), "p%d" % i if src.bool(4, 5) else "") for i in range(src.int(0, 3))]
    return ret, ps


def decl12(ret, name, ps, named=True):
    args = ", ".join((t + " " + (n if named else "")).strip() for t, n in ps) or "void"
    return "%s %s(%s)" % (ret, name, args)


def body12(ret, ps):
    ps = [(t, n or "q%d" % i) for i, (t, n) in enumerate(ps)]
    return ps, "{ %s }" % ("" if ret == "void" else "return 0;")


KINDS12 = [(10, "plain"), (3, "extern"), (5, "dup"), (2, "static_def"), (1, "static_decl"), (2, "inline_def"), (2, "static_inline"), (1, "extern_inline"),
           (2, "body"), (2, "proto_body"), (1, "proto_inline"), (3, "noreturn"), (2, "macro_gen"), (2, "macro_named"), (2, "macro_undef"), (2, "cond"),
           (1, "attr"), (1, "kr")]


def gen12(src, i, macros):
    d = D12("%s%d" % (src.choice(["fn", "Func_", "_under", "x"]), i))
    n = d.name
    k = d.kind = src.weighted(KINDS12)
    ret, ps = sig12(src, k == "noreturn")
    proto = decl12(ret, n, ps)
    bps, body = body12(ret, ps)
    bodied = decl12(ret, n, bps) + "\n" + body
    if k == "plain":
        t = proto + ";"
    elif k == "extern":
        t = "extern " + proto + ";"
    elif k == "dup":
        t = ""
        for j in range(src.int(2, 4)):
            q = [(src.choice([a] + RESPELL.get(a, [])), b if src.bool() else b and "other%d" % x) for x, (a, b) in enumerate(ps)]
            r = src.choice([ret] + RET_RESPELL.get(ret, [])) if j else ret
            t += ("extern " if src.bool(1, 4) else "") + decl12(r, n, q, src.bool(2, 3)) + ";\n"
    elif k == "static_def":
        t, d.orig = "static " + bodied, False
    elif k == "static_decl":
        t, d.orig = "static " + proto + ";", False
    elif k in ("inline_def", "static_inline", "extern_inline"):
        kw = {"inline_def": ["inline ", "__inline__ ", "__inline "], "static_inline": ["static inline ", "static __inline__ ", "inline static "],
              "extern_inline": ["extern inline ", "extern __inline __attribute__((gnu_inline)) "]}[k]
        t, d.orig = src.choice(kw) + bodied, False
    elif k == "body":
        t, d.orig = bodied, False
    elif k == "proto_body":
        t, d.orig = proto + ";\n" + bodied, False
    elif k == "proto_inline":
        t, d.orig = "static " + proto + ";\nstatic inline " + bodied, False
    elif k == "noreturn":
        form = src.choice(["__attribute__((noreturn)) %s;", "%s __attribute__((noreturn));", "_Noreturn %s;", "extern %s __attribute__((__noreturn__));",
                           "%s __attribute__((cold, noreturn));", "NORET12 %s;"])
        if "NORET12" in form:
            macros.add("#define NORET12 __attribute__((noreturn))")
        t, d.orig = form % proto, False
    elif k == "macro_gen":
        form = src.choice(["#define DECL12_%d(n) %s\nDECL12_%d(%s);", "#define NAME12_%d %s%.0d\n%.0s%s;"])
        if form.startswith("#define DECL"):
            t = form % (i, decl12(ret, "n", ps), i, n)
        else:
            t = "#define ARG12_%d %s\n%s;" % (i, ", ".join(a + " " + b for a, b in ps) or "void", "%s %s(ARG12_%d)" % (ret, n, i))
    elif k == "macro_named":
        t = proto + ";\n" + src.choice(["#define %s %s_alias" % (n, n), "#define %s(x) (x)" % n, "#define %s" % n, "#define %s %s" % (n, n)])
        d.orig = d.types = False
    elif k == "macro_undef":
        t = proto + ";\n#define %s other_%s\n#undef %s" % (n, n, n)
    elif k == "cond":
        d.cond = "COND12_%d" % i
        neg = src.bool(1, 3)
        t = "%s %s\n%s;\n#endif" % ("#ifndef" if neg else "#ifdef", d.cond, proto)
        d.neg = neg
    elif k == "attr":
        t = src.choice(["__attribute__((cold)) %s;", "%s __attribute__((unused));", "__attribute__((deprecated(\"x, (y\"))) %s;", "%s __attribute__((visibility(\"default\")));"]) % proto
    else:
        t = "%s %s();" % (ret, n)
    d.text = t
    return d


def c12(src, ctx):
    w = ctx.work
    types_mode = src.bool(1, 3)
    n_inc = src.weighted([(2, 0), (3, 1), (2, 2)])
    included = src.bool(1, 3)
    macros = set()
    ds = [gen12(src, i, macros) for i in range(src.int(1, 9))]
    opts, defs = [], []
    if src.bool(1, 12):
        ds = [d for d in ds if d.kind != "kr"]
    # files: 0 = the input header, 1.. = included ones
    nested = n_inc == 2 and src.bool()
    sub = src.bool()
    for d in ds:
        d.file = src.weighted([(3, 0)] + [(1, j) for j in range(1, n_inc + 1)])
        if d.cond and src.bool():
            defs.append(d.cond)
    also = [d for d in ds if n_inc and d.kind in ("plain", "extern", "noreturn") and src.bool(1, 6)]       # declared in a second file too
    incname = ["", "inc1.h", "deep/inc2.h" if sub else "inc2.h"]
    texts = {}
    for j in range(n_inc + 1):
        pieces = [d.text for d in ds if d.file == j]
        for d in also:
            if d.file != j and j == (0 if d.file else 1):
                pieces.append(d.text)
                d.also = j
        texts[j] = "\n".join(src.shuffled(pieces)) + "\n"
    head = "#ifndef PRE12\n#define PRE12\n%s%s\n#endif\n" % (PRE, "\n".join(sorted(macros)))
    tool.write(w + "/in/pre.h", head)
    main_inc = '#include "pre.h"\n'
    order = list(range(1, n_inc + 1))
    if nested:
        order = [1]
    use_sys = src.bool(1, 4)
    late = src.bool(1, 4)       # include at the end of the file
    incs = "".join('#include %s\n' % (('"%s"' if src.bool() else "<%s>") % incname[j]) for j in order)
    if use_sys:
        incs += src.choice(["#include <string.h>\n", "#include <stdlib.h>\n", "#include <stdio.h>\n", "#include <unistd.h>\n"])
    guard = src.bool(3, 4)
    main = main_inc + (texts[0] + incs if late else incs + texts[0])
    if guard:
        main = "#ifndef M12\n#define M12\n" + main + "#endif\n"
    name = src.choice(["main.h", "some-header.h", "a.h", "header_with_a_longer_name.h", "UPPER.h"])
    tool.write(w + "/in/" + name, main)
    for j in range(1, n_inc + 1):
        t = '#include "pre.h"\n' + ("#include <%s>\n" % incname[2] if nested and j == 1 else "") + texts[j]
        tool.write("%s/in/%s" % (w, incname[j]), "#ifndef I12_%d\n#define I12_%d\n%s#endif\n" % (j, j, t))
    # selection
    only = [d.name for d in ds if src.bool()] if src.bool(1, 3) else []
    if only and src.bool(1, 4):
        only.append(src.choice(["nosuchfunction", "fn", ds[0].name + "x", ds[0].name[:-1] or "f"]))
    ign = [d.name for d in ds if src.bool(1, 3)] if src.bool(1, 3) else []
    if ign and src.bool(1, 4):
        ign.append(src.choice(["nosuchfunction", "fn", ds[0].name + "x"]))
    groups = [["-i", w + "/in/" + name], ["-o", w + "/out"], ["-I" + w + "/in"]]
    groups += [["--mock-only", x] for x in only] + [["--ignore-generation-of", x] for x in ign] + [["-D" + x] for x in defs]
    if types_mode:
        groups.append(["--generate-types"])
    if included:
        groups.append(["--generate-included-functions"])
    args = [a for g in src.shuffled(groups) for a in g]
    os.mkdir(w + "/out")
    p = tool.run(ctx.shared["gen"], args)
    files = {name: main, "args.txt": " ".join(args)}
    for j in range(1, n_inc + 1):
        files[incname[j].replace("/", "_")] = texts[j]
    if p.returncode != 0:
        # does the compiler accept it?
        q = tool.cc(["gcc", "-fsyntax-only", "-w", "-I" + w + "/in"] + ["-D" + x for x in defs] + [w + "/in/" + name])
        if q.returncode != 0:
            raise Inconclusive("invalid header generated: " + tool.first_error(q.stderr))
        raise Inconclusive("C14's business: rc=%d %s" % (p.returncode, tool.err_tail(p, 300)))
    exp = set()
    for d in ds:
        here = included or d.file == 0 or getattr(d, "also", None) == 0
        if not here or not (d.types if types_mode else d.orig):
            continue
        if d.cond and ((d.cond in defs) == d.neg):
            continue
        if (only and d.name not in only) or d.name in ign:
            continue
        exp.add(d.name)
    base = name[:-2]
    hdr = tool.read(w + "/out/easyMock_%s.h" % base)
    decl = re.findall(r"\bvoid (\w+)_ExpectAndReturn\(", hdr)
    got = set(decl)
    if use_sys and included:
        mine = {d.name for d in ds}
        sysf = got - mine
        got &= mine
        if not only and not sysf:
            raise Violation("selection", "no function of the included system header is mocked", files)
        if only and sysf - set(only):
            raise Violation("selection", "functions outside the mock-only list are mocked: %s" % sorted(sysf - set(only))[:3], files)
    if got != exp:
        raise Violation("selection", "%s mode%s: mocked but should not be: %s; not mocked but should be: %s [%s]" % (
            "types" if types_mode else "original", ", included functions too" if included else "", sorted(got - exp), sorted(exp - got),
            ", ".join("%s: %s in file %d" % (d.name, d.kind, d.file) for d in ds if d.name in got ^ exp)), files)
    dups = sorted({x for x in decl if decl.count(x) > 1 and x in got})
    if dups:
        raise Violation("twice", "mocked more than once: %s" % dups, files)
    if not (use_sys and included):
        q = tool.cc(["gcc", "-w", "-c", tool.FWI, "-I" + w + "/out", "-I" + w + "/in"] + ["-D" + x for x in defs if not types_mode]
                    + [w + "/out/easyMock_%s.c" % base, "-o", w + "/m.o"])
        if q.returncode != 0:
            if "redefinition of" in q.stderr:
                raise Violation("twice", "the mock defines something twice: " + tool.first_error(q.stderr), files)
            raise Inconclusive("C10's business: " + tool.first_error(q.stderr))
        sy = tool.globals_of(w + "/m.o")
        have = {x[:-len("_ExpectAndReturn")] for x in sy if x.endswith("_ExpectAndReturn")}
        if have != exp:
            raise Violation("symbols", "the object offers expectations for %s, expected %s" % (sorted(have - exp), sorted(exp - have)), files)
        miss = [x for x in exp if x not in sy]
        if miss:
            raise Violation("symbols", "mocked functions not defined: %s" % miss, files)
        ctx.label("compiled")
    for d in ds:
        ctx.label("kind_" + d.kind)
    ctx.label("types_mode" if types_mode else "original_mode")
    for x, y in (("mock_only", only), ("ignored", ign), ("included_functions", included), ("defines", defs)):
        if y:
            ctx.label(x)
    ctx.label("mocked", len(exp))
    ctx.count(len(ds))
    if any((d.name in exp) != (d.kind in ("plain", "extern")) or d.file for d in ds):
        ctx.hit((main, str(texts), args))
    ctx.sample = {"header": main[:1200], "args": args, "mocked": sorted(exp)}


# ------------------------------------------------------------------ C15
def snap(d):
    out = {}
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files) + [x for x in dirs if os.path.islink(os.path.join(root, x))]:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = ("link", os.readlink(p)) if os.path.islink(p) else ("file", tool.read_b(p))
        for x in dirs:
            out.setdefault(os.path.relpath(os.path.join(root, x), d), ("dir", b""))
    return out


def first_diff(a, b):
    la, lb = a.split(b"\n"), b.split(b"\n")
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return "line %d: %r / %r" % (i + 1, x[:200], y[:200])
    return "%d / %d lines" % (len(la), len(lb))


def c15(src, ctx):
    w = ctx.work
    g = Gen(src, dict(macros=True, comments=True, layout=True, va_list=False, ws=True))
    name = src.choice(["main.h", "some-header.h", "Mixed_Case.h", "a.h", "dotted.name.h"])
    h = g.header(name)
    extra, inc_text = "", ""
    if src.bool():
        extra = '#include "sub/inc.h"\n' if src.bool() else "#include <inc.h>\n"
        inc_text = "#define INC15 (%d)\ntypedef struct { int x; } Inc15_t;\nint inc15_fn(Inc15_t *p);\n" % src.int(0, 99)
    sysinc = src.choice(["", "", "#include <string.h>\n", "#include <stdio.h>\n"])
    text = "#define FIRST15 1\n" + sysinc + extra + h.text()
    base = w + "/tree"
    tool.write(base + "/proj/" + name, text)
    tool.write(base + "/proj/sub/inc.h", "#ifndef INC15_H\n#define INC15_H\n%s#endif\n" % inc_text)
    for d in ("home", "tmp", "cwd1", "cwd2/deep"):
        os.makedirs(base + "/" + d)
    os.symlink("proj", base + "/plink")
    os.makedirs(base + "/hl")
    os.symlink("../proj/" + name, base + "/hl/" + name)
    fns = [f.name for f in h.funcs]
    recs = [r for r in g.recs if r.tag]
    groups = [["-I" + base + "/proj/sub"]]
    if src.bool(2, 3):
        groups.append(["--generate-types"])
    if src.bool(1, 3):
        groups.append(["--generate-included-functions"])
    for f in fns:
        if src.bool(1, 8):
            groups.append([src.choice(["--mock-only", "--ignore-generation-of"]), f])
    if src.bool(1, 3):
        groups.append(["--generate-comparator-of", src.choice(["EasyMock_all_comparators"] + [r.tag for r in recs])])
    if src.bool(1, 4):
        groups.append(["--generate-attribute", src.choice(["format", "nonnull"])])
        if src.bool():
            groups.append(["--generate-attribute", src.choice(["section", "cold"])])
    for r in recs:
        if src.bool(1, 8):
            groups.append(["--ignore-field-generation-of", r.tag])
    if src.bool(1, 4):
        groups.append(["--ignore-parser-error"])
    for d in src.subset(["-DA15=1", "-DB15", "-UNOSUCH15"], 1, 4):
        groups.append([d])
    if src.bool(1, 6):
        groups.append(["-I", base + "/hl"])
    P = base + "/proj/" + name
    stem = name[:name.rfind(".")]
    want = {"easyMock_%s.h" % stem, "easyMock_%s.c" % stem}
    env0 = dict(tool.ENVG, HOME=base + "/home", TMPDIR=base + "/tmp")

    def out_files(d, args, what):
        got = set(os.listdir(d))
        if got != want:
            raise Violation("files", "%s: the output directory holds %s" % (what, sorted(got)), {name: text, "args.txt": " ".join(args)})
        return {f: tool.read_b(d + "/" + f) for f in want}

    def flat(gs, i, o):
        return [a for x in gs + [["-i", i], ["-o", o]] for a in x]
    os.mkdir(w + "/o0")
    before = snap(base)
    a0 = flat(groups, P, w + "/o0")
    p0 = tool.run(ctx.shared["gen"], a0, cwd=base + "/cwd1", env=env0)
    if p0.returncode != 0:
        raise Inconclusive("C14's business: rc=%d %s" % (p0.returncode, tool.err_tail(p0, 200)))
    ref = out_files(w + "/o0", a0, "first run")
    if snap(base) != before:
        s2 = snap(base)
        raise Violation("files", "the run changed other files: %s" % sorted(k for k in set(s2) | set(before) if s2.get(k) != before.get(k))[:5],
                        {name: text, "args.txt": " ".join(a0)})
    variants = []
    n = 0
    for _ in range(src.int(2, 5)):
        n += 1
        o = w + "/o%d" % n
        os.mkdir(o)
        cwd = base + "/" + src.choice(["cwd1", "cwd2/deep", "proj", "."])
        how = [src.choice(["same", "rel", "dotdot", "dirlink", "filelink", "--cwd"])]
        gs, i, oa = list(groups), P, o
        if how[0] == "rel":
            i = os.path.relpath(P, cwd)
        elif how[0] == "dotdot":
            i = base + "/cwd2/../proj/./" + name
        elif how[0] == "dirlink":
            i = base + "/plink/" + name
        elif how[0] == "filelink":
            i = base + "/hl/" + name
        elif how[0] == "--cwd":
            gs.append(["--cwd", src.choice([base + "/proj", base + "/plink"])])
            i = src.choice([name, "./" + name])
        outk = src.choice(["abs", "rel", "slash", "link", "dotdot"])
        if outk == "rel":
            oa = os.path.relpath(o, base + "/proj" if how[0] == "--cwd" else cwd)
        elif outk == "slash":
            oa = o + "/"
        elif outk == "link":
            os.symlink(o, w + "/ol%d" % n)
            oa = w + "/ol%d" % n
        elif outk == "dotdot":
            oa = w + "/o0/../o%d" % n
        how.append("out " + outk)
        if src.bool(1, 3):
            pre = src.choice(["longer", "shorter", "reference"])
            how.append("over " + pre)
            for f in want:
                with open(o + "/" + f, "wb") as fd:
                    fd.write({"longer": ref[f] + b"\n/* trailing garbage */\nint x15;\n" * 50, "shorter": b"old\n", "reference": ref[f]}[pre])
        env = dict(env0)
        if src.bool(1, 2):
            env = dict(env0, **{src.choice(["LANG", "LC_ALL", "TERM", "COLUMNS", "TZ", "SOURCE_DATE_EPOCH", "USER", "CC"]):
                                src.choice(["C", "de_DE.UTF-8", "1", "x"])})
            how.append("environment")
        if src.bool(1, 6):
            env["PATH"] = "/nonexistent"
            how.append("no PATH")
        order = gs + [["-i", i], ["-o", oa]]
        if src.bool(2, 3):
            order = src.shuffled(order)
            # the order of the parser's own options has a meaning: keep theirs
            def own(x):
                return x[0][:2] in ("-I", "-D", "-U")
            ii = sorted((x for x in order if own(x)), key=lambda x: groups.index(x))
            order = [ii.pop(0) if own(x) else x for x in order]
            how.append("permuted options")
        args = [a for x in order for a in x]
        p = tool.run(ctx.shared["gen"], args, cwd=cwd, env=env)
        files = {name: text, "args_reference.txt": " ".join(a0), "args_variant.txt": "cd %s; %s" % (cwd, " ".join(args)), "how.txt": str(how)}
        if p.returncode != 0:
            raise Violation("variant", "[%s] exits %d: %s" % (", ".join(how), p.returncode, tool.err_tail(p, 300)), files)
        got = out_files(o, args, str(how))
        for f in want:
            if got[f] != ref[f]:
                raise Violation("variant", "[%s] gives another %s: %s" % (", ".join(how), f, first_diff(ref[f], got[f])), files)
        if snap(base) != before:
            s2 = snap(base)
            raise Violation("files", "[%s] changed other files: %s" % (how, sorted(k for k in set(s2) | set(before) if s2.get(k) != before.get(k))[:5]), files)
        variants.append(how)
        for x in how:
            ctx.label(x)
        ctx.count()
        ctx.hit((text, args, how))
    left = set(os.listdir(w)) - {"tree"} - {"o%d" % i for i in range(n + 1)} - {"ol%d" % i for i in range(n + 1)}
    if left:
        raise Violation("files", "files appeared elsewhere: %s" % sorted(left), {name: text})
    ctx.sample = {"header": text[:600], "reference": a0, "variants": variants}


# ------------------------------------------------------------------ C17
ATTRS17 = {  # name: (clang's class, argument texts, needs)
    "format": ("FormatAttr", ["printf, F, V", "scanf, F, V", "printf, F, 0"], "fmt"), "section": ("SectionAttr", ['".sec17"', '".a,b"', '"x(1)"'], ""),
    "cold": ("ColdAttr", [""], ""), "deprecated": ("DeprecatedAttr", ["", '"old, (really)"', '"a" "b"', '"x"'], ""),
    "nonnull": ("NonNullAttr", ["P", "(P)", " P ", ""], "ptr"), "warn_unused_result": ("WarnUnusedResultAttr", [""], "ret"),
    "malloc": ("RestrictAttr", [""], "retptr"), "unused": ("UnusedAttr", [""], ""), "noinline": ("NoInlineAttr", [""], ""),
    "visibility": ("VisibilityAttr", ['"default"', '"hidden"'], ""), "alloc_size": ("AllocSizeAttr", ["N"], "allocn"),
    "aligned": ("AlignedAttr", ["16", "32"], ""), "used": ("UsedAttr", [""], ""), "pure": ("PureAttr", [""], "ret"),
    "returns_nonnull": ("ReturnsNonNullAttr", [""], "retptr"), "hot": ("HotAttr", [""], ""), "no_instrument_function": ("NoInstrumentFunctionAttr", [""], ""),
}
EXCL17 = [{"cold", "hot"}]


def attr_dump(path, incs, extra, fns):
    """function -> list of (class, inherited, argument text) of its last declaration, by clang."""
    p = tool.cc(["clang", "-fsyntax-only", "-w", "-Xclang", "-ast-dump", "-Xclang", "-ast-dump-filter=fn17_"] + ["-I" + i for i in incs] + extra + [path])
    out, cur = {}, None
    for line in p.stdout.splitlines():
        m = re.match(r"FunctionDecl 0x\w+ (?:prev 0x\w+ )?.*?(?:used |referenced )?(fn17_\w+) '", line)
        if m:
            cur = m.group(1) if m.group(1) in fns else None
            if cur:
                out.setdefault(cur, []).append([])
            continue
        if cur is None:
            continue
        m = re.match(r"[|`]-(\w+Attr) 0x\w+ <.*?>(?: col:\d+| line:\d+:\d+)?(.*)", line)
        if m:
            rest = m.group(2)
            out[cur][-1].append((m.group(1), "Inherited" in rest, re.sub(r"__(\w+?)__", r"\1", rest.replace("Inherited", "").replace("Implicit", "").strip()), "Implicit" in rest))
        elif not line.startswith(("|", "`", " ")):
            cur = None
    return p, out


def attrs17(src, ctx):
    w = ctx.work
    fns, lines, macros = {}, [], []
    for i in range(src.int(1, 5)):
        n = "fn17_%d" % i
        ret = src.choice(["int", "void", "void *", "char *", "int"])
        ps, caps = [], {""}
        if src.bool():
            ps.append(("int *", "p0"))
        if src.bool():
            ps.append(("unsigned long", "n0"))
        if src.bool():
            ps.append(("const char *", "fmt0"))
        fmt = ps and ps[-1][0] == "const char *" and src.bool(2, 3)
        if fmt:
            caps.add("fmt")
        ptr = [k + 1 for k, (t, _) in enumerate(ps) if "*" in t]
        siz = [k + 1 for k, (t, _) in enumerate(ps) if "unsigned" in t]
        if ptr:
            caps.add("ptr")
        if ret != "void":
            caps.add("ret")
        if "*" in ret:
            caps.add("retptr")
            if siz:
                caps.add("allocn")
        have = []
        for a in src.sample([k for k, v in sorted(ATTRS17.items()) if v[2] in caps], src.int(0, 4)):
            if any(a in e and e & set(x for x, _ in have) for e in EXCL17):
                continue
            arg = src.choice(ATTRS17[a][1])
            arg = arg.replace("F", str(len(ps))).replace("V", str(len(ps) + 1)).replace("P", str(src.choice(ptr or [0]))).replace("N", str(src.choice(siz or [0])))
            have.append((a, arg))
        if fmt and src.bool(1, 4):
            k2 = "scanf" if not any("scanf" in y for _, y in have) else "strftime"
            if any(x == "format" for x, _ in have) and not any("strftime" in y for _, y in have):
                have.append(("format", "%s, %d, %d" % (k2, len(ps), 0 if k2 == "strftime" else len(ps) + 1)))
        pre, mid, post = [], [], []
        chunks, rest = [], list(have)
        while rest:
            k = src.int(1, 2)
            chunks.append(rest[:k])
            rest = rest[k:]
        for c in chunks:
            body = src.choice([", ", ","]).join((("__%s__" % a) if src.bool(1, 3) else a) + ("(%s)" % x if x or (a == "nonnull" and False) else "") for a, x in c)
            t = src.choice(["__attribute__((%s))", "__attribute((%s))", "__attribute__ (( %s ))"]) % body
            if src.bool(1, 3):
                m = "ATTR17_%d" % len(macros)
                only_fs = all(a in ("format", "section") for a, _ in c)
                if only_fs and c[0][0] == "format" and len(c) == 1 and src.bool():
                    f = c[0][1].split(", ")
                    macros.append("#define %s(x, y) __attribute__((format(%s, x, y)))" % (m, f[0]))
                    t = "%s(%s, %s)" % (m, f[1], f[2])
                else:
                    macros.append("#define %s %s" % (m, t))
                    t = m
            src.choice([post, pre, mid, post]).append(t)
        decl = " ".join(pre + [ret] + mid + ["%s(%s)" % (n, ", ".join("%s %s" % x for x in ps) + (", ..." if fmt else "") or "void")] + post) + ";"
        if src.bool(1, 6):
            decl = decl.replace(" __attribute__", "\n  __attribute__")
        fns[n] = have
        lines.append(decl)
    text = "#ifndef A17\n#define A17\n%s\n%s\n#endif\n" % ("\n".join(macros), "\n".join(lines))
    tool.write(w + "/in/at.h", text)
    present = sorted({a for v in fns.values() for a, _ in v})
    asked = src.subset(present, 2, 3) + src.subset(sorted(set(ATTRS17) - set(present)), 1, 6)
    types = src.bool()
    args = ["-i", w + "/in/at.h", "-o", w + "/out"] + [x for a in asked for x in ("--generate-attribute", a)] + ["--generate-types"] * types
    os.mkdir(w + "/out")
    p = tool.run(ctx.shared["gen"], args)
    files = {"at.h": text, "args.txt": " ".join(args)}
    q, orig = attr_dump(w + "/in/at.h", [], ["-xc"], fns)
    if q.returncode != 0:
        raise Inconclusive("invalid header: " + tool.first_error(q.stderr))
    if p.returncode != 0:
        raise Inconclusive("C14's business: rc=%d" % p.returncode)
    cfile = w + "/out/easyMock_at.c"
    incs = [w + "/out", build.FW_INC, w + "/in"]
    if types:
        q, got = attr_dump(w + "/out/easyMock_at.h", incs[:2], ["-xc"], fns)
        if q.returncode != 0:
            raise Violation("compile", "the generated header does not compile: " + tool.first_error(q.stderr), files)
        sel = {n: v[0] for n, v in got.items()}
        # and again on the definition
    q, gotc = attr_dump(cfile, incs[:2] if types else incs, [], fns)
    if q.returncode != 0:
        raise Violation("compile", "the mock does not compile: " + tool.first_error(q.stderr), files)
    q = tool.cc(["gcc", "-w", "-fsyntax-only"] + ["-I" + i for i in (incs[:2] if types else incs)] + [cfile])
    if q.returncode != 0:
        raise Violation("compile", "the mock does not compile: " + tool.first_error(q.stderr), files)
    for n, have in fns.items():
        cls = {ATTRS17[a][0] for a in asked}
        o = [(c, x) for c, inh, x, imp in orig.get(n, [[]])[0] if not imp]
        want = sorted(set((c, x) for c, x in o if c in cls))
        if n not in gotc:
            raise Violation("missing", "%s is not mocked" % n, files)
        where = [("definition", gotc[n][-1])]
        if types:
            where.append(("header", sel.get(n, [])))
        for place, lst in where:
            have_now = sorted(set((c, x) for c, inh, x, imp in lst if not imp and not inh))
            if types and place == "definition":
                have_now = sorted(set((c, x) for c, inh, x, imp in lst if not imp))
            if have_now != want:
                raise Violation("attributes", "%s of %s (%s mode, asked %s) declares %s, expected %s" % (
                    place, n, "types" if types else "original", asked, have_now, want), files)
        ctx.count()
        if have:
            ctx.hit((lines, asked, n))
            ctx.label("attributes", len(have))
        if want:
            ctx.label("re-declared", len(want))
    ctx.label("attribute_case_types" if types else "attribute_case_original")
    ctx.sample = {"header": text, "asked": asked}


def fields17(src, ctx):
    w = ctx.work
    g = Gen(src, dict(FEAT17))
    h = g.header("fl.h")
    text = h.text()
    tool.write(w + "/in/fl.h", text)
    recs = [r for r in g.recs if r.tag]
    inl = []

    def subs(r, path):
        for f in r.fields:
            t = f.t
            while isinstance(t, Arr):
                t = t.t
            if isinstance(t, Rec) and t.inline:
                if t.tag:
                    inl.append(t)
                subs(t, path)
    for r in g.recs:
        subs(r, [])
    cand = [r.tag for r in recs] + [r.tag for r in inl]
    if not cand:
        return attrs17(src, ctx)
    ign = set(src.subset(cand, 1, 2))
    names = sorted(ign)
    if src.bool(1, 4):
        names.append(src.choice(["NoSuchType", cand[0] + "x", cand[0][:-1]]))
    names = src.shuffled(names)
    args = ["-i", w + "/in/fl.h", "-o", w + "/out", "--generate-types"] + [x for n in names for x in ("--ignore-field-generation-of", n)]
    os.mkdir(w + "/out")
    p = tool.run(ctx.shared["gen"], args)
    files = {"fl.h": text, "args.txt": " ".join(args)}
    if p.returncode != 0:
        raise Inconclusive("C14's business: rc=%d" % p.returncode)
    os.mkdir(w + "/all")
    tool.run(ctx.shared["gen"], ["-i", w + "/in/fl.h", "-o", w + "/all", "--generate-types"])
    inc = ["-I" + w + "/out", tool.FWI]
    q = tool.cc(["gcc", "-w", "-fsyntax-only", "-I" + w + "/all", tool.FWI, w + "/all/easyMock_fl.c"])
    if q.returncode != 0:
        raise Inconclusive("C10/C11's business: " + tool.first_error(q.stderr))
    q = tool.cc(["gcc", "-w", "-fsyntax-only"] + inc + [w + "/out/easyMock_fl.c"])
    if q.returncode != 0:
        raise Violation("compile", "the mock does not compile: " + tool.first_error(q.stderr), files)
    # which members does each definition offer? -- one probe per (record, member), judged from the compiler's errors
    probes = []

    def named(r):
        return [f for f in r.fields if f.name]
    for r in recs + inl:
        for f in named(r):
            probes.append((r, f))
    def run_probe(d):
        src_t = '#include "easyMock_fl.h"\n' + "".join("#line %d\nint pr%d(%s %s *p) { (void)p->%s; return 0; }\n" % (100000 + i, i, r.kind, r.tag, f.name)
                                                    for i, (r, f) in enumerate(probes))
        tool.write(d + "/probe.c", src_t)
        q = tool.cc(["gcc", "-w", "-fsyntax-only", "-fmax-errors=0", "-I" + d, tool.FWI, d + "/probe.c"])
        bad = {int(m) - 100000 for m in re.findall(r":(1\d{5}):\d+: error", q.stderr)}
        other = [l for l in q.stderr.splitlines() if "error:" in l and not re.search(r":1\d{5}:\d+: error", l)]
        return bad, other
    reach = reachable(h.funcs, ign)
    bad_all, _ = run_probe(w + "/all")
    bad, other = run_probe(w + "/out")
    for i, (r, f) in enumerate(probes):
        if i in bad_all:        # not reachable from a mocked function
            continue
        ctx.count()
        inside = r.tag in ign
        if not inside and r not in reach:
            continue
        if inside and i not in bad:
            raise Violation("fields", "%s %s is to be ignored but its member %s is generated" % (r.kind, r.tag, f.name), files)
        if not inside and i in bad:
            raise Violation("fields", "%s %s is not to be ignored (only %s) but its member %s is missing" % (r.kind, r.tag, names, f.name), files)
        ctx.label("ignored_member" if inside else "kept_member")
        ctx.hit((text, names, i))
    ctx.sample = {"header": text[:800], "ignored": names}


def reachable(funcs, ign):
    """Records that the signatures lead to without going through the members of an ignored one."""
    seen, out = set(), []

    def go(t):
        if id(t) in seen:
            return
        seen.add(id(t))
        if isinstance(t, (Typedef, Ptr, Const, Arr)):
            go(t.t)
        elif isinstance(t, Fun):
            go(t.ret)
            for _, x in t.params:
                go(x)
        elif isinstance(t, RecRef):
            go(t.rec)
        elif isinstance(t, Rec):
            out.append(t)
            if t.tag not in ign:
                for f in t.fields or []:
                    go(f.t)
    for f in funcs:
        go(f.ret)
        for _, t in f.params:
            go(t)
    return out


FEAT17 = dict(va_list=False, macros=False, comments=False, layout=False, schar=False, bool_=False, variadic=False, max_types=5, max_funcs=4, max_params=4)


def c17(src, ctx):
    if src.bool():
        attrs17(src, ctx)
    else:
        fields17(src, ctx)



CHECKS = {
    "C12": dict(fn=c12, shared=shared, quick=(1200, 40), thorough=(20000, 500),
                rule="a header (with 0-2 included files) and option set where at least one function is not a plain prototype of the input header selected by default; cases count declared functions"),
    "C15": dict(fn=c15, shared=shared, quick=(400, 30), thorough=(8000, 500),
                rule="one variant run (another spelling of the paths, directory, environment, option order or pre-existing output) compared byte for byte with the reference run of the same header and options"),
    "C17": dict(fn=c17, shared=shared, quick=(600, 40), thorough=(12000, 500),
                rule="a mocked function with at least one attribute, or a member of a record that is or is not to be ignored and that the unrestricted run generates"),
}
