"""C13: the command line."""
import os, subprocess
from . import build, pbt
from .pbt import Violation
from .checks_fw import drive, hx

H = os.path.join(build.VERIF, "harness")
GS = os.path.join(build.REPO, "src/easyMockGenerate/src")

E = {"noin": "Error: The input header file is not provided", "noout": "Error: The output directory is not provided",
     "--mock-only": "Error: Argument to --mock-only is missing", "--cwd": "Error: Argument to --cwd is missing",
     "cwd2": "Error: Argument to --cwd is given more than once", "--generate-attribute": "Error: Argument --generate-attribute needs a value",
     "--ignore-field-generation-of": "Error: Argument --ignore-field-generation-of needs a value",
     "--ignore-generation-of": "Error: Argument --ignore-generation-of needs a value",
     "--generate-comparator-of": "Error: Argument --generate-comparator-of needs a value",
     "in2": "Error: -i argument can be used only once", "out2": "Error: -o argument can be used only once",
     "inbad": "Error: Path given to -i isn't a regular file", "outbad": "Error: Path given to -o isn't a directory"}
LISTS = {"--mock-only": "only", "--generate-attribute": "attr", "--ignore-field-generation-of": "ignt", "--ignore-generation-of": "ignf",
         "--generate-comparator-of": "cmp"}
FLAGS = {"--generate-types": "types", "--mock-cpp": "cpp", "--ignore-parser-error": "ign", "--generate-included-functions": "incl"}


def shared():
    return {"drv": build.harness("cmdline", [os.path.join(H, "cmdline.cpp")], [os.path.join(GS, "CmdLineParser/CmdLineParser.cpp")],
                                 flags=["-I" + build.LLVM + "/include"]),
            "gen": build.generator("plain")}


def tree(base):
    """The file tree that paths in the vectors refer to."""
    for d in ("d1", "d1/out", "d2", "d2/out", "out", "dir.h", "d1/dir.h", "with space"):
        os.makedirs(os.path.join(base, d))
    for f in ("a.h", "d1/a.h", "d1/b.h", "d2/a.h", "d2/c.h", "with space/a.h"):
        with open(os.path.join(base, f), "w") as fd:
            fd.write("int fn_%s(int a);\n" % f.replace("/", "_").replace(".", "_").replace(" ", "_"))
    os.symlink("a.h", os.path.join(base, "link.h"))
    os.symlink("nowhere", os.path.join(base, "dangling.h"))
    os.symlink("loop.h", os.path.join(base, "loop.h"))
    os.symlink("d1", os.path.join(base, "dlink"))
    os.symlink("lo", os.path.join(base, "lo"))


FILES = ["a.h", "a.h", "a.h", "b.h", "c.h", "d1/a.h", "./a.h", "../a.h", "d1/../a.h", "link.h"]
DIRS = ["out", "out", "out", ".", "d1", "d1/out", "d2/out/", "dlink", "with space"]
BADF = ["nofile.h", "dir.h", "d1", "dangling.h", "loop.h", "", "n" * 300, "a.h/x", "é", "x" * 5000]
BADD = ["nodir", "a.h", "", "lo", "d1/a.h", "m" * 300, "a.h/x"]
VALUES = ["f", "foo", "bar", "struct s", "a,b", "--", "EasyMock_all_comparators", "x=y", "f", "", "a b"]
EXTRA = ["-I", "-Iinc", "inc", "-D", "-DX=1", "-UX", "--foo", "-", "--", "x", "", "-std=c99", "-include", "-ii", "-oo", "--mock-only=f",
         "--cwd=d1", "-help", "--helper", "-H", "--mock", "-I d", "a b", "\"q\"", "-D'X'", "--generate-type", "ü", "-i=x", "--generate-types=1",
         "-isystem", "-I/-o", "w" * 4000]


def path(src, base, good, bad):
    p = src.choice(bad) if src.bool(1, 16) else src.choice(good)
    return os.path.join(base, p) if src.bool(1, 4) and p and not p.startswith("..") else p


def vector(src, base):
    items = []
    mand = src.weighted([(16, 3), (1, 2), (1, 1), (1, 0)])
    if mand & 1:
        items.append(["-i", path(src, base, FILES, BADF)])
    if mand & 2:
        items.append(["-o", path(src, base, DIRS, BADD)])
    if src.bool(1, 3):
        items.append(["--cwd", src.choice(["d1", "d2", ".", "./d1", "d1", "dlink", "with space", "nodir", "a.h"]) if src.bool(7, 8) else os.path.join(base, "d1")])
    for _ in range(src.weighted([(3, 0), (3, 2), (3, 5), (1, 14)]) and src.int(1, 14)):
        k = src.weighted([(5, "list"), (3, "flag"), (5, "extra"), (1, "help"), (1, "again"), (1, "novalue")])
        if k == "list":
            items.append([src.choice(sorted(LISTS)), src.choice(VALUES)])
        elif k == "flag":
            items.append([src.choice(sorted(FLAGS))])
        elif k == "extra":
            items.append([src.choice(EXTRA)])
        elif k == "help":
            if src.bool(1, 3):
                items.append([src.choice(["-h", "--help"])])
        elif k == "again":
            if src.bool(1, 8):
                items.append([src.choice(["-i", "-o", "--cwd"]), src.choice(["a.h", "out", "d1"])])
        elif src.bool(1, 8):
            items.append([src.choice(sorted(LISTS) + ["-i", "-o", "--cwd"])])
    return [a for it in src.shuffled(items) for a in it]


class Spec:
    """What the documentation says about a vector."""
    def __init__(self, args, base):
        self.errors, self.help, self.lenient = set(), False, set()
        self.lists = {k: set() for k in LISTS.values()}
        self.flags = {k: 0 for k in FLAGS.values()}
        self.extra, self.i, self.o, self.cwd = [], None, None, None
        n, k = len(args), 0
        stopped = False
        while k < n and not stopped:
            a = args[k]
            val = args[k + 1] if k + 1 < n else None
            if a in ("-i", "-o"):
                cur = self.i if a == "-i" else self.o
                two, no = ("in2", "noin") if a == "-i" else ("out2", "noout")
                if cur is not None:
                    self.errors.add(E[two])
                    if val is None:
                        self.errors.add(E[no])
                    stopped = True
                elif val is None:
                    self.errors.add(E[no])
                    stopped = True
                elif val.startswith("-"):
                    self.lenient.add(E[no])       # a value is missing; a later one may still make it good
                else:
                    if a == "-i":
                        self.i = val
                    else:
                        self.o = val
                    if val == "":
                        self.errors.add(E[no])
                        self.errors.add(E["inbad" if a == "-i" else "outbad"])
                    k += 1
            elif a in LISTS:
                if val is None or val.startswith("-"):
                    self.errors.add(E[a])
                    stopped = True
                else:
                    if val == "":
                        self.lenient.add(E[a])
                    self.lists[LISTS[a]].add(val)
                    k += 1
            elif a in ("-h", "--help"):
                self.help = True
                stopped = True
            elif a == "--cwd":
                if self.cwd is not None:
                    self.errors.add(E["cwd2"])
                    stopped = True
                elif val is None or val.startswith("-"):
                    self.errors.add(E["--cwd"])
                    stopped = True
                else:
                    self.cwd = val
                    k += 1
            elif a in FLAGS:
                self.flags[FLAGS[a]] = 1
            else:
                self.extra.append(a)
            k += 1
        self.stopped = stopped
        where = os.path.join(base, self.cwd or "")
        self.more = set()
        if not self.help:
            # problems with the paths; several problems: any of them may be reported
            m = self.more if stopped else self.errors
            if self.i is None:
                m.add(E["noin"])
            elif not isf(os.path.join(where, self.i)):
                m.add(E["inbad"])
            if self.o is None:
                m.add(E["noout"])
            elif not isd(os.path.join(where, self.o)):
                m.add(E["outbad"])
            if stopped:
                # paths seen so far may be judged relative to a --cwd that has not been read
                if self.i is not None:
                    m.add(E["inbad"])
                if self.o is not None:
                    m.add(E["outbad"])
        else:
            if self.i is not None:
                self.more.add(E["inbad"])
            if self.o is not None:
                self.more.add(E["outbad"])


def isf(p):
    try:
        return os.path.isfile(p)
    except (OSError, ValueError):
        return False


def isd(p):
    try:
        return os.path.isdir(p)
    except (OSError, ValueError):
        return False


def unhex(s):
    return "" if s == "-" else bytes.fromhex(s).decode("utf8", "surrogateescape")


def enc(a):
    return hx(a.encode("utf8", "surrogateescape"))


def parse(line):
    r = {}
    for w in line.strip().split(" "):
        k, v = w.split("=", 1)
        if k in ("types", "incl", "cpp", "ign"):
            r[k] = int(v)
        elif k in ("only", "extra", "attr", "ignt", "ignf", "cmp"):
            r[k] = [unhex(x) for x in v.split(",")] if v else []
        else:
            r[k] = unhex(v)
    return r


def judge(args, got, sp, base):
    if sp.help:
        if got["help"]:
            return None
        if got["error"] in sp.more | sp.lenient | sp.errors:
            return None
        return "-h was given but neither the help nor an applicable error is reported (error %r)" % got["error"]
    if got["help"]:
        return "the help is shown although it was not asked for"
    bad = sp.errors | sp.more
    if sp.errors:
        if got["error"] == "":
            return "no error is reported, expected one of %s" % sorted(sp.errors)
        if got["error"] not in bad | sp.lenient:
            return "the error is %r, expected one of %s" % (got["error"], sorted(sp.errors))
        return None
    if got["error"]:
        if got["error"] in sp.lenient:
            return None
        return "unexpected error %r" % got["error"]
    where = os.path.join(base, sp.cwd or "")
    for k, want in (("in", sp.i), ("out", sp.o)):
        if os.path.realpath(os.path.join(where, got[k])) != os.path.realpath(os.path.join(where, want)):
            return "the %s path is %r, expected %r" % (k, got[k], want)
    if (sp.cwd or "") != got["cwd"]:
        return "the working directory is %r, expected %r" % (got["cwd"], sp.cwd)
    for k, v in sp.lists.items():
        if set(got[k]) != v:
            return "the %s list is %r, expected %r" % (k, got[k], sorted(v))
    for k, v in sp.flags.items():
        if got[k] != v:
            return "the %s flag is %r, expected %r" % (k, got[k], v)
    if got["extra"] != sp.extra:
        return "the parser's arguments are %r, expected %r" % (short(got["extra"]), short(sp.extra))
    return None


def short(l):
    return [x if len(x) < 80 else x[:40] + "..." for x in l]


def c13(src, ctx):
    base = os.path.join(ctx.work, "t")
    os.makedirs(base)
    tree(base)
    vecs = [vector(src, base) for _ in range(src.int(1, 60))]
    lines = ["chdir " + enc(base)]
    for v in vecs:
        full = ["prog"] + v
        lines.append("%d %s" % (len(full), " ".join(enc(a) for a in full)))
    if src.bool(1, 10):
        lines.append("0")
        vecs.append(None)
    out, rc, err = drive(ctx.shared["drv"], ("\n".join(lines) + "\n").encode())
    for i, v in enumerate(vecs):
        if i >= len(out):
            raise Violation("crash", "arguments %r: the parser crashed (%s): %s" % (short(v or ["(argc 0)"]), rc, err[:1500]), {})
        if v is None:
            continue
        sp = Spec(v, base)
        bad = judge(v, parse(out[i]), sp, base)
        if bad:
            raise Violation("options", "arguments %r: %s" % (short(v), bad), {"argv.txt": "\n".join(v)})
        ctx.count()
        ctx.label("help" if sp.help else "error" if sp.errors else "accepted")
        if len(v) >= 5:
            ctx.hit([a.replace(base, "") for a in v])
        ctx.sample = {"argv": short(v), "spec": {"errors": sorted(sp.errors), "extra": short(sp.extra), "cwd": sp.cwd}}
    if rc != 0:
        raise Violation("crash", "the program ended with %s: %s" % (rc, err[:1500]), {})
    for _ in range(2):
        program(src, ctx, base)


def program(src, ctx, base):
    """The whole program: what reaches the preprocessor, where files are read and written."""
    flags, names = [], ["P", "Q", "R"]
    vals = {}
    for _ in range(src.int(0, 6)):
        n = src.choice(names)
        k = src.int(0, 3)
        if k == 0:
            flags.append(["-U" + n])
            vals.pop(n, None)
        elif k == 1:
            v = src.int(1, 3)
            flags.append(["-D%s=%d" % (n, v)])
            vals[n] = str(v)
        elif k == 2:
            flags.append(["-D", n])
            vals[n] = "1"
        else:
            v = "(1 + %d)" % src.int(0, 2)
            flags.append(["-D%s=%s" % (n, v)])
            vals[n] = str(eval(v))
    inc = src.shuffled(["i1", "i2"])
    for d in inc:
        flags.append(["-I", d] if src.bool() else ["-I" + d])
    cwd = src.choice([None, "w", "./w", "w/deep"])
    root = os.path.join(base, cwd or "")
    os.makedirs(root, exist_ok=True)
    hname = src.choice(["h.h", "sub/h.h"])
    for d in ("i1", "i2"):
        os.makedirs(os.path.join(root, d), exist_ok=True)
        with open(os.path.join(root, d, "which.h"), "w") as f:
            f.write("#define WHICH %s\n" % d)
    hp = os.path.join(root, hname)
    os.makedirs(os.path.dirname(hp), exist_ok=True)
    with open(hp, "w") as f:
        f.write("#include <which.h>\n#define CAT_(a, b) a ## b\n#define CAT(a, b) CAT_(a, b)\nint CAT(from_, WHICH)(void);\n")
        for n in names:
            f.write("#ifdef %s\n#if %s == 1\nint %s_1(void);\n#elif %s == 2\nint %s_2(void);\n#else\nint %s_3(void);\n#endif\n#else\nint %s_0(void);\n#endif\n" % (n, n, n, n, n, n, n))
    outd = os.path.join(root, "o")
    os.makedirs(outd, exist_ok=True)
    for f in os.listdir(outd):
        os.unlink(os.path.join(outd, f))
    ipath, opath = hname, "o"
    if src.bool(1, 4):
        ipath = hp
    if src.bool(1, 4):
        opath = outd
    items = [["-i", ipath], ["-o", opath]] + ([["--cwd", cwd]] if cwd else [])
    # own options anywhere between the parser's arguments, which keep their order
    args, pos = [], src.shuffled(items)
    for fl in flags:
        while pos and src.bool(1, 3):
            args += pos.pop()
        args += fl
    for it in pos:
        args += it
    expect = {"from_" + inc[0]} | {"%s_%s" % (n, vals.get(n, "0")) for n in names}
    p = subprocess.run([ctx.shared["gen"]] + args, cwd=base, capture_output=True, text=True, timeout=120, errors="replace")
    mock = os.path.join(outd, "easyMock_h.c")
    if p.returncode != 0 or not os.path.exists(mock):
        raise Violation("program", "arguments %r: exit %d, files %s\n%s" % (args, p.returncode, os.listdir(outd), p.stderr[-800:]), {"h.h": open(hp).read()})
    txt = open(os.path.join(outd, "easyMock_h.h")).read()
    import re
    got = set(re.findall(r"\b(\w+)_ExpectAndReturn\b", txt))
    if got != expect:
        raise Violation("program", "arguments %r: mocked %s, expected %s" % (args, sorted(got), sorted(expect)), {"h.h": open(hp).read()})
    ctx.count()
    ctx.label("program_runs")
    ctx.hit(("prog", args))
    if src.bool(1, 3):
        # help and errors of the program
        h = subprocess.run([ctx.shared["gen"]] + args[:src.draw(3)] + ["-h"], cwd=base, capture_output=True, text=True, timeout=60)
        if h.returncode == 0 and ("--mock-only" not in h.stdout or "OPTIONS" not in h.stdout) or h.returncode not in (0, 1):
            raise Violation("program", "help: exit %d %r" % (h.returncode, h.stdout[:200]), {})
        cut = [a for it in items[1:] for a in it]
        e = subprocess.run([ctx.shared["gen"]] + cut, cwd=base, capture_output=True, text=True, timeout=60)
        if e.returncode == 0 or not e.stderr.strip():
            raise Violation("program", "arguments %r without -i: exit %d, message %r" % (cut, e.returncode, e.stderr[:200]), {})


CHECKS = {
    "C13": dict(fn=c13, shared=shared, quick=(700, 45), thorough=(10 ** 6, 600),
                rule="case = up to 60 argument vectors (known options in any order, repeated, without values, with empty or dash values, unusable paths, unknown arguments) given to the real parser under ASan in exact-size blocks and compared with a reference interpreter of the documentation, and 2 runs of the whole program where -D/-U/-I order, --cwd and path forms decide what is mocked and where; non-trivial = at least 5 arguments; distinct by vector"),
}
