"""C19: equality, hashing, caching and moving of the generator's type and function descriptions."""
import os
from . import build, pbt
from .pbt import Violation, Inconclusive
from .checks_fw import drive

H = os.path.join(build.VERIF, "harness")
G = os.path.join(build.REPO, "src/easyMockGenerate/src")
CHAR, UCHAR, SCHAR, VOID = 0, 1, 2, 16
UNSIGN = {2: 1, 3: 4, 5: 6, 7: 8, 9: 10, 14: 15}      # by setUnsigned(true)
INTS = {("c", k) for k in range(1, 11)}
NAMES = ["a", "b", "ab", "ba", "n1", "S", "T", "_x", "a_long_name_of_a_type"]
ATTRS = ["pure", "const", "nonnull", "format", "aligned"]


def shared():
    skip = ("main.cpp", "MainCodeGenerator.cpp", "CodeGeneratorItf.cpp", "CodeParserItf.cpp", "PrintObjects.cpp", "LLVMParser.cpp",
            "CodeGeneratorCTemplate.cpp", "CmdLineParser.cpp", "ElementToMockContext.cpp", "MacroDefinition.cpp")
    srcs = [s for s in build.gen_sources() if os.path.basename(s) not in skip]
    return {"exe": build.harness("ir", [os.path.join(H, "ir.cpp")], srcs)}


# ------------------------------------------------------------------------------------ description trees
# ('c',k) ('p',T) ('r',T) ('k',T) ('t',name,T) ('s'|'n'|'l',name,emb,fwd,fields,methods) ('e',name,values)
# ('i',kind,name) ('f',FN) ('m',T);  FN=(rv,params,var,inl,st,cc,acc,attrs) rv=(T,ds) param=(T,name,ds)
# D=(name,ns,body,FN)  field=('f',T,name,ds,arr)|('b',T,name,ds,bits)

def g_ds(src):
    return src.weighted([(6, ""), (1, "DS1"), (1, "DS2")])


def g_int_type(src):
    t = ("c", src.choice([5, 6, 1, 2, 3, 4, 7, 8, 9, 10]))
    return ("t", src.choice(NAMES), t) if src.bool(1, 4) else t


def g_type(src, d, ctx=""):
    pairs = [(6, "c")]
    if d > 0:
        pairs += [(4, "p"), (2, "t"), (4, "s"), (2, "n"), (2, "l"), (2, "f"), (1, "r"), (1, "m")]
        if ctx != "k":
            pairs.append((3, "k"))
    pairs += [(2, "e"), (2, "i")]
    k = src.weighted(pairs)
    if k == "c":
        return ("c", src.draw(18))
    if k in "prk":
        return (k, g_type(src, d - 1, k))
    if k == "t":
        return ("t", src.choice(NAMES), g_type(src, d - 1))
    if k in "snl":
        name = src.choice(NAMES + [""])
        fields = tuple(g_field(src, d - 1) for _ in range(src.draw(4)))
        methods = ()
        if k in "sl" and d > 1 and not getattr(src, "in_method", False):
            # the signature of a method mentions no class which has methods itself: those are compared by their names
            src.in_method = True
            methods = tuple(g_decl(src, d - 1, True) for _ in range(src.draw(3)))
            src.in_method = False
        return (k, name, src.draw(2), src.draw(2), fields, methods)
    if k == "e":
        vals, names = [], src.shuffled(["A", "B", "C", "D"])
        for n in names[:src.draw(5)]:
            vals.append((n, src.weighted([(4, src.draw(4)), (2, -1 - src.draw(3)), (1, 2 ** 31 - 1), (1, -2 ** 31), (1, 2 ** 32 - 1), (1, 2 ** 32 + src.draw(2))])))
        return ("e", src.choice(NAMES + [""]), tuple(vals))
    if k == "i":
        return ("i", src.draw(3), src.choice(NAMES))
    if k == "f":
        return ("f", g_fn(src, d - 1))
    return ("m", g_type(src, d - 1))


def g_field(src, d):
    if src.bool(1, 4):
        return ("b", g_int_type(src), src.choice(NAMES + [""]), g_ds(src), src.int(0, 9))
    return ("f", g_type(src, d), src.choice(NAMES + [""]), g_ds(src), src.weighted([(4, -1), (1, 0), (2, src.int(1, 4))]))


def g_attr(src):
    return (src.choice(ATTRS), tuple(src.choice(["1", "2", "x", "12"]) for _ in range(src.draw(3))))


def g_fn(src, d, method=False):
    ps = tuple((g_type(src, d), "p%d" % i if method else src.choice(NAMES + [""]), g_ds(src) if not method else "") for i in range(src.draw(4)))
    return ((g_type(src, d), g_ds(src)), ps, src.draw(2), src.draw(2), src.draw(2), src.draw(2), src.draw(4),
            tuple(g_attr(src) for _ in range(src.draw(3) if src.bool(1, 3) else 0)))


def g_decl(src, d, method=False):
    return (src.choice(NAMES), tuple(src.choice(["ns", "a", "b"]) for _ in range(src.draw(3))), src.draw(2), g_fn(src, d, method))


# ------------------------------------------------------------------------------------- what equality means
def canon_t(t):
    k = t[0]
    if k == "m" and t[1][0] == "m":
        return canon_t(t[1])
    if k in "prkm":
        return (k, canon_t(t[1]))
    if k == "t":
        return (k, t[1], canon_t(t[2]))
    if k in "snl":
        return (k, t[1], t[2], t[3], tuple(canon_field(f) for f in t[4]), tuple(canon_d(m) for m in t[5]))
    if k == "e":
        return (k, t[1], tuple(sorted(t[2], key=lambda v: v[1])))
    if k == "f":
        return (k, canon_fn(t[1]))
    return t


def canon_field(f):
    return (f[0], canon_t(f[1])) + f[2:]


def canon_fn(fn):
    return ((canon_t(fn[0][0]), fn[0][1]), tuple((canon_t(p[0]), p[2]) for p in fn[1])) + fn[2:]


def canon_d(d):
    return d[:3] + (canon_fn(d[3]),)


def hashed(x):
    """What of a canonical description its hash depends on: a class only has the names of its methods there, because
    their signatures can refer to the class itself."""
    if not isinstance(x, tuple):
        return x
    if len(x) == 6 and x[0] in ("s", "n", "l") and isinstance(x[5], tuple):
        return x[:4] + (hashed(x[4]), tuple(m[0] for m in x[5]))
    return tuple(hashed(y) for y in x)


CANON = {"T": canon_t, "F": canon_field, "D": canon_d, "Y": canon_fn, "R": lambda r: (canon_t(r[0]), r[1]),
         "M": lambda p: (canon_t(p[0]), p[2]), "A": lambda a: a, "N": lambda n: n}


def strip(t):
    while t[0] == "t":
        t = t[2]
    return t


def deep(x):
    """Typedefs removed everywhere, declared strings dropped."""
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == "t" and isinstance(x[2], tuple):
            return deep(x[2])
        if len(x) == 2 and x[0] == "m":
            return deep(x[1])
        return tuple(deep(y) for y in x)
    return "" if x in ("DS1", "DS2") else x


def rawfn(name, fn, f):
    return (name, fn[2], tuple(f(canon_t(p[0])) for p in fn[1]), f(canon_t(fn[0][0])))


# ------------------------------------------------------------------------------------- one-place mutations
def m_type(t):
    k = t[0]
    out = [("p", t), ("t", "zz", t)]
    if k not in "kr":
        out.append(("k", t))
    if k == "c":
        out += [("c", (t[1] + 1) % 18), ("c", (t[1] + 2) % 18)]
    elif k in "prkm":
        out += [(k, x) for x in m_type(t[1]) if not (k == "k" and x[0] == "k")]
        if not (t[1][0] == "k" and k == "k"):
            out.append(t[1])
        if k == "p":
            out.append(("r", t[1]))
        if k == "m":
            out.append(t[1])
    elif k == "t":
        out += [("t", t[1] + "z", t[2]), t[2]] + [("t", t[1], x) for x in m_type(t[2])]
    elif k in "snl":
        out += [(k, t[1] + "z") + t[2:], t[:2] + (1 - t[2],) + t[3:], t[:3] + (1 - t[3],) + t[4:]]
        out += [({"s": "n", "n": "l", "l": "s"}[k],) + t[1:]] if k != "s" or not t[5] else [("l",) + t[1:]]
        if not t[1]:
            out.append((k, "named") + t[2:])
        out += [t[:4] + (fs,) + t[5:] for fs in m_list(t[4], m_field)]
        out += [t[:5] + (ms,) for ms in m_list(t[5], lambda d: m_decl(d, True))]
    elif k == "e":
        out += [("e", t[1] + "z", t[2])]
        for i, (n, v) in enumerate(t[2]):
            out += [("e", t[1], t[2][:i] + ((n, v2),) + t[2][i + 1:]) for v2 in (v + 1, v + 2 ** 32, -v if v else 7)]
            out += [("e", t[1], t[2][:i] + ((n + "z", v),) + t[2][i + 1:]), ("e", t[1], t[2][:i] + t[2][i + 1:])]
        out.append(("e", t[1], t[2] + (("NEW", t[2][0][1] if t[2] else 0),)))
    elif k == "i":
        out += [("i", (t[1] + 1) % 3, t[2]), ("i", (t[1] + 2) % 3, t[2]), ("i", t[1], t[2] + "z")]
    elif k == "f":
        out += [("f", f) for f in m_fn(t[1])]
    if k == "m":
        pass
    else:
        out.append(("m", t))
    out += m_kind(t)
    return out


def m_kind(t):
    """The same contents in another kind of type, or the same layers in another order."""
    k, out = t[0], []
    named = {"s": ("s", 1), "n": ("n", 1), "l": ("l", 1), "e": ("e", 1), "i": ("i", 2)}
    if k in named:
        n = t[named[k][1]]
        out += [x for x in [("s", n, 0, 0, (), ()), ("n", n, 0, 0, (), ()), ("e", n, ()), ("i", 0, n), ("i", 1, n)] if x != t and (x[0] != "i" or n)]
    if k in "pkrm":
        out += [(j, t[1]) for j in "pkrm" if j != k and not (j == "k" and t[1][0] in "kr") and not (j == "m" and t[1][0] == "m")]
        u = t[1]
        if u[0] in "pkrm" and u[0] != k and not (u[0] == "k" and k == "r") and not (k == "k" and u[1][0] in "kr") and "m" not in (k, u[0]):
            out.append((u[0], (k, u[1])))
        if u[0] == "t":
            out.append(("t", u[1], (k, u[2])) if not (k == "k" and u[2][0] in "kr") else ("p", t))
    if k == "t" and t[2][0] == "t":
        out.append(("t", t[2][1], ("t", t[1], t[2][2])))
    return out


def m_list(l, m):
    out = []
    for i, x in enumerate(l):
        out += [l[:i] + (y,) + l[i + 1:] for y in m(x)] + [l[:i] + l[i + 1:]]
        if i and l[i] != l[i - 1]:
            out.append(l[:i - 1] + (l[i], l[i - 1]) + l[i + 1:])
    if l:
        out.append(l + (l[-1],))
    return out


def m_field(f):
    out = [f[:2] + (f[2] + "z",) + f[3:], f[:3] + ("DS1" if f[3] != "DS1" else "DS2",) + f[4:]]
    if f[0] == "b":
        out += [f[:4] + ((f[4] + 1) % 64,), ("f", f[1], f[2], f[3], -1), ("f",) + f[1:]]
    else:
        out += [f[:4] + (f[4] + 1,), f[:4] + (f[4] + 256 if f[4] > 0 else 3,)] + [("f", x) + f[2:] for x in m_type(f[1])]
        if f[1][0] == "c" and f[1] in INTS and f[4] >= 0:
            out += [("b",) + f[1:]] * 3
    return out


def m_attr(a):
    out = [(a[0] + "z", a[1]), (a[0], a[1] + ("9",))]
    for i in range(len(a[1])):
        out += [(a[0], a[1][:i] + (a[1][i] + "0",) + a[1][i + 1:]), (a[0], a[1][:i] + a[1][i + 1:])]
    return out


def m_param(p, method=False):
    out = [(x,) + p[1:] for x in m_type(p[0])]
    if not method:
        out += [(p[0], p[1] + "z", p[2]), (p[0], p[1], "DS1" if p[2] != "DS1" else "DS2")]
    return out


def m_fn(fn, method=False):
    out = [((x, fn[0][1]),) + fn[1:] for x in m_type(fn[0][0])]
    if not method:
        out.append(((fn[0][0], "DS1" if fn[0][1] != "DS1" else "DS2"),) + fn[1:])
        ps = m_list(fn[1], m_param)
    else:
        # the parameter names of methods stay a function of the position
        ps = [tuple((p[0], "p%d" % i, p[2]) for i, p in enumerate(l)) for l in m_list(fn[1], lambda p: m_param(p, True))]
    out += [(fn[0], p) + fn[2:] for p in ps]
    for i in (2, 3, 4, 5):
        out.append(fn[:i] + (1 - fn[i],) + fn[i + 1:])
    out += [fn[:6] + ((fn[6] + j) % 4,) + fn[7:] for j in (1, 2)]
    out += [fn[:7] + (a,) for a in m_list(fn[7], m_attr)]
    return out


def m_decl(d, method=False):
    return [(d[0] + "z",) + d[1:], (d[0], d[1] + ("q",)) + d[2:], d[:2] + (1 - d[2],) + d[3:]] + \
        [(d[0], n) + d[2:] for n in m_list(d[1], lambda s: [s + "z"])] + [d[:3] + (f,) for f in m_fn(d[3], method)]


MUT = {"T": m_type, "F": m_field, "D": m_decl, "Y": m_fn, "R": lambda r: [(x, r[1]) for x in m_type(r[0])] + [(r[0], "DS1" if r[1] != "DS1" else "DS2")],
       "M": m_param, "A": m_attr, "N": lambda n: [n + ("q",)] + m_list(n, lambda s: [s + "z"])}
GEN = {"T": lambda s: g_type(s, 3), "F": lambda s: g_field(s, 2), "D": lambda s: g_decl(s, 2), "Y": lambda s: g_fn(s, 2),
       "R": lambda s: (g_type(s, 2), g_ds(s)), "M": lambda s: (g_type(s, 2), s.choice(NAMES), g_ds(s)), "A": g_attr,
       "N": lambda s: tuple(s.choice(["ns", "a", "b"]) for _ in range(s.draw(4)))}


# ------------------------------------------------------------------------------------- ways of building
class Ser:
    """Writes a tree for the harness, choosing among the ways to build the same description."""
    def __init__(self, src):
        self.src, self.shared, self.n = src, {}, 0

    def nm(self, s):
        return s or "~"

    def t(self, t, share=True):
        s = self.src
        k = t[0]
        if share and t in self.shared and s.bool():
            return "@ %d" % self.shared[t]
        pre = ""
        if share and k in "cpste" and t not in self.shared and s.bool(1, 5):
            self.n += 1
            n, body = self.n, self.t0(t)
            self.shared[t] = n
            return "= %d %s" % (n, body)
        return pre + self.t0(t)

    def t0(self, t):
        s, k = self.src, t[0]
        if k == "c":
            ways = ["c %d" % t[1]]
            for sg, un in UNSIGN.items():
                if t[1] == un:
                    ways.append("u %d 1" % sg)
                if t[1] == sg:
                    ways.append("u %d 0" % un)
            if t[1] == UCHAR:
                ways += ["u %d 1" % CHAR] * 2
            if t[1] in (11, 12, 13, 16):
                ways.append("u %d %d" % (t[1], s.draw(2)))
            return s.choice(ways)
        if k in "pk":
            return "%s %s" % (s.choice([k, k, k.upper()]), self.t(t[1]))
        if k == "r":
            return "r " + self.t(t[1])
        if k == "m":
            return "m " + self.t(t[1], False)
        if k == "t":
            return "t %s %s" % (t[1], self.t(t[2]))
        if k in "snl":
            return "%s %s %d %d %d %s %d %s" % (s.choice([k, k.upper()]), self.nm(t[1]), t[2], t[3], len(t[4]), " ".join(self.field(f) for f in t[4]),
                                                len(t[5]), " ".join(self.d(m) for m in t[5]))
        if k == "e":
            vals = list(t[2])
            # any order that keeps equal values in order
            order = sorted(range(len(vals)), key=lambda i: (vals[i][1], i))
            out = []
            while order:
                firsts = [i for i in order if not any(j < i and vals[j][1] == vals[i][1] for j in order)]
                i = s.choice(sorted(firsts))
                order.remove(i)
                out.append(vals[i])
            return "%s %s %d %s" % (s.choice("eE"), self.nm(t[1]), len(out), " ".join("%s %d" % v for v in out))
        if k == "i":
            return "i %d %s" % (t[1], t[2])
        if k == "f":
            return "f " + self.fn(t[1])
        raise AssertionError(t)

    def fn0(self, fn):
        return "%s %s %d %s" % (self.t(fn[0][0]), self.nm(fn[0][1]), len(fn[1]), " ".join(self.param(p) for p in fn[1]))

    def flags(self, fn):
        return "%d %d %d %d %d %d %s" % (fn[2:7] + (len(fn[7]), " ".join(self.attr(a) for a in fn[7])))

    def fn(self, fn):
        return "%d %s %s" % (self.src.draw(2), self.fn0(fn), self.flags(fn))

    def d(self, d):
        return "%d %s %s %s %d %s" % (self.src.draw(2), d[0], self.ns(d[1]), self.fn0(d[3]), d[2], self.flags(d[3]))

    def ns(self, n):
        return "%d %s" % (len(n), " ".join(n))

    def attr(self, a):
        return "%s %d %s" % (a[0], len(a[1]), " ".join(a[1]))

    def param(self, p):
        return "%s %s %s" % (self.t(p[0]), self.nm(p[1]), self.nm(p[2]))

    def field(self, f):
        if f[0] == "b":
            return "b %s %s %s %d" % (self.t(f[1]), self.nm(f[2]), self.nm(f[3]), f[4])
        return "%s %s %s %s %d" % (self.src.choice("fg"), self.t(f[1]), self.nm(f[2]), self.nm(f[3]), f[4])

    def top(self, kind, x):
        return {"T": self.t0, "F": self.field, "D": self.d, "Y": self.fn, "A": self.attr, "N": self.ns, "M": self.param,
                "R": lambda r: "%s %s" % (self.t(r[0]), self.nm(r[1]))}[kind](x)


def size(x):
    return 1 + sum(size(y) for y in x) if isinstance(x, tuple) else 0


def kinds(t):
    k = t[0]
    m = ""
    if k == "m":
        while t[0] == "m":
            t = t[1]
        k, m = t[0], "M" if t[0] != "i" else ""
    base = {"c": "C", "s": "SO", "n": "UO", "l": "SO", "p": "P", "r": "R", "f": "F", "e": "E", "i": "I", "t": "T", "k": "QK"}[k] + m
    return "".join(c if c in base else "-" for c in "CSUPRFEITQKOM")


def parse(line):
    out, key = {}, None
    for w in line.split():
        if w[0].isalpha() and w.islower():
            key = w
            out[key] = []
        elif key:
            out[key].append(w)
    return out


def c19(src, ctx):
    pairs = []
    for _ in range(src.int(1, 40)):
        kind = src.weighted([(6, "T"), (3, "D"), (2, "Y"), (2, "F"), (1, "M"), (1, "R"), (1, "A"), (1, "N")])
        a = GEN[kind](src)
        rel = src.weighted([(2, "same"), (4, "mutant"), (1, "other")])
        if rel == "same":
            b = a
        elif rel == "mutant":
            ms = MUT[kind](a)
            b = src.choice(ms) if ms else a
        else:
            b = GEN[kind](src)
        if size(a) > 400 or size(b) > 400:
            continue
        sa, sb = Ser(src).top(kind, a), Ser(src).top(kind, b)
        pairs.append((kind, a, b, "%s %s ; %s" % (kind, sa, sb), rel))
    if not pairs:
        return
    lines, rc, err = drive(ctx.shared["exe"], ("\n".join(p[3] for p in pairs) + "\n").encode())
    for n, (kind, a, b, text, rel) in enumerate(pairs):
        if n >= len(lines) or (rc not in (0,) and n == len(lines) - 1 and not parse(lines[n]).get("eqcc")):
            raise Violation("crash", "pair %r: harness ended with %s: %s" % (text, rc, err[-600:]), {"pair.txt": text})
        judge(ctx, kind, a, b, text, parse(lines[n]))
        ctx.count()
        ctx.label(kind + "_" + rel)
        if size(a) > 3:
            ctx.hit(text)
            if ctx.sample is None and 12 < size(a) < 40:
                ctx.sample = text
    if rc != 0:
        raise Violation("crash", "harness ended with %s: %s" % (rc, err[-600:]), {})


def judge(ctx, kind, a, b, text, r):
    def bad(what, **kw):
        raise Violation(what, "%s\n  pair: %s\n  harness: %s" % (what, text, r), {"pair.txt": text})
    ca, cb = CANON[kind](a), CANON[kind](b)
    same = ca == cb
    e = "1" if same else "0"
    try:
        eq, ne = r["eq"][0], r["ne"][0]
        ha, hb, ha2 = r["h"]
        c1, c2 = r["c"]
        hcb = r["cb"][0]
    except (KeyError, IndexError, ValueError):
        bad("garbled")
    if eq[2:4] != "11":
        bad("equality is not reflexive")
    if eq[4:6] != "11":
        bad("equal descriptions built the same way compare unequal")
    if eq[0] != eq[1]:
        bad("equality is not symmetric")
    if eq[0] != e:
        bad("equal descriptions compare unequal" if same else "different descriptions compare equal")
    if ne != ("00" if same else "11") + "00":
        bad("!= is not the negation of ==")
    if ha != ha2 or (same and ha != hb):
        bad("equal descriptions have different hashes")
    if hashed(ca) != hashed(cb) and ha == hb:
        bad("different descriptions have equal hashes")
    if not (c1 == c2 == ha) or hcb != hb:
        bad("cached hash differs from the computed one")
    if r["eqc"][0] != e + e + "11" or r["eqcc"][0] != e + e:
        bad("equality changes with caching")
    if kind == "T":
        if r["kinds"] != [kinds(a)]:
            bad("kind predicates: expected %s" % kinds(a))
        if not (r["raw"][0] == r["raw"][1] == r["raw"][2] == r["raw"][3] == r["raw"][4]):
            if a[0] != "f":
                bad("raw hash of a type and its typedefs differ")
        ra, rb = strip(ca), strip(cb)
    if kind in "DY":
        na, fa = (a[0], a[3]) if kind == "D" else ("", a)
        nb, fb = (b[0], b[3]) if kind == "D" else ("", b)
        if rawfn(na, fa, strip) == rawfn(nb, fb, strip):
            if r["rawf"][0] != r["rawf"][1]:
                bad("raw hash differs for functions of the same raw signature")
            ctx.label("raw_equal")
        elif hashed(rawfn(na, fa, deep)) != hashed(rawfn(nb, fb, deep)) and r["rawf"][0] == r["rawf"][1]:
            bad("raw hash equal for functions of different signatures")
        if r["rawfc"] != r["rawf"]:
            bad("raw hash changes with caching")
    if kind != "N" and not (kind == "T" and (a[0] in "fmi" or a[0] in "sl" and a[5])):
        if "mv" not in r or set(r["mv"][0]) != {"1"}:
            bad("a moved-to object differs from the original")


CHECKS = {
    "C19": dict(fn=c19, shared=shared, quick=(4000, 40), thorough=(10 ** 6, 600),
                rule="case = up to 40 pairs of descriptions (types, functions, function types, fields, parameters, return values, attributes, namespaces), the second equal to the first but built another way, the first with a one-place mutation, or independent; equality in both directions, !=, hashes, cached hashes, raw hashes and moved objects judged by structural equality of the trees; evaluation = pair; non-trivial = description with more than 3 nodes; distinct by pair"),
}
