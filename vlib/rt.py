"""Runs generated histories of expectations and calls against real generated mocks and judges what is
observed with a reference model of the mock protocol (checks C01-C07, C18)."""
import os, re, shutil, subprocess
from . import build, hgen
from .hgen import *
from .pbt import Violation, Inconclusive

INC = ["-I" + build.FW_INC, "-I" + os.path.join(build.VERIF, "harness")]
CC = ["gcc", "-w", "-O0", "-fPIC"] + build.SAN
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0",
           UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=99")


def sh(cmd, timeout=120, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, **kw)


# ------------------------------------------------------------------ C code to build and to hash values
def leaf_fill(t, lv, bits=False):
    k = t.key if isinstance(t, Scalar) else None
    if k in ("float", "double", "long double"):
        v = "((%s)((double)(int64_t)rt_mix(seed, leaf) / 65536.0))" % k
    elif isinstance(t, Ptr):
        v = "((__typeof__(%s))(uintptr_t)rt_mix(seed, leaf))" % lv
    elif bits:
        return "%s = (%s)rt_mix(seed, leaf); leaf++;\n" % (lv, k)
    else:
        v = "((__typeof__(%s))((((rt_u128)rt_mix(seed, leaf + 77777)) << 64) | rt_mix(seed, leaf)))" % lv
    return "{ __typeof__(%s) t_ = %s; memcpy((void *)&(%s), &t_, sizeof t_); leaf++; }\n" % (lv, v, lv)


def leaf_dump(t, lv):
    if isinstance(t, Scalar) and t.key in ("float", "double", "long double"):
        return "h = rt_hfp(h, %s);\n" % lv
    if isinstance(t, Ptr):
        return "h = rt_hint(h, (uintptr_t)(%s));\n" % lv
    return "h = rt_hint(h, (rt_u128)(%s));\n" % lv


def walk(t, lv, leaf, depth=0, bits=False):
    t = strip(t)
    if isinstance(t, Arr):
        i = "i%d" % depth
        return "for(int %s = 0; %s < %d; %s++) {\n%s}\n" % (i, i, t.n, i, walk(t.t, "%s[%s]" % (lv, i), leaf, depth + 1))
    r = rec_of(t)
    if r is not None:
        out = ""
        for f in r.fields:
            if f.name is None and f.bits is not None:
                continue
            out += walk(f.t, lv if f.name is None else lv + "." + f.name, leaf, depth, f.bits is not None)
            if r.kind == "union":
                break
        return out
    return leaf(t, lv, True) if bits and leaf is leaf_fill else leaf(t, lv)


def base(t):
    """Type of a parameter or return value as an object: adjusted, without top-level const."""
    while isinstance(t, (Const,)):
        t = t.t
    if isinstance(t, Arr):
        return Ptr(t.t)
    if isinstance(t, Fun):
        return Ptr(t)
    if isinstance(t, Ptr) and t.q:
        return Ptr(t.t)
    if isinstance(t, Typedef) and isinstance(t.t, (Const, Ptr)) and (isinstance(t.t, Const) or t.t.q):
        return base(t.t)
    return t


def pkind(t):
    s = strip(base(t))
    if isinstance(s, Ptr):
        p = strip(s.t)
        r = rec_of(p)
        if isinstance(p, Fun):
            return "fp"
        if isinstance(p, Void) or (r is not None and r.fields is None):
            return "bytes"
        if isinstance(p, Scalar) and p.key == "char":
            return "str"
        return "obj"
    return "val"


def pointee_const(t):
    p = strip(base(t)).t
    while isinstance(p, Typedef):
        p = p.t
    return isinstance(p, Const) or (isinstance(p, Ptr) and bool(p.q))


BYTES_N = 24
STR_N = 16
BIG = 10 ** 7           # a seed from here on makes an untyped object of more than 60000 bytes


def bytes_size(seed):
    return 60000 + seed % 16384 if seed >= BIG else BYTES_N


class Param:
    pass


class FInfo:
    """What the glue and the model know about one mocked function."""


def parse_api(mock_h, fn):
    """Parameter names as the mock knows them, and the output arguments its header offers."""
    def args(kind):
        m = re.search(r"void %s_%s\((.*)\);" % (re.escape(fn.name), kind), mock_h)
        return None if m is None else m.group(1)
    a = args("ExpectAndReturn")
    if a is None:
        raise Violation("api", "no %s_ExpectAndReturn in the generated header" % fn.name)
    names = re.findall(r"EasyMock_Matcher easyMock_match_(\w+)", a)
    o = args("ExpectReturnAndOutput")
    outs = {}
    if o is not None:
        tail = o[o.rfind("EasyMock_Matcher easyMock_match_"):]
        for n in names:
            if re.search(r"\bout_%s\b" % re.escape(n), tail):
                outs[n] = bool(re.search(r"\bout_%s_size\b" % re.escape(n), tail))
    return names, outs, o is not None


def make_info(fn, mock_h):
    fi = FInfo()
    fi.fn, fi.name = fn, fn.name
    names, outs, fi.has_out = parse_api(mock_h, fn)
    if len(names) != len(fn.params):
        raise Violation("api", "%s has %d parameters but %d matchers in the generated header" % (fn.name, len(fn.params), len(names)))
    fi.params = []
    for i, ((n, t), gn) in enumerate(zip(fn.params, names)):
        p = Param()
        p.name, p.gname, p.t, p.kind = n, gn, t, pkind(t)
        p.out = outs.get(gn)            # None: no output; False: typed; True: with a size
        p.const_pointee = p.kind in ("str", "bytes", "obj") and pointee_const(t)
        p.matchers = [None, "rec"]
        b = strip(base(t))
        if p.kind == "val" and isinstance(b, Scalar) and b.key not in ("_Bool", "signed char"):
            p.matchers.append("cmp_" + b.matcher)
        if isinstance(b, Ptr):
            p.matchers.append("cmp_pointer")
            d = strip(b.t)
            if p.kind in ("obj", "str") and isinstance(d, Scalar) and "128" not in d.key and d.key not in ("_Bool", "signed char"):
                p.matchers.append("cmp_deref_ptr_" + d.matcher)
            if p.kind == "obj" and isinstance(d, Ptr):
                p.matchers.append("cmp_deref_ptr_pointer")
            if p.kind == "str":
                p.matchers.append("cmp_str")
        p.ldbl = isinstance(b, Ptr) and isinstance(strip(b.t), Scalar) and strip(b.t).key == "long double"
        fi.params.append(p)
    fi.ret = None if isinstance(strip(fn.ret), Void) else base(fn.ret)
    return fi


def glue_source(hdr_base, infos, static_index=None):
    o = ['#include "rt_core.h"', '#include "easyMock_%s.h"' % hdr_base]
    used = sorted({m for fi in infos for p in fi.params for m in p.matchers if m and m.startswith("cmp_")})
    for m in used:
        o.append("extern int %s(EASYMOCK_MATCHER_PARAM);" % m)
    exp, call = [], []
    for k, fi in enumerate(infos):
        fn = fi.fn
        for j, p in enumerate(fi.params):
            T = "pt_%d_%d" % (k, j)
            o.append("typedef %s;" % cdecl(base(p.t), T))
            o.append("static rt_hash dump_%s(const %s *v) { rt_hash h = RT_H0;\n%s return h; }" % (T, T, walk(base(p.t), "(*v)", leaf_dump)))
            o.append("static int rec_%s(EASYMOCK_MATCHER_PARAM) { return rt_record(%d, dump_%s((const %s *)currentCall_ptr), dump_%s((const %s *)expectedCall_ptr), paramName, errorMessage); }"
                     % (T, j, T, T, T, T))
            ms = ["NULL" if m is None else "rec_" + T if m == "rec" else m for m in p.matchers]
            o.append("static const EasyMock_Matcher match_%s[] = {%s};" % (T, ", ".join(ms)))
            if p.kind in ("str", "bytes", "obj"):
                e = strip(base(p.t)).t
                if p.kind == "obj":
                    while isinstance(e, Const):
                        e = e.t
                    if isinstance(e, Ptr) and e.q:
                        e = Ptr(e.t)
                    o.append("typedef %s;" % cdecl(e, "el_%s" % T))
                    o.append("static void *new_%s(long id, uint64_t seed) { if(id < 0) return NULL; if(rt_slot_exists(id)) return rt_slot_ptr(id);\n"
                             "el_%s *v = rt_slot(id, sizeof(el_%s), 1); unsigned leaf = 0;\n%s rt_slot_done(id); return v; }"
                             % (T, T, T, walk(e, "(*v)", leaf_fill)))
                else:
                    n = STR_N if p.kind == "str" else "(seed >= %d ? 60000 + seed %% 16384 : %d)" % (BIG, BYTES_N)
                    o.append("static void *new_%s(long id, uint64_t seed) { if(id < 0) return NULL; if(rt_slot_exists(id)) return rt_slot_ptr(id);\n"
                             "size_t n = %s; char *v = rt_slot(id, n, 1); %s(v, n, seed); rt_slot_done(id); return v; }"
                             % (T, n, "rt_fill_str" if p.kind == "str" else "rt_fill_bytes"))
                o.append("static %s get_%s(void) { long id = rt_int(); uint64_t seed = rt_int(); return (%s)new_%s(id, seed); }" % (T, T, T, T))
            else:
                o.append("static %s get_%s(void) { uint64_t seed = rt_int(); unsigned leaf = 0; %s x; memset(&x, seed & 1 ? 0xA5 : 0, sizeof x); %s *v = &x; (void)leaf;\n%s return x; }"
                         % (T, T, T, T, walk(base(p.t), "(*v)", leaf_fill)))
        if fi.ret is not None:
            T = "rt_%d" % k
            o.append("typedef %s;" % cdecl(fi.ret, T))
            o.append("static rt_hash dump_%s(const %s *v) { rt_hash h = RT_H0;\n%s return h; }" % (T, T, walk(fi.ret, "(*v)", leaf_dump)))
            o.append("static %s get_%s(void) { uint64_t seed = rt_int(); unsigned leaf = 0; %s x; memset(&x, seed & 1 ? 0xA5 : 0, sizeof x); %s *v = &x; (void)leaf;\n%s return x; }"
                     % (T, T, T, T, walk(fi.ret, "(*v)", leaf_fill)))
        b = "static void expect_%d(void) {\n" % k
        for j in range(len(fi.params)):
            b += "pt_%d_%d a%d = get_pt_%d_%d();\n" % (k, j, j, k, j)
        if fi.ret is not None:
            b += "rt_%d r = get_rt_%d();\n" % (k, k)
        b += 'rt_out("V");\n'
        for j in range(len(fi.params)):
            b += 'rt_out(" %%llx", (unsigned long long)dump_pt_%d_%d(&a%d));\n' % (k, j, j)
        b += 'rt_out(" %%llx\\n", (unsigned long long)%s);\n' % ("dump_rt_%d(&r)" % k if fi.ret is not None else "0ull")
        for j in range(len(fi.params)):
            b += "EasyMock_Matcher m%d = match_pt_%d_%d[rt_int()];\n" % (j, k, j)
        args = ["a%d" % j for j in range(len(fi.params))] + (["r"] if fi.ret is not None else []) + ["m%d" % j for j in range(len(fi.params))]
        oargs = list(args)
        if fi.has_out:
            b += "int with_out = (int)rt_int();\n"
            for j, p in enumerate(fi.params):
                if p.out is None:
                    continue
                b += "long oid%d = rt_int(); uint64_t os%d = rt_int(); long on%d = rt_int();\n" % (j, j, j)
                if p.kind in ("str", "bytes", "obj"):
                    b += "void *o%d = new_pt_%d_%d(oid%d, os%d);\n" % (j, k, j, j, j)
                else:
                    b += "void *o%d = NULL;\n" % j
                oargs.append("(pt_%d_%d)o%d" % (k, j, j))
                if p.out:
                    oargs.append("(easyMock_size_t)on%d" % j)
            b += "if(with_out) %s_ExpectReturnAndOutput(%s); else\n" % (fi.name, ", ".join(oargs))
        b += "%s_ExpectAndReturn(%s);\n}" % (fi.name, ", ".join(args))
        o.append(b)
        b = "static void call_%d(void) {\n" % k
        for j in range(len(fi.params)):
            b += "pt_%d_%d a%d = get_pt_%d_%d();\n" % (k, j, j, k, j)
        b += 'rt_out("V");\n'
        for j in range(len(fi.params)):
            b += 'rt_out(" %%llx", (unsigned long long)dump_pt_%d_%d(&a%d));\n' % (k, j, j)
        b += 'rt_out("\\n");\n'
        args = ", ".join(["a%d" % j for j in range(len(fi.params))] + (['7', '"x"'] if fn.variadic else []))
        if fi.ret is not None:
            b += 'rt_%d r = %s(%s);\nrt_out("T %%llx\\n", (unsigned long long)dump_rt_%d(&r));\n}' % (k, fi.name, args, k)
        else:
            b += '%s(%s);\nrt_out("T 0\\n");\n}' % (fi.name, args)
        o.append(b)
        exp.append("expect_%d" % k)
        call.append("call_%d" % k)
    for nm, lst in (("expect", exp), ("call", call)):
        o.append("static void do_%s(int f) { switch(f) {\n%s } }" % (nm, "\n".join("case %d: %s(); break;" % (i, x) for i, x in enumerate(lst))))
    sym = "rt_glue" if static_index is None else "rt_glue_%d" % static_index
    o.append("const rt_glue_t %s = {%d, do_expect, do_call};" % (sym, len(infos)))
    return "\n".join(o) + "\n"


class Mocks:
    """Generated, compiled and linked mocks of one or more headers."""
    def __init__(self, ctx, headers, gen_opts=(), dl=False, variant="asan", types_mode=False, copies=0):
        self.ctx, self.headers, self.dir, self.dl = ctx, headers, ctx.work, dl
        d = self.dir
        self.infos = []                  # per header, list of FInfo
        self.flat = []                   # (g, f, FInfo)
        objs = []
        dirs = [os.path.join(d, "d%d" % g) if dl else d for g in range(len(headers))]
        for h, hd in zip(headers, dirs):
            os.makedirs(hd, exist_ok=True)
            with open(os.path.join(hd, h.name), "w") as fd:
                fd.write(h.text())
        for g, h in enumerate(headers):
            p = sh([ctx.shared["gen"], "-i", os.path.join(dirs[g], h.name), "-o", dirs[g]] + list(gen_opts) + (["--generate-types"] if types_mode else []))
            if p.returncode != 0:
                raise Inconclusive("generator failed on a supported header (C14's business): " + p.stderr[-400:])
        if types_mode:
            for h, hd in zip(headers, dirs):
                os.unlink(os.path.join(hd, h.name))
        procs = []
        for g, h in enumerate(headers):
            b = h.name[:-2]
            try:
                mh = open(os.path.join(dirs[g], "easyMock_%s.h" % b)).read()
            except OSError:
                raise Inconclusive("no mock written")
            try:
                infos = [make_info(fn, mh) for fn in h.funcs]
            except Violation as v:
                raise Inconclusive("C10's business: " + v.detail)
            self.infos.append(infos)
            self.flat += [(g, f, fi) for f, fi in enumerate(infos)]
            with open(os.path.join(d, "glue_%d.c" % g), "w") as fd:
                fd.write(glue_source(b, infos, None if dl else g))
            if dl:
                procs.append(CC + INC + ["-I" + dirs[g], "-shared", os.path.join(dirs[g], "easyMock_%s.c" % b), os.path.join(d, "glue_%d.c" % g), "-o", os.path.join(d, "lib%d.so" % g)])
            else:
                for s, x in (("easyMock_%s" % b, "m%d.o" % g), ("glue_%d" % g, "g%d.o" % g)):
                    procs.append(CC + INC + ["-I" + d, "-c", os.path.join(d, s + ".c"), "-o", os.path.join(d, x)])
                    objs.append(os.path.join(d, x))
        if not dl:
            n = len(headers)
            tab = '#include "rt_core.h"\n' + "".join("extern const rt_glue_t rt_glue_%d;\n" % i for i in range(n))
            tab += "const rt_glue_t *rt_static_glue(int g) { switch(g) {%s} return NULL; }\n" % "".join("case %d: return &rt_glue_%d;" % (i, i) for i in range(n))
            with open(os.path.join(d, "tab.c"), "w") as fd:
                fd.write(tab)
            procs.append(CC + INC + ["-c", os.path.join(d, "tab.c"), "-o", os.path.join(d, "tab.o")])
            objs.append(os.path.join(d, "tab.o"))
        for c in procs:
            p = sh(c)
            if p.returncode != 0:
                raise Inconclusive("does not compile (C10's business): " + p.stderr[:600])
        fw = ctx.shared["fw"]
        for i in range(copies):         # the same shared object under other names
            g, k = i % len(headers), len(headers) + i
            shutil.copy(os.path.join(d, "lib%d.so" % g), os.path.join(d, "lib%d.so" % k))
            self.infos.append(self.infos[g])
        self.headers = list(headers) + [headers[i % len(headers)] for i in range(copies)]
        self.exe = os.path.join(d, "rt")
        p = sh(["gcc"] + build.SAN + ["-rdynamic", ctx.shared["core"]] + objs + [fw, "-Wl,-rpath," + os.path.dirname(fw), "-ldl", "-o", self.exe])
        if p.returncode != 0:
            raise Inconclusive("does not link (C10's business): " + p.stderr[:600])

    def run(self, scripts, timeout=60):
        """scripts: token lists. Returns a list of (lines, died, stderr)."""
        text = "".join("%d %s\n" % (len(s), " ".join(map(str, s))) for s in scripts) + "-1\n"
        try:
            p = subprocess.run([self.exe, self.dir], input=text, capture_output=True, text=True, errors="replace", timeout=timeout, env=ENV)
        except subprocess.TimeoutExpired:
            raise Violation("hang", "a history did not end within %d s" % timeout)
        res, cur = [], None
        for line in p.stdout.splitlines():
            if line == "H":
                cur = [[], None]
                res.append(cur)
            elif line.startswith("DIED"):
                cur[1] = line
            elif line != "DONE" and cur is not None:
                cur[0].append(line)
        if len(res) != len(scripts):
            raise Violation("crash", "the process died: rc=%s\n%s" % (p.returncode, p.stderr[-3000:]))
        return [(ls, died, p.stderr) for ls, died in res]


# ------------------------------------------------------------------ histories
class Op:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        d = {k: v for k, v in self.__dict__.items() if k not in ("kind", "exp")}
        return self.kind + (" " + " ".join("%s=%s" % kv for kv in d.items()) if d else "")


CODE = {"expect": 1, "call": 2, "check": 3, "init": 4, "order": 5, "stack": 6, "arr": 7, "str": 8, "load": 9, "unload": 10, "bytes": 11, "switches": 12, "exit": 13}


def tokens(ops, mocks):
    o = []
    for op in ops:
        o.append(CODE[op.kind])
        if op.kind in ("expect", "call"):
            fi = mocks.infos[op.g][op.f]
            o += [op.g, op.f]
            if op.kind == "call":
                o.append(len(op.recs))
                for ret, ln, sd in op.recs:
                    o += [ret, ln, sd]
            for p, a in zip(fi.params, op.args):
                o += list(a)
            if op.kind == "expect":
                if fi.ret is not None:
                    o.append(op.ret)
                o += op.matchers
                if fi.has_out:
                    o.append(int(op.with_out))
                    for p, x in zip(fi.params, op.outs):
                        if p.out is not None:
                            o += list(x)
        elif op.kind in ("order", "stack"):
            o.append(op.val)
        elif op.kind in ("load", "unload"):
            o.append(op.g)
    return o


ALPHABET = "abcdefghij%sdn 'X\"\\."
M64 = (1 << 64) - 1


def mix(seed, leaf):
    if seed == 0:
        return 0
    if seed == 1:
        return M64
    if seed == 2:
        return 1
    if seed == 3:
        return 0x8000000080008080
    z = (seed * 0x9E3779B97F4A7C15 + (leaf + 1) * 0xD1B54A32D192ED03) & M64
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return z ^ (z >> 31)


def message(ln, seed):
    return "".join(ALPHABET[mix(seed, k) % 20] for k in range(ln))


PROFILE = dict(expect=30, call=30, check=3, init=2, order=0, stack=0, arr=2, str=1, excess=1, rec=4, builtin=4, null=3, out=2, n_ops=(2, 30),
               mismatch=3, order_on=True, deep=40, in_order=0, same_args=2)


class HistGen:
    """Draws a history. Tracks just enough of the model to prefer sensible operations."""
    def __init__(self, src, mocks, prof):
        self.s, self.m = src, mocks
        self.p = dict(PROFILE)
        self.p.update(prof)
        if getattr(mocks, "huge", False):
            self.p["deep"] = 0
        self.slot = 0
        self.present = set(range(len(mocks.headers)))
        self.reset()

    def reset(self):
        self.pend = {}      # (g,f) -> list of expect ops pending
        self.n_exp = {}
        self.spoiled = set()
        self.fifo = []

    def new_slot(self):
        self.slot += 1
        return self.slot - 1

    def seed(self):
        return self.s.weighted([(6, None), (1, 0), (1, 1), (1, 2), (1, 3)]) if False else self.s.choice([4, 5, 6, 7, 0, 1, 2, 3, 8, 9, 10, 11]) if self.s.bool(3, 4) else self.s.int(12, 100000)

    def gen_arg(self, p, prev=None):
        s = self.s
        if p.kind in ("str", "bytes", "obj"):
            if prev is not None and s.bool(1, 3):
                return prev
            return (self.new_slot(), self.seed() if prev is None or not s.bool() else prev[1])
        return (self.seed(),) if prev is None or s.bool(1, 2) else prev

    def expect(self, g, f):
        s, prof = self.s, self.p
        fi = self.m.infos[g][f]
        args, mts = [], []
        for p in fi.params:
            k = s.weighted([(prof["null"], "null"), (prof["rec"], "rec"), (prof["builtin"], "builtin")])
            if k == "builtin" and len(p.matchers) > 2:
                mts.append(s.int(2, len(p.matchers) - 1))
            else:
                mts.append(0 if k == "null" else 1)
            a = self.gen_arg(p)
            if p.kind in ("str", "bytes", "obj") and (p.matchers[mts[-1]] in (None, "rec", "cmp_pointer")) and s.bool(1, 6):
                a = (-1, 0)
            args.append(a)
        with_out, outs = False, [None] * len(fi.params)
        if fi.has_out:
            with_out = s.bool(prof["out"], prof["out"] + 2)
            for j, p in enumerate(fi.params):
                if p.out is None:
                    continue
                x = (-1, 0, 0)
                if with_out and p.kind in ("str", "bytes", "obj") and s.bool(2, 3):
                    x = (self.new_slot(), self.seed(), s.int(0, BYTES_N) if p.kind == "bytes" else (8 if p.out else 0))
                    if p.kind == "bytes" and prof.get("big") and s.bool(1, prof["big"]):
                        sd = BIG + s.int(0, 16383)
                        x = (x[0], sd, s.choice([bytes_size(sd), bytes_size(sd), s.int(0, bytes_size(sd))]))
                outs[j] = x
        op = Op("expect", g=g, f=f, args=args, ret=self.seed(), matchers=mts, with_out=with_out, outs=outs)
        self.pend.setdefault((g, f), []).append(op)
        self.n_exp[(g, f)] = self.n_exp.get((g, f), 0) + 1
        self.fifo.append((g, f))
        return op

    def call(self, g, f):
        s, prof = self.s, self.p
        fi = self.m.infos[g][f]
        q = self.pend.get((g, f), [])
        e = q.pop(0) if q else None
        if e is None:
            self.spoiled.add((g, f))
        elif self.fifo:
            self.fifo.pop(0)
        args, recs = [], []
        for j, p in enumerate(fi.params):
            a = None
            if e is not None:
                same = s.bool(prof["same_args"], prof["same_args"] + 1)
                a = self.gen_arg(p, e.args[j] if e.args[j][0] != -1 or p.kind not in ("str", "bytes", "obj") else None) if same else self.gen_arg(p)
                m = p.matchers[e.matchers[j]]
                needs = m not in (None, "rec", "cmp_pointer") or (e.with_out and e.outs[j] is not None and e.outs[j][0] >= 0)
                if p.kind in ("str", "bytes", "obj") and not needs and s.bool(1, 8):
                    a = (-1, 0)
                if p.kind in ("str", "bytes", "obj") and needs and a[0] == -1:
                    a = (self.new_slot(), self.seed())
                if p.kind == "bytes" and e.with_out and e.outs[j] is not None and e.outs[j][0] >= 0 and e.outs[j][2] > bytes_size(a[1]):
                    a = (self.new_slot(), e.outs[j][1] + 16384 * s.int(1, 9))      # the same size, other contents
                if m == "rec":
                    if s.bool(prof["mismatch"], 10):
                        recs.append((s.choice([-1, 1, 7, -100]), s.weighted([(6, s.int(0, 60)), (1, 255), (1, s.int(0, 255))]), s.int(4, 1000)))
                    else:
                        recs.append((0, s.choice([0, 0, 5]), s.int(4, 1000)))
                else:
                    recs.append((0, 0, 4))
            else:
                a = self.gen_arg(p)
                recs.append((0, 0, 4))
            args.append(a)
        return Op("call", g=g, f=f, args=args, recs=recs, exp=e)

    def pick(self):
        g = self.s.choice(sorted(self.present))
        return g, self.s.draw(len(self.m.infos[g]))

    def gen(self, ops=None, n=None):
        s, prof = self.s, self.p
        out = [] if ops is None else ops
        n = n if n is not None else s.int(*prof["n_ops"])
        for _ in range(n):
            pending = sorted(k for k, v in self.pend.items() if v and k[0] in self.present)
            kinds = [(prof["expect"], "expect")]
            if pending:
                kinds.append((prof["call"], "call"))
            for k in ("excess", "check", "init", "order", "stack", "arr", "str"):
                if prof[k]:
                    kinds.append((prof[k], k))
            k = s.weighted(kinds)
            if k == "expect":
                g, f = self.pick()
                if (g, f) in self.spoiled or self.n_exp.get((g, f), 0) >= 256:
                    continue
                if prof["deep"] and s.bool(1, prof["deep"] * 10):
                    room = 256 - self.n_exp.get((g, f), 0)
                    for _ in range(s.choice([room, room, min(room, 40)])):
                        out.append(self.expect(g, f))
                else:
                    out.append(self.expect(g, f))
            elif k == "call":
                nxt = [x for x in self.fifo if x in pending]
                if nxt and s.bool(prof["in_order"], prof["in_order"] + 1):
                    out.append(self.call(*nxt[0]))
                else:
                    out.append(self.call(*s.choice(pending)))
            elif k == "excess":
                g, f = self.pick()
                if not self.pend.get((g, f)):
                    # now and then very many, always with the same arguments
                    for _ in range(s.choice([20, 130, 258, 520, 1030]) if prof["deep"] and s.bool(1, prof.get("burst", prof["deep"] * 10)) else 1):
                        out.append(self.call(g, f) if not out or out[-1].kind != "call" or (out[-1].g, out[-1].f) != (g, f) or self.pend.get((g, f)) or out[-1].exp is not None
                                   else out[-1])
            elif k == "init":
                out += [Op("init")] * (s.choice([2, 20, 130, 300]) if prof["deep"] and s.bool(1, prof["deep"] * 4) else 1)
                self.reset()
            elif k in ("order", "stack"):
                out.append(Op(k, val=int(s.bool())))
            else:
                out.append(Op(k))
        return out

    def drain(self, out, in_order):
        """Calls everything still expected."""
        while True:
            pending = sorted(k for k, v in self.pend.items() if v and k[0] in self.present)
            if not pending:
                return
            nxt = [x for x in self.fifo if x in pending]
            if in_order and nxt:
                out.append(self.call(*nxt[0]))
            else:
                out.append(self.call(*self.s.choice(pending)))


# ------------------------------------------------------------------ reference model and judge
class Mismatch(Exception):
    def __init__(self, aspect, detail):
        self.aspect, self.detail = aspect, detail


def classify(text):
    if "expecting call to" in text:
        return "order"
    if "unexpected call" in text:
        return "unexp"
    if "bad number of call" in text:
        return "count"
    if re.search(r"\bat call\b", text):
        return "match"
    return "other"


def has_word(name, text):
    return re.search(r"(?<!\w)%s(?!\w)" % re.escape(name), text) is not None


def unhex(tok):
    return None if tok == "null" else bytes.fromhex(tok[1:])


class Model:
    def __init__(self, mocks, default_order=True):
        self.m = mocks
        self.order, self.stack = default_order, True
        self.present = set(range(len(mocks.headers))) if not mocks.dl else set()
        self.stats = {}
        self.slots = {}
        self.reset()

    def reset(self):
        self.exp, self.act, self.fifo = {}, {}, []
        self.errors = []          # (category, data...)
        self.real_errors = None

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def fi(self, k):
        return self.m.infos[k[0]][k[1]]

    def judge(self, ops, lines, died, stderr):
        """Yields the mismatches as (aspect, detail)."""
        out = []
        it = iter(lines)
        if died:
            det = [l for l in stderr.splitlines() if "ERROR" in l or "runtime error" in l or "#1 " in l][:6]
            out.append(("crash", died + " " + " | ".join(det)[:1200]))
        try:
            for i, op in enumerate(ops):
                self.step(op, it, out, "op %d (%s)" % (i, self.show(op)))
                if out and len(out) > 20:
                    break
        except StopIteration:
            if not died:
                out.append(("crash", "output ends early"))
        return out

    def show(self, op):
        if op.kind in ("expect", "call"):
            return "%s %s" % (op.kind, self.m.infos[op.g][op.f].name)
        return repr(op)

    def take(self, it, tag):
        l = next(it)
        while l[:1] in ("N", "W") and l[1:2] == " " and tag != l[0]:
            self.note(l)
            l = next(it)
        if l.split(" ", 1)[0] != tag:
            raise StopIteration
        return l

    def note(self, l):
        k, i, hx = l.split(" ")
        b = b"" if hx == "-" else bytes.fromhex(hx)
        if k == "N":
            self.slots[int(i)] = b
        else:
            self.pending_w[int(i)] = b

    def step(self, op, it, out, where):
        k = op.kind
        if k == "expect":
            self.take(it, "E")
            v = self.take(it, "V").split(" ")[1:]
            fi = self.m.infos[op.g][op.f]
            e = {"op": op, "args": v[:-1], "ret": v[-1]}
            key = (op.g, op.f)
            self.exp.setdefault(key, []).append(e)
            self.fifo.append(key)
            self.stat("expect")
        elif k == "call":
            self.call(op, it, out, where)
        elif k == "check":
            v = int(self.take(it, "K").split()[1])
            had = len(self.errors)
            cnt = []
            for g in sorted(self.present):
                for f, fi in enumerate(self.m.infos[g]):
                    ne, na = len(self.exp.get((g, f), [])), self.act.get((g, f), 0)
                    if ne != na:
                        cnt.append(("count", fi.name, ne, na))
            want = 0 if (cnt or had) else 1
            self.errors.append(("check", cnt))
            if not cnt:
                self.errors.pop()
            if v != want:
                out.append(("verdict", "%s: easyMock_check returned %d, expected %d (%d earlier errors, count mismatches: %s)" % (where, v, want, had, cnt)))
            self.stat("verdict%d" % want)
            if cnt:
                self.stat("count_err", len(cnt))
        elif k == "init":
            self.take(it, "I")
            self.reset()
        elif k in ("order", "stack"):
            self.take(it, "O" if k == "order" else "P")
            setattr(self, k, bool(op.val))
        elif k == "arr":
            l = self.take(it, "A").split(" ")
            n, nonnull = int(l[1]), l[2] == "1"
            strs = [unhex(x) for x in l[3:] if x not in ("T", "U")]
            self.judge_errors(n, nonnull, strs, l[-1], out, where)
        elif k == "str":
            s = unhex(self.take(it, "S").split(" ")[1])
            self.judge_str(s, out, where)
        elif k == "load":
            self.take(it, "L")
            self.present.add(op.g)
        elif k == "unload":
            self.take(it, "U")
            self.present.discard(op.g)
            for key in [x for x in self.exp if x[0] == op.g]:
                del self.exp[key]
            for key in [x for x in self.act if x[0] == op.g]:
                del self.act[key]
        elif k == "exit":
            self.take(it, "X")
        elif k == "bytes":
            self.bytes = int(self.take(it, "B").split()[1])
        elif k == "switches":
            l = self.take(it, "Q").split()
            if int(l[1] != "0") != int(self.order) or int(l[2] != "0") != int(self.stack):
                out.append(("switches", "%s: order/stack switches are %s %s, expected %d %d" % (where, l[1], l[2], self.order, self.stack)))

    def call(self, op, it, out, where):
        key = (op.g, op.f)
        fi = self.fi(key)
        self.pending_w = {}
        self.take(it, "C")
        args = self.take(it, "V").split(" ")[1:]
        recs, ret = [], None
        while ret is None:
            l = next(it)
            if l.startswith("R "):
                recs.append(l.split(" ", 4)[1:])
            elif l.startswith("T "):
                ret = l.split(" ")[1]
            elif l[:2] in ("N ", "W "):
                self.note(l)
            else:
                raise StopIteration
        # slot changes follow the call
        self.peeked = None
        n = self.act.get(key, 0) + 1
        self.act[key] = n
        es = self.exp.get(key, [])
        self.stat("call")
        want_w = {}
        if n > len(es):
            self.errors.append(("unexp", fi.name))
            self.stat("unexp")
            if recs:
                out.append(("seen", "%s: a matcher ran for an unexpected call" % where))
        else:
            e = es[n - 1]
            eo = e["op"]
            if ret != e["ret"]:
                out.append(("ret", "%s: call %d returned %s, its expectation configured %s" % (where, n, ret, e["ret"])))
            want_recs = []
            for j, p in enumerate(fi.params):
                m = p.matchers[eo.matchers[j]]
                if m is None:
                    continue
                if m == "rec":
                    want_recs.append([str(j), args[j], e["args"][j], p.name])
                    r = op.recs[j]
                    self.stat("matcher")
                    if r[0]:
                        self.stat("mismatch")
                        self.errors.append(("match", fi.name, n, message(r[1], r[2])))
                else:
                    self.stat("builtin")
                    if m.startswith("cmp_deref_ptr_") or m == "cmp_str":
                        a, b = self.content(op.args[j]), self.content(eo.args[j])
                        if m == "cmp_str":
                            eq = a.split(b"\0")[0] == b.split(b"\0")[0]
                        elif m == "cmp_deref_ptr_char" or p.kind == "str":
                            eq = a[:1] == b[:1]
                        else:
                            eq = (a[:10] == b[:10]) if p.ldbl else a == b
                    else:
                        eq = args[j] == e["args"][j]
                    if not eq:
                        self.stat("mismatch")
                        self.errors.append(("match", fi.name, n, None))
            got = [[r[0], r[1], r[2], w[3] if w[3] is None else r[3]] for r, w in zip(recs, want_recs)]
            if len(recs) != len(want_recs) or got != want_recs:
                out.append(("seen", "%s: matchers saw (parameter, call value, expected value, name) %s, expected %s" % (where, recs, want_recs)))
            front = self.fifo.pop(0) if self.fifo else key
            if self.order and front != key and self.fi(front) is not self.fi(key):
                self.errors.append(("order", fi.name, self.fi(front).name))
                self.stat("order_err")
            else:
                if self.order:
                    self.stat("in_order")
                if eo.with_out:
                    for j, p in enumerate(fi.params):
                        x = eo.outs[j]
                        if x is None or x[0] < 0:
                            continue
                        src = self.slots[x[0]]
                        cnt = x[2] if p.out else (1 if p.kind == "str" else len(src))
                        tgt = op.args[j][0]
                        old = want_w.get(tgt, self.slots[tgt])
                        want_w[tgt] = src[:cnt] + old[cnt:]
                        self.stat("output")
                        if cnt > 65535:
                            self.stat("output_over_64k")
            if eo.with_out is False and any(p.out is not None for p in fi.params):
                self.stat("no_output")
        self.finish = (want_w, where)
        # the W lines of this call come before the next op's first line
        self.drain_w(it, out)

    def drain_w(self, it, out):
        want_w, where = self.finish
        want_w = {k: v for k, v in want_w.items() if v != self.slots[k]}
        # W lines are read lazily: push back is not possible on an iterator, so peek through a wrapper
        while True:
            l = it.peek()
            if l is None or not l.startswith("W "):
                break
            next(it)
            self.note(l)
        got = self.pending_w
        if got != want_w:
            d = lambda w: {k: v.hex() for k, v in w.items()}
            out.append(("out", "%s: memory written through pointers %s, expected %s (slot: bytes after the call)" % (where, d(got), d(want_w))))
        self.slots.update(got)
        self.pending_w = {}

    def content(self, a):
        return self.slots[a[0]]

    # ---- errors
    def expected_errors(self):
        flat = []
        for e in self.errors:
            if e[0] == "check":
                flat += e[1]
            else:
                flat.append(e)
        return flat

    def judge_errors(self, n, nonnull, strs, end, out, where):
        if n != len(strs) or nonnull != (n > 0) or (n and end != "T"):
            out.append(("array", "%s: error array: size %d, %s, %d strings, terminated: %s" % (where, n, "non-null" if nonnull else "null", len(strs), end)))
        texts = [s.decode("latin1") if s is not None else "" for s in strs]
        self.last_texts = texts
        want = self.expected_errors()
        by = {}
        for t in texts:
            by.setdefault(classify(t), []).append(t)
        wby = {}
        for w in want:
            wby.setdefault(w[0], []).append(w)
        if by.get("other"):
            out.append(("other", "%s: an error of no known kind: %r" % (where, by["other"][0][:300])))
        for cat in ("unexp", "order", "match"):
            g, w = by.get(cat, []), wby.get(cat, [])
            bad = None
            if len(g) != len(w):
                bad = "%d errors, expected %d: %s / expected %s" % (len(g), len(w), [x[:160] for x in g][:6], w[:6])
            else:
                for a, b in zip(g, w):
                    if not self.fits(cat, a, b):
                        bad = "error %r does not report %s" % (a[:700], b)
                        break
            if bad:
                out.append((cat, "%s: %s" % (where, bad)))
        g, w = list(by.get("count", [])), wby.get("count", [])
        left = list(w)
        for a in g:
            for b in left:
                if self.fits("count", a, b):
                    left.remove(b)
                    break
            else:
                out.append(("count", "%s: error %r reports none of %s" % (where, a[:300], left[:6])))
                left = []
                break
        if left:
            out.append(("count", "%s: no error for %s among %s" % (where, left[:4], [x[:160] for x in g][:6])))
        # order of the report
        if len(texts) == len(want) and [classify(t) for t in texts] != [x[0] for x in want]:
            out.append(("sequence", "%s: errors are not in report order: %s, expected %s" % (where, [classify(t) for t in texts], [x[0] for x in want])))
        elif len(texts) != len(want):
            out.append(("sequence", "%s: %d errors in the array, %d reported" % (where, len(texts), len(want))))

    def fits(self, cat, text, w):
        head = text
        if cat == "unexp":
            return has_word(w[1], head)
        if cat == "order":
            i = head.find("expecting call")
            return has_word(w[1], head[:i]) and has_word(w[2], head[i:])
        if cat == "count":
            if not has_word(w[1], head):
                return False
            i = head.rfind("'")
            return [int(x) for x in re.findall(r"\b\d+\b", head[i:])][:2] == [w[2], w[3]]
        if not has_word(w[1], head):
            return False
        i = head.find("at call")
        nums = re.findall(r"\d+", head[i:i + 30])
        if not nums or int(nums[0]) != w[2]:
            return False
        return w[3] is None or w[3] in head

    def judge_str(self, s, out, where):
        want = self.expected_errors()
        if (s is None) != (not want):
            out.append(("string", "%s: error string %r with %d errors reported" % (where, s and s[:200], len(want))))
            return
        self.last_str = s


class Peek:
    def __init__(self, lines):
        self.l, self.i = lines, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.l):
            raise StopIteration
        self.i += 1
        return self.l[self.i - 1]

    def peek(self):
        return self.l[self.i] if self.i < len(self.l) else None


def judge(model, ops, res):
    lines, died, stderr = res
    it = Peek([l for l in lines if l != "END"])
    out = []
    if died:
        det = [l for l in stderr.splitlines() if "ERROR" in l or "runtime error" in l or "exit" in l.lower()][:4]
        out.append(("crash", died + " " + " | ".join(det)[:1500]))
    i = -1
    try:
        for i, op in enumerate(ops):
            model.pending_w = {}
            model.step(op, it, out, "op %d (%s)" % (i, model.show(op)))
            while it.peek() is not None and it.peek()[:2] in ("N ", "W "):
                l = next(it)
                model.note(l)
                if l.startswith("W "):
                    out.append(("out", "op %d (%s) changed memory: %s" % (i, model.show(op), l)))
            if len(out) > 12:
                break
    except StopIteration:
        if not died:
            out.append(("crash", "output ends early at op %d" % i))
    return out


def shared(variant="asan"):
    return {"gen": build.generator("plain"), "fw": build.framework(variant),
            "core": build.obj("rt_core.o", os.path.join(build.VERIF, "harness", "rt_core.c"), "gcc", INC + ["-w", "-fPIC"] + build.VARIANTS[variant])}
