"""C10 (the mock of a C header compiles, links and has the original signatures), C11 (generated types are those of the header)."""
import os, re, subprocess
from . import build, hgen, tool
from .hgen import *
from .pbt import Violation, Inconclusive
from .rt import base, parse_api

# features that hit recorded findings are off; see DESIGN.md
FEAT = dict(clash=True, ws=True, mdecl=True, tmacro=True, api=True, ienum=True, irecptr=True, fparam=True, aparam=True, bigenum=True, cpost=True, kr=True,
            mfun=True, arrtd_param=False, arrtd=False, macro2=True, multidim=False)
WERR = ["-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-Werror=implicit-function-declaration", "-Werror=return-type"]
GCC = ["gcc", "-w"] + WERR
CLANG = ["clang", "-w"] + WERR


def shared():
    return {"gen": build.generator("plain"), "fw": build.framework("plain")}


def params_sig(ps):
    """Parameter types of a configuration function, without names."""
    return [cdecl(t) for t in ps]


def valid(path, both=True):
    for c in (["gcc"], ["clang"])[:2 if both else 1]:
        p = tool.cc(c + ["-w", "-xc", "-fsyntax-only", path])
        if p.returncode:
            raise Inconclusive("the header is not valid C: " + tool.first_error(p.stderr))


def out_rule(t):
    """True: the output variant has an argument for a parameter of this type; "size": with a size; False: it has none; None: not specified."""
    x = t
    while isinstance(x, Const):
        x = x.t
    if isinstance(x, Typedef):
        if x.decl == "va":
            return False
        return None if isinstance(strip(x), (Ptr, Arr)) else False
    if isinstance(x, Arr):
        x = Ptr(x.t)
    if not isinstance(x, Ptr):
        return False
    p, const = x.t, False
    while isinstance(p, (Typedef, Const)) or (isinstance(p, Ptr) and p.q):
        if isinstance(p, (Const, Ptr)):
            const = True
        if isinstance(p, Ptr):
            break
        p = p.t
    if isinstance(p, Fun):
        return False
    if isinstance(p, (Ptr, Arr)):
        return None
    if const:
        return False
    r = rec_of(p)
    return "size" if isinstance(p, Void) or (r is not None and r.fields is None) else True


def api_checks(fn, mock_h):
    """C lines asserting the types of fn and of its configuration functions."""
    ps = [t for _, t in fn.params]
    args = [cdecl(t) for t in ps]
    void = isinstance(strip(fn.ret), Void)
    ret = [] if void else [cdecl(fn.ret)]
    match = ["EasyMock_Matcher"] * len(ps)
    out = ["SAME(%s, %s);" % (fn.name, cdecl(Fun(fn.ret, [(None, t) for t in ps], fn.variadic)))]
    out.append("SAME(%s_ExpectAndReturn, void (%s));" % (fn.name, ", ".join(args + ret + match) or "void"))
    names, outs, has = parse_api(mock_h, fn)
    if len(names) != len(ps):
        raise Violation("api", "%s has %d parameters but %d matchers" % (fn.name, len(ps), len(names)))
    want, oargs = False, []
    for (pn, t), gn in zip(fn.params, names):
        if pn and pn != gn:
            raise Violation("api", "parameter %s of %s is called %s in the mock" % (pn, fn.name, gn))
        r = out_rule(t)
        if r is None:
            r = False if gn not in outs else ("size" if outs[gn] else True)
        if r:
            want = True
            x = strip(base(t))
            oargs.append(cdecl(base(t)))
            if r == "size":
                oargs.append("easyMock_size_t")
    if want != has:
        raise Violation("api", "%s_ExpectReturnAndOutput is %s" % (fn.name, "missing" if want else "offered although no parameter points to non-const data"))
    if want:
        out.append("SAME(%s_ExpectReturnAndOutput, void (%s));" % (fn.name, ", ".join(args + ret + match + oargs)))
    return out


def c10(src, ctx):
    w = ctx.work
    types = src.bool(1, 4)
    g = hgen.Gen(src, FEAT)
    h = g.header("hdr.h")
    text = h.text()
    files = {"in/hdr.h": text}
    os.makedirs(w + "/out")
    tool.write(w + "/in/hdr.h", text)
    opts = ["--generate-types"] if types else []
    try:
        p = tool.run(ctx.shared["gen"], ["-i", w + "/in/hdr.h", "-o", w + "/out"] + opts)
        if p.returncode:
            raise Violation("generator", "exit status %d: %s" % (p.returncode, tool.err_tail(p)))
        cc = CLANG if src.bool(1, 5) else GCC
        inc = ["-I" + w + "/out", FWI] + ([] if types else ["-I" + w + "/in"])
        p = tool.cc(cc + ["-c", w + "/out/easyMock_hdr.c", "-o", w + "/m.o"] + inc)
        if p.returncode:
            raise Violation("mock-compile", "%s: %s" % (cc[0], tool.first_error(p.stderr)))
        got = {n for n, k in tool.globals_of(w + "/m.o").items() if k == "T"}
        for f in h.funcs:
            if f.name not in got:
                raise Violation("undefined", "the mock does not define %s" % f.name)
        mock_h = tool.read(w + "/out/easyMock_hdr.h")
        u = '#include "easyMock_hdr.h"\n#include <easyMock_framework.h>\n#include <stdarg.h>\n'
        u = '#include <stdarg.h>\n#include "easyMock_hdr.h"\n#define SAME(f, ...) _Static_assert(__builtin_types_compatible_p(__typeof__(f), __VA_ARGS__), #f)\n'
        for f in h.funcs:
            u += "\n".join(api_checks(f, mock_h)) + "\n"
        u += "typedef void (*anyfn)(void);\nanyfn volatile all[] = {%s};\n" % ", ".join("(anyfn)%s, (anyfn)%s_ExpectAndReturn" % (f.name, f.name) for f in h.funcs)
        u += "int main(void) { easyMock_init(); return easyMock_check() == 1 && all[0] ? 0 : 1; }\n"
        tool.write(w + "/user.c", u)
        p = tool.cc(["gcc", "-w", w + "/user.c", w + "/m.o", "-o", w + "/user", "-L" + os.path.dirname(ctx.shared["fw"]), "-lEasyMockFramework",
                     "-Wl,-rpath," + os.path.dirname(ctx.shared["fw"])] + inc)
        if p.returncode:
            raise Violation("signature", tool.first_error(p.stderr))
        p = subprocess.run([w + "/user"], capture_output=True, text=True, errors="replace", timeout=20)
        if p.returncode:
            raise Violation("run", "a program that expects and calls nothing fails its check: status %d" % p.returncode)
    except Violation as v:
        valid(w + "/in/hdr.h")
        v.files.update(files)
        raise
    for f in h.funcs:
        ctx.count()
        if len(f.params) > 1 and any(not isinstance(t, Scalar) for _, t in f.params):
            ctx.hit(f.proto())
    ctx.label("types" if types else "original")
    ctx.label("clang" if cc is CLANG else "gcc")
    ctx.label("functions", len(h.funcs))
    if ctx.sample is None and len(h.chunks) > 4:
        ctx.sample = {"header": text[:1500], "options": opts}


# ------------------------------------------------------------------ C11
class Reach:
    """What a header's functions use."""
    def __init__(self, funcs):
        self.recs, self.rnames, self.enums, self.enames, self.tds = [], [], [], [], []
        for f in funcs:
            self.t(f.ret)
            for _, p in f.params:
                self.t(p)

    def typee(self, td):
        '''A typedef may be generated directly on top of what it stands for: the typedefs between need not exist.'''
        x = td.t
        while isinstance(x, (Typedef, Const)):
            x = x.t
        if isinstance(x, RecRef):
            if x.rec.tag:
                self.t(RecRef(x.rec, False))
            else:
                self.rnames.append((td.name, x.rec))
                self.rec(x.rec)
        elif isinstance(x, Enum) and not x.tag:
            self.enum(x, td.name)
        elif isinstance(x, Enum):
            self.enum(x, "enum " + x.tag)
        else:
            self.t(x)

    def rec(self, r):
        if r not in self.recs:
            self.recs.append(r)
            for f in r.fields or []:
                self.t(f.t)

    def enum(self, t, n):
        e = getattr(t, "orig", t)
        if n not in self.enames:
            self.enames.append(n)
        if e not in self.enums:
            self.enums.append(e)

    def t(self, t):
        if isinstance(t, (Const, Ptr, Arr)):
            self.t(t.t)
        elif isinstance(t, Fun):
            self.t(t.ret)
            for _, p in t.params:
                self.t(p)
        elif isinstance(t, Typedef):
            if t not in self.tds and t.decl != "va":
                self.tds.append(t)
                self.typee(t)
        elif isinstance(t, Enum):
            if not t.inline:
                self.enum(t, cdecl(t))
        elif isinstance(t, RecRef):
            n = cdecl(t)
            if n not in [x for x, _ in self.rnames]:
                self.rnames.append((n, t.rec))
            self.rec(t.rec)
        elif isinstance(t, Rec):
            for f in t.fields or []:
                self.t(f.t)


def canonical(t):
    '''t without the typedefs it is spelled with (not those of what it points to); None if that has no name.'''
    if isinstance(t, Const):
        x = canonical(t.t)
        return None if x is None else x if isinstance(x, Const) else Const(x)
    if isinstance(t, Typedef):
        return canonical(t.t)
    if isinstance(t, RecRef):
        return RecRef(t.rec, False) if t.rec.tag else None
    if isinstance(t, Enum):
        return Enum(t.tag, None, t.items) if t.tag else None
    return t


def probe_fields(rec, name, path, lines, k):
    for f in rec.fields:
        if f.bits is not None:
            if f.name is None:
                continue
            p = path + f.name
            lines.append('{ %s x_; memset(&x_, 0, sizeof x_); x_.%s = -1; printf("%s.%s bits:"); dump(&x_, sizeof x_); printf(" sign %%d\\n", x_.%s < 0); }'
                         % (name, p, name, p, p))
            continue
        t, sub = f.t, path + (f.name or "")
        if f.name:
            lines.append('printf("%s.%s offset %%zu size %%zu\\n", __builtin_offsetof(%s, %s), sizeof(((%s *)0)->%s));' % (name, sub, name, sub, name, sub))
        idx = ""
        while isinstance(t, Arr):
            t, idx = t.t, idx + "[0]"
        if isinstance(t, Rec) and t.inline:
            if f.name and idx:
                lines.append('printf("%s.%s%s size %%zu\\n", sizeof(((%s *)0)->%s%s));' % (name, sub, idx, name, sub, idx))
            probe_fields(t, name, sub + idx + "." if f.name else path, lines, k)
        elif isinstance(t, Enum) and t.inline:
            for i, _ in t.items:
                lines.append('printf("%s = %%lld\\n", (long long)%s);' % (i, i))
        elif isinstance(t, Ptr) and isinstance(t.t, Rec) and t.t.inline:
            lines.append('printf("%s.%s target %%zu\\n", sizeof(*((%s *)0)->%s%s));' % (name, sub, name, sub, idx))
            for x in t.t.fields:
                if x.name and x.bits is None:
                    lines.append('printf("%s.%s->%s %%zu size %%zu\\n", __builtin_offsetof(__typeof__(*((%s *)0)->%s%s), %s), sizeof ((%s *)0)->%s%s->%s);'
                                 % (name, sub, x.name, name, sub, idx, x.name, name, sub, idx, x.name))
        elif f.name:
            lines.append('printf("%s.%s type %%d\\n", COMPAT(__typeof__(&((%s *)0)->%s), %s));' % (name, sub, name, sub, cdecl(Ptr(f.t))))


def probe_source(h, include):
    r = Reach(h.funcs)
    lines = []
    for n, rec in r.rnames:
        if rec.fields is None:
            lines.append('printf("%s usable %%d\\n", sizeof(%s *) > 0);' % (n, n))
            continue
        lines.append('printf("%s size %%zu align %%zu\\n", sizeof(%s), _Alignof(%s));' % (n, n, n))
        probe_fields(rec, n, "", lines, 0)
    for n in r.enames:
        lines.append('printf("%s size %%zu sign %%d\\n", sizeof(%s), (%s)-1 < 0);' % (n, n, n))
    for e in r.enums:
        for i, _ in e.items:
            lines.append('printf("%s = %%lld %%zu\\n", (long long)%s, sizeof(%s));' % (i, i, i))
    for td in r.tds:
        want = canonical(td.t)
        if want is None:
            continue
        want = cdecl(Ptr(want))
        lines.append('printf("%s type %%d\\n", COMPAT(%s *, %s));' % (td.name, td.name, want))
    for f in h.funcs:
        lines.append('printf("%s type %%d\\n", COMPAT(__typeof__(%s), %s));' % (f.name, f.name, cdecl(Fun(f.ret, [(None, t) for _, t in f.params], f.variadic))))
    src = '#include "%s"\n' % include
    # no other header: it has to be self-contained, and the macros of the system headers it defines are not the issue
    body = src + '#define printf __builtin_printf\n#define memset __builtin_memset\n#define putchar __builtin_putchar\n#define COMPAT(...) __builtin_types_compatible_p(__VA_ARGS__)\n'
    body += 'static void dump(const void *p, unsigned long n) { const unsigned char *c = p; while(n--) printf("%02x", *c++); }\n'
    body += "int main(void)\n{\n" + "\n".join(lines) + "\nreturn 0;\n}\n"
    return body, r, len(lines)


TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\.?[0-9](?:[eEpP][+-]|[\w.])*|\w+|\S')


def macro_probe(h, include):
    out = '#include "%s"\n' % include
    for n, k in h.macros:
        out += "#ifdef %s\n" % n
        uses = {"fun": ["%s(A_, B_ + 1)", "%s((1, 2), f(3))", "%s"], "fun0": ["%s()", "%s"], "var": ["%s(A_)", "%s(A_, 1, 2)", "%s"], "gnuvar": ["%s(A_, 1, 2)", "%s(A_)"],
                "paste": ["%s(AA, 1)"], "str1": ['%s(a "b")']}.get(k, ["%s"])
        for i, u in enumerate(uses):
            out += "@@ %s %d @ %s\n" % ("n_" + n[-3:], i, u % n)
        out += "#else\n@@ %s undefined\n#endif\n" % ("n_" + n[-3:])
    return out


def expansions(path, inc):
    p = tool.cc(["gcc", "-E", "-P", "-xc", path] + inc)
    if p.returncode:
        raise Violation("macro-preprocess", tool.first_error(p.stderr))
    text = p.stdout
    text = text[text.find("@@"):] if "@@" in text else ""
    return [TOK.findall(x) for x in text.split("@@")[1:]]


def c11(src, ctx):
    w = ctx.work
    g = hgen.Gen(src, FEAT)
    h = g.header("hdr.h")
    text = h.text()
    files = {"in/hdr.h": text}
    os.makedirs(w + "/out")
    if src.bool(1, 4) and len(h.chunks) > 2:
        # part of the header comes from a header it includes
        cut = src.int(1, len(h.chunks) - 1)
        moved = [c for c in h.chunks[:cut]]
        if not any(f.name + "(" in c for c in moved for f in h.funcs):
            inc = hgen.Header("inc.h")
            inc.chunks, inc.includes = moved, h.includes
            h.chunks = h.chunks[cut:]
            h.includes = h.includes + ['"inc.h"']
            tool.write(w + "/in/inc.h", inc.text())
            files["in/inc.h"] = inc.text()
            text = files["in/hdr.h"] = h.text()
            ctx.label("split")
    tool.write(w + "/in/hdr.h", text)
    try:
        p = tool.run(ctx.shared["gen"], ["-i", w + "/in/hdr.h", "-o", w + "/out", "--generate-types"])
        if p.returncode:
            raise Violation("generator", "exit status %d: %s" % (p.returncode, tool.err_tail(p)))
        ia, ib = ["-I" + w + "/in"], ["-I" + w + "/out", FWI]
        a, r, n = probe_source(h, "hdr.h")
        b, _, _ = probe_source(h, "easyMock_hdr.h")
        tool.write(w + "/a.c", a)
        tool.write(w + "/b.c", b)
        cc = "clang" if src.bool(1, 8) else "gcc"
        pa = tool.cc([cc, "-w", w + "/a.c", "-o", w + "/a"] + ia + ["-Wl,--unresolved-symbols=ignore-all"])
        if pa.returncode:
            raise Inconclusive("probe of the original header: " + tool.first_error(pa.stderr))
        pb = tool.cc([cc, "-w", w + "/b.c", "-o", w + "/b"] + ib + ["-Wl,--unresolved-symbols=ignore-all"])
        if pb.returncode:
            raise Violation("types-compile", tool.first_error(pb.stderr))
        oa = subprocess.run([w + "/a"], capture_output=True, text=True).stdout.splitlines()
        ob = subprocess.run([w + "/b"], capture_output=True, text=True).stdout.splitlines()
        if any(x.endswith(" type 0") for x in oa) or len(oa) != n:
            raise Inconclusive("the probe misdescribes the original header: %s" % [x for x in oa if x.endswith(" type 0")][:2])
        for x, y in zip(oa, ob):
            if x != y:
                raise Violation("abi", "original header: '%s'; generated types: '%s'" % (x, y))
        if len(oa) != len(ob):
            raise Violation("abi", "the probe printed %d lines with the original header and %d with the generated types" % (len(oa), len(ob)))
        if h.macros:
            tool.write(w + "/ma.c", macro_probe(h, "hdr.h"))
            tool.write(w + "/mb.c", macro_probe(h, "easyMock_hdr.h"))
            for x, y in zip(expansions(w + "/ma.c", ia), expansions(w + "/mb.c", ib)):
                ctx.count()
                if x != y:
                    raise Violation("macro", "original header: '%s'; generated header: '%s'" % (" ".join(x), " ".join(y)))
            ctx.label("macros", len(h.macros))
    except Violation as v:
        valid(w + "/in/hdr.h")
        v.files.update(files)
        raise
    ctx.count(n)
    for rec in r.recs:
        if rec.fields:
            ctx.hit(render_rec_body(rec))
    for e in r.enums:
        ctx.hit([(b) for a, b in e.items])
    ctx.label("records", len(r.recs))
    ctx.label("enums", len(r.enums))
    ctx.label("typedefs", len(r.tds))
    ctx.label("lines", n)
    if ctx.sample is None and len(r.recs) > 1:
        ctx.sample = {"header": text[:1500], "probe": oa[:20]}


FWI = tool.FWI
CHECKS = {
    "C10": dict(fn=c10, shared=shared, quick=(1500, 90), thorough=(20000, 700),
                rule="a case is a generated header; each of its functions is an evaluation, and non-trivial (identified by its prototype) when it has at least two parameters of which one is not of builtin type"),
    "C11": dict(fn=c11, shared=shared, quick=(1500, 90), thorough=(20000, 700),
                rule="a case is a generated header; each probed fact (size, alignment, offset, type, bit pattern, enumerator, macro expansion) is an evaluation; non-trivial cases are distinct record bodies and enumerator lists reached from a mocked function"),
}
