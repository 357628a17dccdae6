"""Generator of C headers from a type grammar, as an AST that the oracles also use."""
import re
from dataclasses import dataclass, field
from typing import Optional, List


class T:
    pass


@dataclass(eq=False)
class Scalar(T):
    key: str                 # canonical C name
    spell: str               # spelling used in this place
    matcher: str             # built-in matcher suffix


SCALARS = [  # canonical, spellings, matcher
    ("int", ["int", "signed", "signed int"], "int"),
    ("char", ["char"], "char"),
    ("unsigned char", ["unsigned char", "char unsigned"], "u_char"),
    ("short", ["short", "short int", "signed short"], "short"),
    ("unsigned short", ["unsigned short", "unsigned short int"], "u_short"),
    ("unsigned int", ["unsigned int", "unsigned"], "u_int"),
    ("long", ["long", "long int", "signed long"], "long"),
    ("unsigned long", ["unsigned long", "unsigned long int", "long unsigned int"], "u_long"),
    ("long long", ["long long", "long long int"], "long_long"),
    ("unsigned long long", ["unsigned long long", "unsigned long long int"], "u_long_long"),
    ("float", ["float"], "float"),
    ("double", ["double"], "double"),
    ("long double", ["long double"], "long_double"),
    ("__int128", ["__int128"], "int128"),
    ("unsigned __int128", ["unsigned __int128"], "uint128"),
    ("_Bool", ["_Bool"], "u_char"),
    ("signed char", ["signed char"], "char"),
]
BITFIELD_OK = {"int", "char", "unsigned char", "short", "unsigned short", "unsigned int", "long", "unsigned long", "long long",
               "unsigned long long", "_Bool", "signed char"}
BITS = {"int": 32, "char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "unsigned int": 32, "long": 64,
        "unsigned long": 64, "long long": 64, "unsigned long long": 64, "_Bool": 1, "signed char": 8}


@dataclass(eq=False)
class Enum(T):
    tag: Optional[str]
    td: Optional[str]
    items: list              # (name, explicit C expression or None)
    use_td: bool = False
    inline: bool = False     # defined in place as the type of a member


@dataclass(eq=False)
class Field:
    name: Optional[str]      # None: anonymous struct/union member or unnamed bit-field
    t: T
    bits: Optional[int] = None
    group: int = 0           # consecutive members of the same group share one declaration: int a, *b;


@dataclass(eq=False)
class Rec(T):
    kind: str                # struct | union
    tag: Optional[str]
    td: Optional[str]
    fields: Optional[List[Field]]   # None: incomplete
    inline: bool = False     # defined in place inside another record
    depth: int = 0
    has_const: bool = False
    attr: str = ""


@dataclass(eq=False)
class RecRef(T):             # refer to a record by tag or typedef
    rec: Rec
    by_td: bool


@dataclass(eq=False)
class Typedef(T):
    name: str
    t: T
    decl: Optional[str] = None   # if it comes from a system header: nothing to emit


@dataclass(eq=False)
class Ptr(T):
    t: T
    q: str = ""              # qualifiers of the pointer itself ("const")


@dataclass(eq=False)
class Const(T):
    t: T
    post: bool = False       # int const instead of const int


@dataclass(eq=False)
class Arr(T):
    t: T
    n: Optional[int]
    q: str = ""              # of an array parameter: static, const


@dataclass(eq=False)
class Fun(T):
    ret: T
    params: list             # of (name or None, T)
    variadic: bool = False


@dataclass(eq=False)
class Void(T):
    pass


VOID = Void()


def strip(t):
    """Without typedefs and top-level const."""
    while True:
        if isinstance(t, (Typedef, Const)):
            t = t.t
        elif isinstance(t, Ptr) and t.q:
            return Ptr(t.t)
        else:
            return t


def rec_of(t):
    t = strip(t)
    return t.rec if isinstance(t, RecRef) else t if isinstance(t, Rec) else None


def rec_name(r, by_td=None):
    if by_td is None:
        by_td = r.tag is None
    return r.td if by_td else "%s %s" % (r.kind, r.tag)


def cdecl(t, inner=""):
    """C declaration of `inner` with type t."""
    sp = " " if inner and not inner.startswith("[") else ""
    if isinstance(t, Scalar):
        return t.spell + sp + inner
    if isinstance(t, Void):
        return "void" + sp + inner
    if isinstance(t, Enum):
        if t.inline:
            return render_enum(t) + sp + inner
        return (t.td if (t.use_td or not t.tag) else "enum " + t.tag) + sp + inner
    if isinstance(t, Rec):
        if t.inline:
            return render_rec_body(t) + sp + inner
        return rec_name(t) + sp + inner
    if isinstance(t, RecRef):
        return rec_name(t.rec, t.by_td) + sp + inner
    if isinstance(t, Typedef):
        return t.name + sp + inner
    if isinstance(t, Const):
        if isinstance(t.t, Ptr):
            return cdecl(Ptr(t.t.t, "const"), inner)
        if t.post and isinstance(t.t, (Scalar, Typedef, RecRef)):
            return cdecl(t.t, "const" + sp + inner)
        return "const " + cdecl(t.t, inner)
    if isinstance(t, Ptr):
        x = "*" + (t.q + " " if t.q else "") + inner
        if isinstance(t.t, (Arr, Fun)):
            x = "(" + x + ")"
        return cdecl(t.t, x)
    if isinstance(t, Arr):
        return cdecl(t.t, inner + "[%s]" % " ".join(x for x in (t.q, "" if t.n is None else str(t.n)) if x))
    if isinstance(t, Fun):
        return cdecl(t.ret, inner + "(" + render_params(t.params, t.variadic) + ")")
    raise TypeError(t)


def render_params(params, variadic):
    if not params:
        return "void"
    ps = [cdecl(t, n or "") for n, t in params]
    if variadic:
        ps.append("...")
    return ", ".join(ps)


def render_enum(e):
    return "enum" + (" " + e.tag if e.tag else "") + " {" + ", ".join(n + (" = " + v if v else "") for n, v in e.items) + "}"


def base_of(t):
    '''The type a declarator is built on.'''
    while isinstance(t, (Ptr, Arr, Fun)):
        t = t.ret if isinstance(t, Fun) else t.t
    return t


def render_rec_body(r, indent="    "):
    s = r.kind + (" " + r.attr if r.attr else "") + ((" " + r.tag) if r.tag else "") + "\n{\n"
    for i, f in enumerate(r.fields):
        if f.group and i and r.fields[i - 1].group == f.group:
            continue
        if f.group:
            fs = [x for x in r.fields if x.group == f.group]
            b = cdecl(base_of(f.t))
            ds = [cdecl(x.t, x.name)[len(b):].strip() + (": %d" % x.bits if x.bits is not None else "") for x in fs]
            s += indent + b + " " + ", ".join(ds) + ";\n"
            continue
        d = cdecl(f.t, f.name or "")
        if f.bits is not None:
            d += (" " if f.name is None else "") + ": %d" % f.bits
        s += indent + d.replace("\n", "\n" + indent) + ";\n"
    return s + "}"


@dataclass(eq=False)
class Func:
    name: str
    ret: T
    params: list             # (name or None, T)
    variadic: bool = False
    text: Optional[str] = None      # full declaration text as emitted
    extern: bool = False
    attrs: list = field(default_factory=list)
    kr: bool = False

    def proto(self, names=True):
        if self.kr:
            return cdecl(self.ret, self.name + "()")
        return cdecl(self.ret, self.name + "(" + render_params(self.params, self.variadic) + ")")


class Header:
    """name: file name; chunks: text pieces in order; funcs: the mockable functions declared."""
    def __init__(self, name):
        self.name, self.chunks, self.funcs, self.types, self.macros, self.includes = name, [], [], [], [], []
        self.ws = 0          # not 0: the seed of the white space between the tokens

    def text(self):
        g = "H_" + "".join(c if c.isalnum() else "_" for c in self.name).upper()
        body = "\n".join(self.chunks)
        if self.ws:
            body = spaced(body, self.ws)
        text = "#ifndef %s\n#define %s\n%s\n%s\n#endif\n" % (g, g, "\n".join("#include %s" % i for i in self.includes), body)
        return text.replace("\n", "\r\n") if self.ws % 13 == 12 else text


SPACES = [["\t"], ["  ", "   "], ["\n", "\n  ", "\n\t"], ["\t", "  ", "\n", " \t ", "\t\t", "\n\n", "\f", "\v"], [" /* c */ ", "/**/", "\t/* a, b) */", "  ", " // x;\n"]]


def spaced(text, seed):
    """The same tokens with other white space (and comments) between them."""
    import random
    r = random.Random(seed)
    pool = SPACES[seed % len(SPACES)]
    dens = r.choice([0.1, 0.3, 0.9])
    out, cont, comment = [], False, False
    for line in text.split("\n"):
        fixed = cont or comment or line.lstrip().startswith("#") or '"' in line or "'" in line or "//" in line or "/*" in line or "*/" in line
        cont = line.endswith("\\")
        comment = ("/*" in line or comment) and "*/" not in line
        if not fixed:
            line = re.sub(r" +|(?<=\w)(?=[(\[,;])|(?<=[(*])(?=\w)|(?<=\w)(?=\))", lambda m: r.choice(pool) if r.random() < (dens if m.group(0) else dens / 4) else m.group(0), line)
        out.append(line)
    return "\n".join(out)


DEFAULT = dict(
    scalars=True, bool_=True, int128=True, schar=True, enums=True, recs=True, unions=True, bitfields=True, anon=True, inline=True,
    arrays=True, multidim=True, funptr=True, typedefs=True, consts=True, incomplete=True, variadic=True, unnamed=True, sysinc=True,
    param_arrays=True, recursive=True, const_fields=True, ret_ptr=True, funptr_ret=False, kr=False, comments=True, macros=True,
    empty_enum_items=False, unnamed_bitfield=True, void_ptr=True, va_list=True, zero_struct=False, enum_exotic=True, layout=True,
    spell=True, mdecl=False, tmacro=False, api=False, arrtd=False, ienum=False, irecptr=False, fparam=False, aparam=False, bigenum=False, cpost=False,
    multidim_param=False, packed=False, mfun=False, arrtd_param=False, macro2=False, long_names=False, ws=False, ptr_bias=False, stem_names=None, huge=False, clash=False, wide=False, max_types=5, max_funcs=5, max_params=5,
)


class Gen:
    """Draws a header. Names are unique over the lifetime of the Gen (prefix distinguishes headers)."""
    def __init__(self, src, feat=None, prefix=""):
        self.s = src
        self.f = dict(DEFAULT)
        self.f.update(feat or {})
        self.prefix = prefix
        self.n = 0
        self.huge_done = False
        self.recs, self.enums, self.tds, self.incs, self.arrtds, self.apis = [], [], [], [], [], {}

    def uid(self, base):
        self.n += 1
        tail = ""
        if self.f["long_names"] and base in ("fn", "p") and self.s.bool(1, 4):
            tail = "_" + "x" * self.s.choice([60, 250, 700, 1100, 4200])
        if self.f["stem_names"] is not None and base == "fn":
            # functions whose names have the same first characters
            return "%s%s_%s%d" % (base, "x" * self.f["stem_names"], self.prefix, self.n)
        return "%s%s%d%s" % (self.prefix, base, self.n, tail)

    # ---- types
    def scalar(self, bitfield=False):
        pool = [x for x in SCALARS if (self.f["bool_"] or x[0] != "_Bool") and (self.f["int128"] or "128" not in x[0])
                and (self.f["schar"] or x[0] != "signed char")]
        if bitfield:
            pool = [x for x in pool if x[0] in BITFIELD_OK]
        k, sp, m = self.s.choice(pool)
        return Scalar(k, self.s.choice(sp) if self.f["spell"] and self.s.bool(1, 4) else sp[0], m)

    def complete_recs(self):
        return [r for r in self.recs if r.fields is not None]

    def recref(self, r):
        if r.tag and r.td:
            return RecRef(r, self.s.bool())
        return RecRef(r, r.tag is None)

    def value_type(self, depth=0, rec_ok=True, const_ok=True, in_field=False):
        """A complete object type that can be a parameter, return value or field."""
        s, f = self.s, self.f
        opts = [(6, "scalar")]
        if depth < 3:
            opts.append((5, "ptr"))
        if f["enums"] and self.enums:
            opts.append((2, "enum"))
        if rec_ok and [r for r in self.complete_recs() if in_field or not r.has_const]:
            opts.append((3, "rec"))
        if f["typedefs"] and [t for t in self.tds if self.is_object(t) and (in_field or not self.const_inside(t))]:
            opts.append((2, "td"))
        if f["funptr"] and depth < 2:
            opts.append((1, "funptr"))
        if f["sysinc"]:
            opts.append((1, "sys"))
        k = s.weighted(opts)
        if k == "scalar":
            t = self.scalar()
        elif k == "ptr":
            t = self.pointer(depth)
        elif k == "enum":
            e = s.choice(self.enums)
            t = Enum(e.tag, e.td, e.items, bool(e.td) and (not e.tag or s.bool()))
            t.orig = e
        elif k == "rec":
            t = self.recref(s.choice([r for r in self.complete_recs() if in_field or not r.has_const]))
        elif k == "td":
            t = s.choice([t for t in self.tds if self.is_object(t) and (in_field or not self.const_inside(t))])
        elif k == "sys":
            n, c = s.choice([("size_t", "unsigned long"), ("uint8_t", "unsigned char"), ("int16_t", "short"), ("uint32_t", "unsigned int"),
                             ("int64_t", "long"), ("uintptr_t", "unsigned long")])
            t = Typedef(n, Scalar(c, c, [m for a, _, m in SCALARS if a == c][0]), decl="sys")
            self.sys_used = True
        else:
            t = Ptr(self.funtype(depth))
        if const_ok and f["consts"] and s.bool(1, 6) and (in_field is False or f["const_fields"]):
            t = Const(t, f["cpost"] and s.bool(1, 4))
        return t

    def const_inside(self, t):
        x = t
        while isinstance(x, Typedef):
            x = x.t
        if isinstance(x, Const) or (isinstance(x, Ptr) and x.q):
            return True
        r = rec_of(x)
        return bool(r and r.has_const)

    def is_object(self, t):
        x = t
        while isinstance(x, (Typedef, Const)):
            x = x.t
        if isinstance(x, (Fun, Void, Arr)):
            return False
        r = rec_of(x)
        return not (r is not None and r.fields is None)

    def pointer(self, depth=0):
        s, f = self.s, self.f
        opts = [(4, "val")]
        if f["void_ptr"]:
            opts.append((2, "void"))
        if f["incomplete"] and self.incs:
            opts.append((2, "inc"))
        k = s.weighted(opts)
        if k == "val":
            t = self.value_type(depth + 1, const_ok=False, in_field=True)
        elif k == "void":
            t = VOID
        else:
            t = self.recref(s.choice(self.incs))
        if f["consts"] and s.bool(1, 4):
            t = Const(t, f["cpost"] and s.bool(1, 4))
        return Ptr(t)

    def funtype(self, depth=0):
        s = self.s
        n = s.int(0, 3)
        ps = [(self.uid("q") if s.bool() else None, self.value_type(2, const_ok=False, rec_ok=True)) for _ in range(n)]
        ret = VOID if s.bool() else self.value_type(2, const_ok=False)
        return Fun(ret, ps, bool(ps) and self.f["variadic"] and s.bool(1, 8))

    # ---- declarations
    def gen_enum(self, h):
        s = self.s
        style = s.choice(["tag", "anon_td", "tag_td"])
        base = self.uid("En")
        tag = base + "_t" if style != "anon_td" else None
        td = base + "_e" if style != "tag" else None
        items = []
        for i in range(s.int(1, 5)):
            nm = "%s_%d" % (base, i)
            v = None
            if s.bool(1, 3) and self.f["enum_exotic"]:
                v = s.choice(["%d" % s.int(0, 100), "-%d" % s.int(1, 100), "0x%x" % s.int(0, 0x7fffffff), "(1 << %d)" % s.int(0, 30)]
                             + ([items[0][0]] if items else []) + (["0xffffffffu", "0x7fffffffffffLL", "-0x80000000LL"] if self.f["bigenum"] and i == 0 else []))
            items.append((nm, v))
        # implicit increments must not overflow int: keep explicit huge values last
        for i in range(len(items) - 1):
            if items[i][1] and items[i][1].startswith("0x") and not items[i][1].endswith(("u", "L")):
                items[i] = (items[i][0], str(int(items[i][1], 16) % 100000))
            elif items[i][1] == "0xffffffffu" and not items[i + 1][1]:
                items[i + 1] = (items[i + 1][0], "7")
        e = Enum(tag, td, items)
        body = "enum" + (" " + tag if tag else "") + " {" + ", ".join(n + (" = " + v if v else "") for n, v in items) + "}"
        if td:
            h.chunks.append("typedef %s %s;" % (body, td))
        else:
            h.chunks.append(body + ";")
        self.enums.append(e)
        h.types.append(e)

    def fields(self, r, h, depth, n=None):
        s, f = self.s, self.f
        out = []
        for _ in range(n or s.int(1, 5)):
            opts = [(8, "plain")]
            if f["arrays"]:
                opts.append((2, "array"))
            if f["bitfields"]:
                opts.append((2, "bits"))
            if f["anon"] and depth < 2:
                opts.append((1, "anonrec"))
            if f["inline"] and depth < 2:
                opts.append((1, "inlinerec"))
            if f["recursive"] and r.tag and not r.inline:
                opts.append((1, "self"))
            if f["unnamed_bitfield"] and f["bitfields"] and out and out[-1].bits is not None and r.kind == "struct":
                opts.append((1, "padbits"))
            if f["mdecl"]:
                opts.append((1, "group"))
            if f["arrtd"] and self.arrtds:
                opts.append((1, "arrtd"))
            if f["ienum"]:
                opts.append((1, "ienum"))
            if f["irecptr"] and depth < 2:
                opts.append((1, "irecptr"))
            k = s.weighted(opts)
            if k == "group":
                b = self.scalar(bitfield=True)
                if f["recs"] and self.complete_recs() and s.bool(1, 3):
                    b = self.recref(s.choice(self.complete_recs()))
                elif self.tds and s.bool(1, 3):
                    b = s.choice([t for t in self.tds if self.is_object(t)] or [b])
                self.n += 1
                gid = self.n
                for _ in range(s.int(2, 3)):
                    how = s.int(0, 5)
                    t = [b, Ptr(b), Arr(b, 3), Ptr(Ptr(b)), Arr(Ptr(b), 2), b][how]
                    out.append(Field(self.uid("f"), t, s.int(1, BITS[b.key]) if how == 5 and isinstance(b, Scalar) and f["bitfields"] else None, gid))
            elif k == "arrtd":
                out.append(Field(self.uid("f"), s.choice(self.arrtds)))
            elif k == "ienum":
                base = self.uid("Ie")
                e = Enum(base + "_t" if s.bool() else None, None, [("%s_%d" % (base, i), s.choice([None, str(s.int(0, 50))])) for i in range(s.int(1, 3))], inline=True)
                t = e if not (f["arrays"] and s.bool(1, 4)) else Arr(e, 2)
                out.append(Field(self.uid("f"), t))
            elif k == "irecptr":
                sub = Rec("struct", self.uid("In") if s.bool() else None, None, None, inline=True, depth=depth + 1)
                sub.fields = self.fields(sub, h, depth + 1, s.int(1, 3))
                out.append(Field(self.uid("f"), Ptr(sub)))
            elif k == "plain":
                t = self.value_type(1, in_field=True)
                out.append(Field(self.uid("f"), t))
            elif k == "array":
                t = self.value_type(1, in_field=True, const_ok=False)
                t = Arr(t, s.int(1, 4))
                if f["huge"] and not self.huge_done and s.bool(1, 30):
                    self.huge_done = True
                    t = Arr(Scalar("unsigned char", "unsigned char", "u_char"), s.choice([260, 5000, 33000, 65600, 70000]))
                elif f["multidim"] and s.bool(1, 3):
                    t = Arr(t, s.int(1, 3))
                out.append(Field(self.uid("f"), t))
            elif k == "bits":
                t = self.scalar(bitfield=True)
                out.append(Field(self.uid("f"), t, s.int(1, BITS[t.key])))
            elif k == "padbits":
                t = self.scalar(bitfield=True)
                while t.key == "_Bool":
                    t = Scalar("int", "int", "int")
                out.append(Field(None, t, s.int(0, 7)))
            elif k == "self":
                out.append(Field(self.uid("f"), Ptr(RecRef(r, False))))
            else:
                kind = "union" if f["unions"] and s.bool() else "struct"
                tag = self.uid("In") if k == "inlinerec" and s.bool() else None
                sub = Rec(kind, tag, None, None, inline=True, depth=depth + 1)
                sub.fields = self.fields(sub, h, depth + 1, s.int(1, 3))
                name = None if k == "anonrec" else self.uid("f")
                t = sub
                if name and f["arrays"] and s.bool(1, 4):
                    t = Arr(sub, s.int(1, 3))
                out.append(Field(name, t))
        # a record without a named member is undefined: make sure one exists
        if not any(x.name or (isinstance(x.t, Rec) and x.bits is None) for x in out):
            out.append(Field(self.uid("f"), self.scalar()))
        r.has_const = any(self.field_const(x) for x in out)
        return out

    def field_const(self, x):
        t = x.t
        while isinstance(t, (Arr, Typedef)):
            t = t.t
        if isinstance(t, Const) or (isinstance(t, Ptr) and t.q):
            return True
        r = rec_of(t)
        return bool(r and r.has_const)

    def gen_rec(self, h):
        s, f = self.s, self.f
        kind = "union" if f["unions"] and s.bool(1, 4) else "struct"
        style = s.choice(["tag", "anon_td", "tag_td", "sep_td"])
        base = self.uid("U" if kind == "union" else "S")
        tag = None if style == "anon_td" else base + "_t"
        td = None if style == "tag" else base + "_d"
        if f["clash"] and s.bool(1, 3):
            tag, td = self.clash(tag, td)
        r = Rec(kind, tag, td, None)
        r.fields = self.fields(r, h, 0)
        if f["packed"] and s.bool(1, 5):
            r.attr = s.choice(["__attribute__((packed))", "__attribute__((aligned(16)))"])
        body = render_rec_body(r)
        if style == "tag":
            h.chunks.append(body + ";")
        elif style == "sep_td":
            if s.bool():
                h.chunks.append("typedef %s %s %s;" % (kind, tag, td))
                h.chunks.append(body + ";")
            else:
                h.chunks.append(body + ";")
                h.chunks.append("typedef %s %s %s;" % (kind, tag, td))
        else:
            h.chunks.append("typedef %s %s;" % (body, td))
        self.recs.append(r)
        h.types.append(r)

    def clash(self, tag, td):
        """Tags and typedefs are different name spaces: names that look alike across them."""
        s = self.s
        known = self.recs + self.incs
        tags, tds = {r.tag for r in known}, {r.td for r in known} | {t.name for t in self.tds}
        k = s.choice(["own", "own", "tag", "td", "glue"])
        if k == "own" and tag and td:
            td = tag
        elif k == "tag" and tag:
            free = sorted(x for x in tds - tags if x and not x.startswith("TM"))
            if free:
                tag = s.choice(free)
        elif k == "td" and td:
            free = sorted(x for x in tags - tds if x)
            if free:
                td = s.choice(free)
        elif k == "glue" and tag and td:
            c = [r for r in known if r.tag and r.td and "_" in r.td]
            if c:
                r = s.choice(c)
                i = s.choice([i for i, x in enumerate(r.td) if x == "_"])
                t, d = r.tag + "_" + r.td[:i], r.td[i + 1:]
                if d.isidentifier() and t not in tags and d not in tds:
                    tag, td = t, d
        return tag, td

    def gen_inc(self, h):
        s = self.s
        kind = "union" if self.f["unions"] and s.bool(1, 4) else "struct"
        base = self.uid("Inc")
        r = Rec(kind, base + "_t", base + "_d" if s.bool() else None, None)
        h.chunks.append("%s %s;" % (kind, r.tag))
        if r.td:
            h.chunks.append("typedef %s %s %s;" % (kind, r.tag, r.td))
        self.incs.append(r)
        h.types.append(r)

    def gen_td(self, h):
        s = self.s
        k = s.weighted([(4, "val"), (2, "funptr"), (1, "void")] + [(1, "arr")] * bool(self.f["arrtd"]) + [(2, "macro")] * bool(self.f["tmacro"]))
        if k == "arr":
            td = Typedef(self.uid("Ta"), Arr(self.value_type(1, const_ok=False, in_field=True), s.int(1, 4)))
            h.chunks.append("typedef %s;" % cdecl(td.t, td.name))
            self.arrtds.append(td)
            h.types.append(td)
            return
        if k == "macro":
            t = self.scalar()
            if self.complete_recs() and s.bool(1, 3):
                t = self.recref(s.choice(self.complete_recs()))
            td = Typedef(self.uid("TM"), t)
            h.chunks.append("#define %s %s" % (td.name, cdecl(t)))
            self.tds.append(td)
            h.types.append(td)
            return
        if k == "val":
            t = self.value_type(0, in_field=True)
        elif k == "funptr":
            t = Ptr(self.funtype(0)) if self.f["funptr"] else self.scalar()
        else:
            t = Ptr(VOID)
        name = self.uid("Td")
        td = Typedef(name, t)
        h.chunks.append("typedef %s;" % cdecl(t, name))
        self.tds.append(td)
        h.types.append(td)

    def gen_func(self, h, name=None):
        s, f = self.s, self.f
        name = name or self.uid("fn")
        ps = []
        for i in range(s.int(0, f["max_params"]) if not f["wide"] or not s.bool(1, 16) else s.int(6, 18)):
            t = self.value_type(0) if not (f["ptr_bias"] and s.bool()) else Ptr(VOID) if s.bool() else Ptr(self.value_type(1, const_ok=False, in_field=True))
            if f["param_arrays"] and s.bool(1, 8):
                t = Arr(self.value_type(1, const_ok=False), s.choice([None, s.int(1, 5)]))
                if f["aparam"] and s.bool(1, 3):
                    t.q = s.choice(["static", "const", "restrict"] if t.n else ["const", "restrict"])
                elif f["multidim_param"] and s.bool(1, 4):
                    t = Arr(Arr(t.t, s.int(1, 3)), t.n) if s.bool() else Ptr(Arr(t.t, s.int(1, 3)))
            elif f["arrtd_param"] and self.arrtds and s.bool(1, 8):
                t = s.choice(self.arrtds)
            elif f["fparam"] and s.bool(1, 12):
                t = self.funtype(1)
            elif f["va_list"] and s.bool(1, 30):
                t = Typedef("va_list", VOID, decl="va")
                h.includes = sorted(set(h.includes) | {"<stdarg.h>"})
            nm = self.uid("p") if not (f["unnamed"] and s.bool(1, 8)) else None
            ps.append((nm, t))
        ret = VOID if s.bool(1, 3) else self.value_type(0, const_ok=False)
        fn = Func(name, ret, ps, bool(ps) and f["variadic"] and s.bool(1, 8))
        fn.extern = s.bool(1, 5)
        if f["kr"] and not ps and s.bool(1, 4):
            fn.kr = True
        pre = "extern " if fn.extern else ""
        if f["api"] and s.bool(1, 4):
            k = s.choice(["vis", "ext", "extvis", "nest", "empty", "cold"])
            if k not in self.apis:
                m = self.apis[k] = self.uid("API_")
                part = s.choice(["Td", "S", "U", "En", "_d", "_t", "_e"])
                if s.bool(1, 3) and part not in self.apis.values():
                    m = self.apis[k] = part      # a part of the names of types
                if k == "nest":
                    h.chunks.append("#define %s_IN extern __attribute__((cold))" % m)
                h.chunks.append("#define %s %s" % (m, {"vis": '__attribute__((visibility("default")))', "ext": "extern", "empty": "", "nest": m + "_IN",
                                                       "extvis": 'extern __attribute__((visibility("default")))', "cold": "__attribute__((cold)) __attribute__((unused))"}[k]))
            pre = ("" if "ext" in k or k == "nest" else pre) + self.apis[k] + " "
        txt = pre + fn.proto() + ";"
        b = base_of(ret)
        if f["mfun"] and not fn.kr and s.bool(1, 8) and self.is_object(b) and not self.const_inside(b):
            # one declaration of two functions
            other = Func(self.uid("fn"), s.choice([b, Ptr(b)]), [(self.uid("p"), self.scalar()) for _ in range(s.int(0, 2))])
            txt = txt[:-1] + ", " + other.proto()[len(cdecl(b)):].strip() + ";"
            other.extern = fn.extern
            h.funcs.append(other)
        fn.text = txt
        if f["layout"] and s.bool(1, 6):
            txt = txt.replace(", ", ",\n    ")
        if f["comments"] and s.bool(1, 6):
            txt = s.choice(["/* about %s: f(int); */\n" % name, "// %s(x)\n" % name, "/** multi\n * line */\n"]) + txt
        h.chunks.append(txt)
        h.funcs.append(fn)
        return fn

    def gen_macro(self, h):
        s = self.s
        nm = self.uid("MACRO_")
        k = s.choice(["num", "str", "expr", "empty", "fun", "type", "multi"])
        h.chunks.append({
            "num": "#define %s %d" % (nm, s.int(0, 9999)), "str": '#define %s "a,(b) \\"c\\""' % nm,
            "expr": "#define %s ((1 << 3) + (%d))" % (nm, s.int(0, 99)), "empty": "#define %s" % nm,
            "fun": "#define %s(a, b) ((a) + (b) * %d)" % (nm, s.int(0, 9)), "type": "#define %s unsigned int" % nm,
            "multi": "#define %s \\\n    (%d + \\\n     1)" % (nm, s.int(0, 99))}[k])
        h.macros.append((nm, k))
        if self.f["macro2"] and s.bool(1, 3):
            k = s.choice(["redef", "undef", "fun0", "var", "gnuvar", "paste", "str1", "nested", "var1"])
            if k == "redef":
                h.chunks.append("#undef %s\n#define %s redefined + %d" % (nm, nm, s.int(0, 9)))
                h.macros[-1] = (nm, "num")
            elif k == "undef":
                h.chunks.append("#undef %s" % nm)
            else:
                n2 = self.uid("MAC_")
                h.chunks.append({"fun0": "#define %s() (%s)", "var": "#define %s(a, ...) g_(a, ##__VA_ARGS__) %s", "gnuvar": "#define %s(a, rest...) g_(a, ## rest) %s",
                                 "paste": "#define %s(a, b) a##b %s", "str1": "#define %s(x) #x %s", "nested": "#define %s (%s + 1)",
                                 "var1": "#define %s(...) g_(__VA_ARGS__) %s L\"x\" u8\"y\" 'c' 1.5e-3 0x1fUL"}[k] % (n2, nm))
                h.macros.append((n2, k if k not in ("nested",) else "num"))

    def header(self, name):
        s, f = self.s, self.f
        h = Header(name)
        h.includes = ["<stddef.h>", "<stdint.h>"] if f["sysinc"] else []
        kinds = [(2, "enum")] * bool(f["enums"]) + [(4, "rec")] * bool(f["recs"]) + [(2, "td")] * bool(f["typedefs"]) + [(1, "inc")] * bool(f["incomplete"])
        for _ in range(s.int(0, f["max_types"])):
            if kinds:
                getattr(self, "gen_" + s.weighted(kinds))(h)
            if f["macros"] and s.bool(1, 6):
                self.gen_macro(h)
        for _ in range(s.int(1, f["max_funcs"]) if not f["wide"] or not s.bool(1, 16) else s.int(6, 24)):
            self.gen_func(h)
            if f["macros"] and s.bool(1, 8):
                self.gen_macro(h)
        if f["ws"] and s.bool(1, 3):
            h.ws = s.int(1, 100000)
        return h
