"""C16: generated C++ headers, their mocks, and histories of expectations and calls judged by a model."""
import os, re, subprocess
from . import build, tool
from .pbt import Violation, Inconclusive

HARN = os.path.join(build.VERIF, "harness")
CXX = ["g++", "-std=c++17", "-w", "-O0"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:detect_odr_violation=0", UBSAN_OPTIONS="halt_on_error=1:exitcode=99:print_stacktrace=0")
POOL = 8
NULL = 1000

SCALARS = ["int", "unsigned int", "bool", "char", "signed char", "unsigned char", "short", "unsigned short", "long", "unsigned long",
           "long long", "unsigned long long", "float", "double", "long double"]
PNAMES = ["a", "b", "value", "ptr", "size", "name", "idx", "flag", "x", "first", "self", "data", "key", "out"]
FNAMES = ["get", "put", "run", "open_it", "value_of", "f", "g", "compute", "size", "reset"]


class B:
    """A named type: qualified spelling q, the scope it is declared in, and its kind."""
    def __init__(self, kind, name, scope=(), target=None, **kw):
        self.kind, self.name, self.scope, self.target = kind, name, scope, target
        self.__dict__.update(kw)

    @property
    def q(self):
        if self.kind in ("sc", "std"):
            return self.name
        if self.kind == "inst":
            return self.qual
        return "::" + "::".join(self.scope + (self.name,))

    def base(self):
        return self.target.base() if self.kind == "alias" else self


class Form:
    """How a parameter or a returned value uses a base type."""
    def __init__(self, b, form):
        self.b, self.form = b, form

    # form: 'val', 'cval', 'ptr', 'cptr', 'ptrc', 'cptrc', 'ref', 'cref', 'pref', 'pcref', 'pptr', 'arr', 'void', 'cvoid', 'none'
    FMT = {"val": "{}", "cval": "const {}", "ptr": "{} *", "cptr": "const {} *", "ptrc": "{} *const", "cptrc": "const {} *const", "ref": "{} &",
           "cref": "const {} &", "pref": "{} *&", "pcref": "{} *const &", "pptr": "{} **", "arr": "{} *", "void": "void *", "cvoid": "const void *", "none": "void", "fpsp": "FpSpelled"}
    CANON = {"cval": "val", "ptrc": "ptr", "cptrc": "cptr", "arr": "ptr"}

    def q(self):
        return self.FMT[self.form].format(self.b.q if self.b else "")

    def canon(self):
        b = self.b.base() if self.b else None
        return self.CANON.get(self.form, self.form), b.q if b else ""

    def obj(self):
        """The type of an object holding the value (references removed)."""
        q = self.b.q if self.b else ""
        return {"val": q, "cval": q, "ptr": q + " *", "cptr": "const %s *" % q, "ptrc": q + " *", "cptrc": "const %s *" % q, "ref": q, "cref": q, "pref": q + " *",
                "pcref": q + " *", "pptr": q + " **", "arr": q + " *", "void": "void *", "cvoid": "const void *", "fpsp": "FpSpelled"}[self.form]

    def is_ref(self):
        return self.form in ("ref", "cref", "pref", "pcref")

    def decl(self, spelling, name):
        if self.form == "arr":
            return "%s %s[%d]" % (spelling, name, 4)
        if self.form == "fpsp":
            return "int (*%s)(int, char)" % name
        s = self.FMT[self.form].format(spelling)
        return s + ("" if s[-1] in "*&" and name else " ") + name

    def out(self):
        """None: no output argument; 'typed' or 'sized'."""
        if self.form in ("ptr", "ptrc", "arr"):
            return "sized" if self.b.base().kind == "fwd" else "typed"
        if self.form == "void":
            return "sized"
        if self.form == "pptr":
            return "multi"
        return None


class Fn:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def word(self):
        return self.name


class CppGen:
    def __init__(self, src):
        self.src = src
        self.types = []
        self.decl_names = {}            # scope -> names of types declared directly in it
        self.n = 0
        self.sigs = set()
        self.fns = []
        self.driver_defs = []           # definitions of what the mock leaves to the user
        self.fill = []
        self.classes = []
        self.noise_names = set()
        self.opened = set()

    def uid(self):
        self.n += 1
        return self.n

    # ---------------------------------------------------------------- types
    def spell(self, b, scope, src):
        if b.kind in ("sc", "std", "inst"):
            return b.q
        opts = []
        # what an unqualified name finds
        for k in range(len(scope), -1, -1):
            if b.name in self.decl_names.get(scope[:k], ()):
                if scope[:k] == b.scope:
                    opts.append(b.name)
                break
        opts.append("::".join(b.scope + (b.name,)))
        opts.append(b.q)
        return src.choice(opts)

    def declare(self, scope, name):
        self.decl_names.setdefault(scope, set()).add(name)

    def tname(self, scope, pool):
        """Type names are often the same in different namespaces; global ones are unique."""
        if scope and self.src.bool(2, 3):
            for n in pool:
                if n not in self.decl_names.get(scope, ()):
                    return n
        return "%s_%d" % (pool[0], self.uid())

    def gen_type(self, scope, ind):
        src = self.src
        k = src.weighted([(4, "rec"), (3, "enum"), (2, "enumc"), (3, "alias"), (1, "fwd"), (1, "fp"), (1, "union"), (1, "inst")])
        pad = "  " * ind
        if k == "rec":
            b = B("rec", self.tname(scope, ["Item", "Point", "State"]), scope)
            b.fields = []
            self.declare(scope, b.name)
            out = pad + src.choice(["struct", "struct", "class"]) + " " + b.name + "\n" + pad + "{\n"
            out += pad + "public:\n" if "class" in out else ""
            for i in range(src.int(1, 3)):
                t = src.choice([x for x in self.types if x.kind in ("sc", "enum", "enumc", "rec", "std")] or self.types)
                f = "m%d" % i
                b.fields.append((f, t))
                out += pad + "  %s %s;\n" % (self.spell(t, scope, src), f)
            if src.bool(1, 4):
                out += pad + "  bool operator==(const %s &o) const;\n" % b.name
            if src.bool(1, 6):
                out += pad + "  %s() {}\n" % b.name
            if src.bool(1, 6):
                out += pad + "  int inl(int a) const { return a; }\n"
            out += pad + "};\n"
        elif k in ("enum", "enumc"):
            b = B(k, self.tname(scope, ["Mode", "Color"]), scope)
            u = self.uid()
            under = src.choice(["", "", " : unsigned char", " : long"])
            out = pad + "enum %s%s%s { %s };\n" % ("class " if k == "enumc" else "", b.name, under, ", ".join("V%d_%d" % (u, i) for i in range(3)))
        elif k == "alias":
            t = src.choice([x for x in self.types if x.kind != "fwd"])
            b = B("alias", self.tname(scope, ["Id", "Handle"]), scope, t)
            self.declare(scope, b.name)
            sp = self.spell(t, scope, src)
            out = pad + ("typedef %s %s;\n" % (sp, b.name) if src.bool() else "using %s = %s;\n" % (b.name, sp))
        elif k == "union":
            b = B("union", self.tname(scope, ["Word"]), scope)
            b.fields = [("l", B("sc", "long"))]
            out = pad + "union %s { long l; char c[8]; };\n" % b.name
        elif k == "inst":
            t = src.choice([x for x in self.types if x.kind in ("sc", "enum", "enumc", "rec")])
            tm = B("tmpl", self.tname(scope, ["Box"]), scope)
            sp = self.spell(t, scope, src)
            b = B("inst", tm.name + "<%s>" % sp, scope, None, qual="%s<%s>" % (tm.q, t.q))
            b.fields = [("v", t), ("n", B("sc", "int"))]
            self.declare(scope, tm.name)
            out = pad + "template<class T> struct %s { T v; int n; T get() const; };\n" % tm.name
        elif k == "fwd":
            b = B("fwd", self.tname(scope, ["Opaque", "Impl"]), scope)
            out = pad + "%s %s;\n" % (src.choice(["struct", "class"]), b.name)
        else:
            b = B("fp", self.tname(scope, ["Callback"]), scope)
            out = pad + ("typedef int (*%s)(int, char);\n" if src.bool() else "using %s = int (*)(int, char);\n") % b.name
        self.declare(scope, b.name)
        if k in ("rec", "union", "inst"):
            self.add_record_value(b)
        elif k == "fwd":
            self.add_fwd_value(b)
        self.types.append(b)
        return out

    def add_record_value(self, b):
        body_f = "".join(" V<%s>::fill(v.%s, s, leaf + %d);" % (t.q, f, 10 * i) for i, (f, t) in enumerate(b.fields))
        body_h = "".join(" r = hcombine(r, V<%s>::hash(v.%s));" % (t.q, f) for f, t in b.fields)
        self.fill.append("template<> struct V<%s> { static void fill(%s &v, u64 s, unsigned leaf = 0) {%s } static u64 hash(const %s &v) { u64 r = 5;%s return r; } };"
                         % (b.q, b.q, body_f, b.q, body_h))

    def add_fwd_value(self, b):
        ns = b.scope
        self.fill.append("".join("namespace %s { " % x for x in ns) + "struct %s { long a; int b; };" % b.name + " }" * len(ns))
        b.fields = [("a", B("sc", "long")), ("b", B("sc", "int"))]
        self.add_record_value(b)

    # ---------------------------------------------------------------- functions
    def pick(self, pred=lambda b: True):
        c = [b for b in self.types if pred(b)]
        return c[self.src.draw(len(c))]

    def any_type(self):
        src = self.src
        if src.bool(1, 3):
            return B("sc", src.choice(SCALARS))
        # the latest types are the most interesting
        return self.types[len(self.types) - 1 - src.draw(min(len(self.types), 8))] if src.bool(2, 3) else src.choice(self.types)

    def param_form(self):
        src = self.src
        b = self.any_type()
        k = b.base().kind
        if k == "fwd":
            return Form(b, src.choice(["ptr", "cptr", "ref", "cref"]))
        f = src.weighted([(6, "val"), (1, "cval"), (4, "ptr"), (3, "cptr"), (1, "ptrc"), (1, "cptrc"), (4, "ref"), (5, "cref"), (1, "pref"), (1, "pcref"), (1, "pptr"),
                          (1, "arr"), (1, "void"), (1, "cvoid"), (1, "fpsp")])
        if k == "fp" and f not in ("val", "cref", "ref", "cval", "void", "cvoid", "fpsp"):
            f = "val"
        if (k == "inst" or "<" in b.base().q) and f in ("ptr", "ptrc", "arr", "pptr"):
            f = "cptr"      # whether the size of the output is known depends on who instantiates the template first
        if f in ("void", "cvoid", "fpsp"):
            b = None
        return Form(b, f)

    def ret_form(self):
        src = self.src
        if src.bool(1, 5):
            return Form(None, "none")
        b = self.any_type()
        k = b.base().kind
        if k == "fwd":
            return Form(b, src.choice(["ptr", "cptr"]))
        f = src.weighted([(6, "val"), (3, "ptr"), (2, "cptr"), (3, "ref"), (3, "cref"), (1, "cval")])
        if k == "fp" and f not in ("val", "ref", "cref"):
            f = "val"
        return Form(b, f)

    def bases(self, cls):
        while cls and cls.parent:
            cls = cls.parent
            yield cls

    def override(self, path, cls, ind):
        src = self.src
        fs = [f for b in self.bases(cls) for f in self.fns if f.cls is b and f.virtual]
        if not fs:
            return None
        o = src.choice(fs)
        scope = path + tuple(cls.chain)
        sig = (scope, o.name, tuple(p.canon() for p in o.ps))
        if sig in self.sigs or o.name in self.decl_names.get(scope, ()):
            return None
        self.sigs.add(sig)
        ps = [Form(p.b, p.form) for p in o.ps]
        names = src.sample(PNAMES, len(ps))
        args = [p.decl(self.spell(p.b, scope, src) if p.b else "", n) for p, n in zip(ps, names)]
        rs = o.ret.FMT[o.ret.form].format(self.spell(o.ret.b, scope, src) if o.ret.b else "")
        self.fns.append(Fn(name=o.name, path=path, cls=cls, ps=ps, names=names, ret=Form(o.ret.b, o.ret.form), const=o.const, quals=o.quals, volat=o.volat, virtual=True, variadic=False,
                           api="EasyMock::" + "::".join(scope + (o.name,))))
        return "  " * ind + "%s %s(%s)%s%s;\n" % (rs, o.name, ", ".join(args), o.quals, src.choice([" override", "", " final"]))

    def function(self, path, cls, ind, name=None, c_linkage=False):
        """A mocked function declaration; returns its text (None when the overload isn't possible)."""
        src = self.src
        if c_linkage:
            name = "cfun%d" % self.uid()
        scope = path + (tuple(cls.chain) if cls else ())
        name = name or (src.choice(FNAMES) if src.bool(3, 4) else "fun%d" % self.uid())
        ps = [self.param_form() for _ in range(src.weighted([(2, 1), (2, 2), (2, 0), (1, 3), (1, 4)]))]
        ret = self.ret_form()
        sig = (scope, name, tuple(p.canon() for p in ps))
        if sig in self.sigs or (scope, name) in self.noise_names or name in self.decl_names.get(scope, ()):
            return None
        if any(f.cls is b and f.virtual and f.name == name and tuple(p.canon() for p in f.ps) == sig[2] for b in self.bases(cls) for f in self.fns):
            return None
        self.sigs.add(sig)
        const = bool(cls) and src.bool(1, 3)
        virtual = bool(cls) and src.bool(1, 4)
        noexc = src.bool(1, 6)
        volat = bool(cls) and src.bool(1, 20)
        refq = src.choice(["", "", "", "", "", "", "", "", " &"]) if cls else ""
        pn = src.sample(PNAMES, len(ps))
        names = [n if src.bool(5, 6) else "" for n in pn]
        dflt = len(ps)
        while dflt > 0 and src.bool(1, 10) and ps[dflt - 1].form == "val" and ps[dflt - 1].b.kind == "sc":
            dflt -= 1
        args = []
        for i, (p, n) in enumerate(zip(ps, names)):
            d = p.decl(self.spell(p.b, scope, src) if p.b else "", n)
            if i >= dflt:
                d += " = 0"
            args.append(d)
        rs = ret.FMT[ret.form].format(self.spell(ret.b, scope, src) if ret.b else "")
        trail = src.bool(1, 12)
        variadic = bool(ps) and not virtual and dflt == len(ps) and src.bool(1, 25)
        if variadic:
            args.append("...")
        quals = (" const" if const else "") + (" volatile" if volat else "") + refq + (" noexcept" if noexc else "")
        pre = "virtual " if virtual else ""
        if src.bool(1, 12):
            pre = "[[nodiscard]] " + pre if ret.form != "none" else pre
        if not cls and not c_linkage and src.bool(1, 10):
            pre = pre.replace("[[nodiscard]] ", "[[nodiscard]] extern ") if pre else "extern "
        head = "auto %s(%s)%s -> %s" % (name, ", ".join(args), quals, rs) if trail else "%s%s%s(%s)%s" % (rs, "" if rs[-1] in "*&" and src.bool() else " ", name, ", ".join(args), quals)
        fn = Fn(name=name, path=path, cls=cls, ps=ps, names=names, ret=ret, const=const, quals=quals, volat=volat, virtual=virtual, variadic=variadic, api="EasyMock::" + "::".join(scope + (name,)))
        self.fns.append(fn)
        text = "  " * ind + pre + head + ";\n"
        if c_linkage and src.bool(1, 2):
            return "  " * ind + 'extern "C" ' + pre + head + ";\n"
        if c_linkage:
            return "  " * ind + 'extern "C" { ' + pre + head + "; }\n"
        if not cls and dflt == len(ps) and not variadic and src.bool(1, 10):
            text += "  " * ind + rs + " " + name + "(" + ", ".join(p.decl(p.b.q if p.b else "", "") for p in ps) + ")" + quals + ";\n"
        return text

    def noise_fn(self, path, ind):
        """Declarations which must not be mocked, or give nothing to mock."""
        src = self.src
        u = self.uid()
        pad = "  " * ind
        k = src.draw(11)
        if k == 0:
            return pad + "inline int inl%d(int a) { return a; }\n" % u
        if k == 1:
            return pad + "template<class T> T tmpl%d(T a) { return a; }\n" % u
        if k == 2:
            return pad + "constexpr int cst%d() { return 3; }\n" % u
        if k == 3:
            return pad + "static int stat%d() { return 3; }\n" % u
        if k == 4:
            return pad + "extern int var%d;\n" % u
        if k == 5:
            return pad + "template<class T> struct Tm%d { T v; T get() const; int other(int); };\n" % u
        if k == 6:
            return pad + "namespace { int hidden%d(int); }\n" % u
        if k == 9:
            return pad + "struct Abs%d { virtual ~Abs%d() {} virtual int pure%d(int a) const = 0; virtual void other%d(const Abs%d &a) = 0; };\n" % (u, u, u, u, u)
        if k == 10:
            return pad + "struct Fr%d { int a; friend int fri%d(Fr%d *a); friend class Nobody%d; friend struct Fr%d2; };\n" % (u, u, u, u, u)
        if k == 7:
            return pad + "int del%d(double) = delete;\n" % u
        recs = [t for t in self.types if t.kind == "rec" and t.scope[:len(path)] == path]
        if not recs:
            return ""
        r = src.choice(recs)
        return pad + "%s operator+(const %s &l, const %s &r);\n" % (r.q, r.q, r.q)

    def klass(self, path, ind, outer=None):
        src = self.src
        scope = path + (tuple(outer.chain) if outer else ())
        pad = "  " * ind
        b = B("cls", "%s%d" % (src.choice(["Engine", "Device", "Store"]), self.uid()), scope)
        b.path = path
        b.chain = (outer.chain if outer else ()) + (b.name,)
        b.fields = [("tag", B("sc", "int"))]
        kw = src.choice(["class", "class", "struct"])
        bases = [c for c in self.classes if c.complete and not outer]
        base = src.choice(bases) if bases and src.bool(1, 3) else None
        b.parent = base
        out = pad + kw + " " + b.name
        if base:
            out += " : public " + base.q
        out += "\n" + pad + "{\n" + pad + "public:\n"
        self.declare(scope, b.name)
        inner_scope = scope + (b.name,)
        b.complete = False
        # the class itself is a type of its methods
        self.add_record_value(b)
        self.types.append(b)
        out += pad + "  int tag = 0;\n" if not base else ""
        if base:
            b.fields = base.fields
        if src.bool(1, 3):
            out += pad + "  %s();\n" % b.name
            self.driver_defs.append("%s::%s() {}" % (b.q[2:], b.name))
        if src.bool(1, 4):
            virt = "virtual " if src.bool() else ""
            out += pad + "  %s~%s();\n" % (virt, b.name)
            self.driver_defs.append("%s::~%s() {}" % (b.q[2:], b.name))
            out += pad + "  %s(const %s &) = default;\n" % (b.name, b.name) + pad + "  %s &operator=(const %s &) = default;\n" % (b.name, b.name)
            if "  %s();\n" % b.name not in out:
                out += pad + "  %s() {}\n" % b.name
        for _ in range(src.int(1, 5)):
            k = src.weighted([(8, "fn"), (1, "over"), (1, "type"), (1, "nest"), (1, "noise"), (1, "priv"), (1 if base else 0, "virt")])
            if k == "virt":
                out += self.override(path, b, ind + 1) or ""
            elif k == "type":
                t = src.choice(["enum", "alias"])
                if t == "enum":
                    e = B("enum", "Kind%d" % self.uid(), inner_scope)
                    out += pad + "  enum %s { K%d_0, K%d_1, K%d_2 };\n" % (e.name, self.n, self.n, self.n)
                else:
                    tt = src.choice([x for x in self.types if x.kind in ("sc", "enum", "rec")])
                    e = B("alias", "Alias%d" % self.uid(), inner_scope, tt)
                    out += pad + "  typedef %s %s;\n" % (self.spell(tt, inner_scope, src), e.name)
                self.declare(inner_scope, e.name)
                self.types.append(e)
            elif k == "nest" and not outer:
                out += self.klass(path, ind + 1, b)
            elif k == "noise":
                u = self.uid()
                out += pad + "  " + src.choice(["static int sm%d(int);" % u, "bool operator<(const struct Tag%d &o) const;" % u, "int inl%d(int a) { return a; }" % u,
                                                "template<class T> int tm%d(T a);" % u, "explicit operator struct Tag%d *() const;" % u, "friend bool operator>(const %s &l, const struct Tag%d &r);" % (b.name, u),
                                                "static const int sc%d = 4;" % u, "int del%d(int) = delete;" % u, "int &operator[](struct Tag%d *);" % u]) + "\n"
            elif k == "priv":
                u = self.uid()
                out += pad + src.choice(["private:\n", "protected:\n"]) + pad + "  int hidden%d;\n" % u + pad + "  int hid%d(int a, const char *b);\n" % u + pad + "public:\n"
            else:
                nm = None
                if k == "over":
                    mine = [f for f in self.fns if f.cls is b]
                    nm = src.choice(mine).name if mine else None
                t = self.function(path, b, ind + 1, nm)
                out += t or ""
        b.complete = True
        self.classes.append(b)
        return out + pad + "};\n"

    def header(self, name, include=None):
        src = self.src
        if not self.types:
            self.types += [B("sc", "int"), B("sc", src.choice(SCALARS))]
        out = ""
        if src.bool(1, 4):
            self.types.append(B("std", "std::string"))
        if src.bool(1, 6):
            self.types.append(B("std", src.choice(["std::vector<int>", "std::vector<std::string>", "std::pair<int, short>"])))
        out += "".join("#include <%s>\n" % i for i in ("string", "vector", "utility") if any(t.kind == "std" and "std::" + i.replace("utility", "pair") in t.name for t in self.types))
        if include:
            out += '#include "%s"\n' % include
        first = len(self.fns)
        pad = 0
        for step in range(src.int(2, 7)):
            path = src.choice([(), (), ("alpha",), ("alpha",), ("beta",), ("alpha", "inner"), ("beta", "inner"), ("alpha", "inner", "deep"), ("delta", "v1")])
            # a class may be called like no namespace
            body = ""
            for _ in range(src.int(1, 3)):
                k = src.weighted([(6, "fn"), (2, "over"), (4, "type"), (4, "class"), (2, "noise"), (1, "C")])
                if k == "type":
                    body += self.gen_type(path, len(path))
                elif k == "class":
                    body += self.klass(path, len(path))
                elif k == "C":
                    body += self.function(path, None, len(path), None, True)
                elif k == "noise":
                    body += self.noise_fn(path, len(path))
                else:
                    nm = None
                    if k == "over" and self.fns:
                        nm = src.choice(self.fns).name
                    body += self.function(path, None, len(path), nm) or ""
            if body and "operator" not in body and src.bool(1, 20):
                out += "namespace gamma { using namespace %s; }\n" % "::".join(path) if path in self.opened else ""
            self.opened.update(path[:i] for i in range(1, len(path) + 1))
            if path == ("delta", "v1"):
                out += "namespace delta { inline namespace v1 {\n" + body + "} }\n"
            elif path and src.bool(1, 3):
                out += "namespace %s\n{\n%s}\n" % ("::".join(path), body)
            else:
                out += "".join("namespace %s {\n" % p for p in path) + body + "}\n" * len(path)
        g = re.sub(r"\W", "_", name).upper()
        self.hdr_fns = self.fns[first:]
        return "#ifndef %s\n#define %s\n%s#endif\n" % (g, g, out)


# ------------------------------------------------------------------------------------------------ driver
def matcher_type(p):
    return "::EasyMock::EasyMock_Matcher_Cpp<%s>" % p.q()


def printable(b):
    b = b.base()
    return b.kind in ("sc", "enum") or b.q == "std::string"


def matchers(p):
    out = ["nullptr", "rec<%s>" % p.q()]
    b = p.b.base() if p.b else None
    if p.form in ("void", "cvoid", "fpsp"):
        out.append("EasyMock::cmp<%s>" % p.q())
    elif p.form in ("val", "cval", "ref", "cref"):
        if printable(b):
            out.append("EasyMock::cmp<%s>" % p.q())
    elif not (b.kind == "sc" and b.name.endswith("char")):
        out.append("EasyMock::cmp<%s>" % p.q())
    return out


def driver(headers, fns, gen):
    o = ['#include "cpp_core.hpp"'] + ['#include "easyMock_%s"' % h for h in headers] + gen.fill
    ids = {}
    regs = []

    def reg(b):
        q = b.base().q
        if q not in ids:
            ids[q] = len(ids)
            regs.append("reg<%s>(%d);" % (q, ids[q]))
        return ids[q]
    ids["Buf"] = 0
    regs.append("reg<Buf>(0);")
    ex, ca = [], []
    for k, f in enumerate(fns):
        over = sum(1 for g in fns if g.api == f.api) > 1 or getattr(f, "ambiguous", False)
        e = "static void expect_%d() {\n" % k
        args = []
        if f.cls:
            reg(f.cls)
            e += "  long ii = rd(); %s *inst = ii < 0 ? nullptr : &pool<%s>(ii);\n" % (f.cls.q, f.cls.q)
            args.append("inst")
        pre = ""
        for i, p in enumerate(f.ps):
            if p.b:
                p.pool = reg(p.b)
            else:
                p.pool = 0
            T = p.obj()
            if p.is_ref():
                pre += "  %s &a%d = rpool<%s>(rd() %% POOL);\n" % (T, i, T)
                if p.form in ("pref", "pcref"):
                    q = T
                    if q not in ids:
                        ids[q] = len(ids)
                        regs.append("reg<%s>(%d);" % (q, ids[q]))
            else:
                pre += "  %s a%d = mk<%s>(rd());\n" % (T, i, T)
                if p.form == "pptr":
                    q = p.b.base().q + " *"
                    if q not in ids:
                        ids[q] = len(ids)
                        regs.append("reg<%s>(%d);" % (q, ids[q]))
            args.append("a%d" % i)
        hashes = "".join(' std::printf(" %%llx", h(a%d));' % i for i in range(len(f.ps)))
        e += pre
        if f.ret.form != "none":
            T = f.ret.obj()
            if f.ret.is_ref():
                reg(f.ret.b)
                e += "  %s &r = rpool<%s>(rd() %% POOL);\n" % (T, T)
                rh = "(u64)(std::uintptr_t)std::addressof(r)"
            else:
                if f.ret.form in ("ptr", "cptr"):
                    reg(f.ret.b)
                e += "  %s r = mk<%s>(rd());\n" % (T, T)
                rh = "h(r)"
            args.append("r")
        else:
            rh = "0ull"
        e += '  std::printf("V");%s std::printf(" %%llx\\n", (u64)%s);\n' % (hashes, rh)
        types = (["%s *" % f.cls.q] if f.cls else []) + [p.q() for p in f.ps] + ([f.ret.q()] if f.ret.form != "none" else [])
        for i, p in enumerate(f.ps):
            p.matchers = matchers(p)
            e += "  static const %s ms%d[] = {%s}; %s m%d = ms%d[rd()];\n" % (matcher_type(p), i, ", ".join(p.matchers), matcher_type(p), i, i)
            args.append("m%d" % i)
            types.append(matcher_type(p))
        f.outs = [i for i, p in enumerate(f.ps) if p.out()]
        call = lambda fn, a, t: ("static_cast<void (*)(%s)>(&%s)(%s)" % (", ".join(t), fn, ", ".join(a)) if over else "%s(%s)" % (fn, ", ".join(a)))
        if f.outs:
            oa, ot = list(args), list(types)
            e += "  long with_out = rd();\n"
            for i in f.outs:
                p = f.ps[i]
                T = p.obj()
                P = "Buf" if p.form == "void" else p.b.q
                src_expr = "nullptr" if p.form == "pptr" else "(%s)(os%d < 0 ? nullptr : &rpool<%s>(os%d))" % (T, i, P, i)
                e += "  long os%d = rd(), on%d = rd(); %s o%d = %s;\n" % (i, i, T, i, src_expr)
                if p.form != "pptr":
                    e += '  if(os%d >= 0) std::printf("O %d %%llx\\n", h(rpool<%s>(os%d)));\n' % (i, i, P, i)
                oa.append("o%d" % i)
                ot.append(p.q())
                if p.out() == "sized":
                    oa.append("(easyMock_size_t)on%d" % i)
                    ot.append("easyMock_size_t")
            e += "  if(with_out) %s; else\n" % call(f.api + "::ExpectReturnAndOutput", oa, ot)
        e += "  %s;\n}" % call(f.api + "::ExpectAndReturn", args, types)
        c = "static void call_%d() {\n" % k
        if f.cls:
            c += "  %s &inst = pool<%s>(rd());\n" % (f.cls.q, f.cls.q)
        c += pre + '  std::printf("V");%s std::printf("\\n");\n' % hashes
        a = ", ".join(["a%d" % i for i in range(len(f.ps))] + (["7", "2.5"] if f.variadic else []))
        scope = "::" + "::".join(f.path + (tuple(f.cls.chain) if f.cls else ()) + (f.name,)) if (f.path or f.cls) else "::" + f.name
        pt = ", ".join([p.q() for p in f.ps] + (["..."] if f.variadic else []))
        if f.cls:
            inst = "inst" if not f.volat else "const_cast<volatile %s &>(inst)" % f.cls.q
            x = "(%s.*static_cast<%s (%s::*)(%s)%s>(&%s))(%s)" % (inst, f.ret.q(), f.cls.q, pt, f.quals, scope, a) if over else "%s.%s(%s)" % (inst, f.name, a)
        else:
            x = "static_cast<%s (*)(%s)>(&%s)(%s)" % (f.ret.q(), pt, scope, a) if over else "%s(%s)" % (scope, a)
        if f.ret.form == "none":
            c += '  %s;\n  std::printf("T 0\\n");\n}' % x
        elif f.ret.is_ref():
            c += '  auto &&r = %s;\n  std::printf("T %%llx\\n", (u64)(std::uintptr_t)std::addressof(r));\n}' % x
        else:
            c += '  %s r = %s;\n  std::printf("T %%llx\\n", h(r));\n}' % (f.ret.obj(), x)
        o += [e, c]
        ex.append("expect_%d" % k)
        ca.append("call_%d" % k)
    o += gen.driver_defs
    o.append("const op_fn expects[] = {%s};\nconst op_fn calls[] = {%s};" % (", ".join(ex), ", ".join(ca)))
    o.append("int main() { %s return core_run(); }" % " ".join(regs))
    return "\n".join(o) + "\n"


# ------------------------------------------------------------------------------------------------ histories
class Op:
    def __init__(self, kind, toks, **kw):
        self.kind, self.toks = kind, toks
        self.__dict__.update(kw)

    def __repr__(self):
        return self.kind + " " + " ".join(str(x) for x in self.toks)


def seed_for(src, p):
    if p.is_ref():
        return src.draw(POOL)
    if p.form == "fpsp":
        return src.draw(4)
    if p.form in ("val", "cval"):
        return src.draw(6)
    return NULL if src.bool(1, 8) else src.draw(POOL)


def gen_history(src, fns, order):
    ops = [Op("init", [1]), Op("order", [5, int(order)])]
    pend = {}           # function -> expectations not consumed
    fifo = []
    dead = set()
    focus = src.sample(range(len(fns)), src.int(1, min(4, len(fns))))

    def expect():
        k = src.choice(focus)
        if k in dead:
            return
        f = fns[k]
        toks = [2, k]
        inst = None
        if f.cls:
            inst = -1 if src.bool(1, 3) else src.draw(3)
            toks.append(inst)
        a = [seed_for(src, p) for p in f.ps]
        toks += a
        ret = None
        if f.ret.form != "none":
            ret = src.draw(POOL) if f.ret.is_ref() or f.ret.form not in ("ptr", "cptr") else seed_for(src, f.ret)
            toks.append(ret)
        ms = [src.draw(len(p.matchers)) if src.bool(4, 5) else 1 for p in f.ps]
        toks += ms
        outs, with_out = {}, False
        if f.outs:
            with_out = src.bool(2, 3)
            toks.append(int(with_out))
            for i in f.outs:
                p = f.ps[i]
                s = -1 if src.bool(1, 4) or p.form == "pptr" else src.draw(POOL)
                n = 0
                if p.out() == "sized":
                    n = 16 if p.form != "void" else src.choice([32, 32, 0, 1, 7, 16, 31])
                    if p.form != "void" and src.bool(1, 6):
                        n = 0
                toks += [s, n]
                if with_out and s >= 0:
                    outs[i] = (s, n)
        ops.append(Op("expect", toks, f=k, inst=inst, args=a, ms=ms, outs=outs))
        pend.setdefault(k, []).append(ops[-1])
        fifo.append(k)

    def call(k=None, exact=False):
        if k is None:
            k = src.choice(focus) if not fifo or src.bool(1, 6) else (fifo[0] if src.bool(3, 4) else src.choice(fifo))
        f = fns[k]
        e = pend[k].pop(0) if pend.get(k) else None
        if e is None:
            dead.add(k)
        else:
            fifo.pop(0)         # whatever was called: the front of the queue is what it is compared with
        toks = [3, k]
        inst = None
        if f.cls:
            inst = e.inst if e and e.inst >= 0 and (exact or src.bool(3, 4)) else src.draw(3)
            toks.append(inst)
        a = []
        for i, p in enumerate(f.ps):
            s = e.args[i] if e and (exact or src.bool(2, 3)) else seed_for(src, p)
            if e and i in e.outs and s == NULL:
                s = src.draw(POOL)      # an output needs somewhere to go
            a.append(s)
        ops.append(Op("call", toks + a, f=k, inst=inst, args=a))
    for _ in range(src.int(2, 24)):
        if src.bool(1, 60):
            for _ in range(src.choice([20, 66, 130, 257, 300])):
                expect()
        elif src.bool(1, 2):
            expect()
        elif src.bool(1, 20):
            ops.append(Op("order", [5, int(src.bool())]))
        elif src.bool(1, 20):
            ops.append(Op("check", [4]))
        else:
            call()
    if src.bool(2, 3):
        while fifo:
            # (after an out-of-order call the queue of names no longer tells what is left)
            left = [k for k in sorted(pend) if pend[k]]
            if not left:
                break
            call(fifo[0] if fifo[0] in left else left[0], src.bool())
    if src.bool(3, 4):
        ops.append(Op("check", [4]))
    return ops


M64 = (1 << 64) - 1


def mix(seed, leaf):
    x = (seed * 0x9E3779B97F4A7C15 + leaf * 0xD1B54A32D192ED03 + 0x1234567) & M64
    x ^= x >> 29
    x = x * 0xBF58476D1CE4E5B9 & M64
    return x ^ x >> 32


def Buf(seed):
    return bytes(mix(seed, i) & 255 for i in range(32))


def buf_hash(b):
    h = 7
    for c in b:
        h = (h ^ c) * 1099511628211 & M64
    return h


def classify(t):
    if "unexpected call of" in t:
        return "unexp"
    if "but was expecting call to" in t:
        return "order"
    if "bad number of call" in t:
        return "count"
    if "Expecting this object being" in t:
        return "inst"
    if "at call" in t:
        return "match"
    return "other"


def judge(ops, lines, fns, died):
    """Returns (list of complaints, stats)."""
    st = {"expect": 0, "call": 0, "rec": 0, "cmp": 0, "inst_err": 0, "unexp": 0, "out": 0, "match_err": 0, "order_err": 0}
    bad = []
    pos = 0

    def take():
        nonlocal pos
        if pos >= len(lines):
            raise EOFError
        pos += 1
        return lines[pos - 1]
    queue, fifo, n_call, n_exp, errs, mem, buf = {}, [], {}, {}, 0, {}, []
    order = True
    try:
        for n, op in enumerate(ops):
            where = "op %d (%s%s)" % (n, op.kind, " " + fns[op.f].api if hasattr(op, "f") else "")
            got = []
            while True:
                l = take()
                got.append(l)
                if l.startswith("E "):
                    break
            while pos < len(lines) and lines[pos].startswith("X "):
                got.append(take())
            G = lambda c: [x.split() for x in got if x.startswith(c + " ") or x == c]
            V, M, W, T, X, O = G("V"), G("M"), G("W"), G("T"), G("X"), G("O")
            texts = [bytes.fromhex(x[1]).decode("latin1") if len(x) > 1 else "" for x in X]
            total = int(G("E")[0][1])
            want_err = []           # (category, predicate words)
            want_w = {}             # (pool, slot) -> contents it must have now
            if op.kind == "init":
                queue, fifo, n_call, n_exp, errs = {}, [], {}, {}, 0
                mem = {(int(x[1]), int(x[2])): int(x[3], 16) for x in G("P")}
                buf = [Buf(i) for i in range(POOL)]
                want_w = dict(mem)
            elif op.kind == "order":
                order = bool(op.toks[1])
            elif op.kind == "expect":
                f = fns[op.f]
                st["expect"] += 1
                op.h = [int(x, 16) for x in V[0][1:]]
                op.oh = {int(x[1]): int(x[2], 16) for x in O}
                queue.setdefault(op.f, []).append(op)
                n_exp[op.f] = n_exp.get(op.f, 0) + 1
                fifo.append(op.f)
            elif op.kind == "call":
                f = fns[op.f]
                st["call"] += 1
                h = [int(x, 16) for x in V[0][1:]]
                n_call[op.f] = n_call.get(op.f, 0) + 1
                if not T:
                    bad.append(("crash", where + ": no return"))
                    break
                if not queue.get(op.f):
                    want_err.append(("unexp", [f.name]))
                    st["unexp"] += 1
                    if M:
                        bad.append(("match", "%s: matchers called in an unexpected call: %s" % (where, M)))
                else:
                    e = queue[op.f].pop(0)
                    if f.cls and e.inst >= 0 and e.inst != op.inst:
                        want_err.append(("inst", [f.name, n_call[op.f]]))
                        st["inst_err"] += 1
                    want_m = []
                    for i, p in enumerate(f.ps):
                        if e.ms[i] == 0:
                            continue
                        st["rec" if e.ms[i] == 1 else "cmp"] += 1
                        if e.ms[i] == 1:
                            want_m.append((f.names[i], h[i], e.h[i]))
                        if h[i] != e.h[i]:
                            st["match_err"] += 1
                            want_err.append(("match", [f.name, n_call[op.f], "RECORDED %d for %d" % (h[i], e.h[i]) if e.ms[i] == 1 else "value"]))
                    got_m = [(x[1] if len(x) == 4 else "", int(x[-2], 16), int(x[-1], 16)) for x in M]
                    if len(got_m) != len(want_m) or any(a[1:] != b[1:] or (b[0] and a[0] != b[0]) for a, b in zip(got_m, want_m)):
                        bad.append(("match", "%s: matchers saw (name, actual, expected) %s, expected %s" % (where, got_m, want_m)))
                    r = int(T[0][1], 16)
                    if f.ret.form != "none" and r != e.h[-1]:
                        bad.append(("ret", "%s: call %d returned %x, expected %x" % (where, n_call[op.f], r, e.h[-1])))
                    k = fifo.pop(0) if fifo else None
                    if order and k != op.f:
                        want_err.append(("order", [f.name] + ([fns[k].name] if k is not None else [])))
                        st["order_err"] += 1
                    else:
                        for i in e.outs:
                            slot, nb = e.outs[i]
                            p = f.ps[i]
                            t = (p.pool, op.args[i] % POOL)
                            if p.form == "void":
                                buf[t[1]] = Buf(slot + 3)[:nb] + buf[t[1]][nb:]
                                want_w[t] = buf_hash(buf[t[1]])
                            elif p.out() == "typed" or nb:
                                want_w[t] = e.oh[i]
                            st["out"] += 1
            elif op.kind == "check":
                ok = errs == 0
                for k in sorted(set(n_exp) | set(n_call)):
                    if n_exp.get(k, 0) != n_call.get(k, 0):
                        want_err.append(("count", [fns[k].name, n_exp.get(k, 0), n_call.get(k, 0)]))
                        ok = False
                v = int(G("K")[0][1])
                if bool(v) != ok:
                    bad.append(("verdict", "%s: verdict %d, expected %d" % (where, v, ok)))
            # memory
            for x in W:
                key, val = (int(x[1]), int(x[2])), int(x[3], 16)
                if want_w.get(key, mem[key]) == mem[key]:
                    bad.append(("out", "%s: object %s changed to %x" % (where, key, val)))
                mem[key] = val
            for key, val in want_w.items():
                if mem[key] != val:
                    bad.append(("out", "%s: object %s has contents %x, expected %x" % (where, key, mem[key], val)))
                mem[key] = val
            # errors
            errs += len(want_err)
            if total != errs:
                bad.append(("errors", "%s: %d errors so far, expected %d: %s / expected now %s" % (where, total, errs, [t[:200] for t in texts], want_err)))
                break
            cats = [classify(t) for t in texts]
            if op.kind == "check":
                cats, exp = sorted(cats), sorted(c for c, _ in want_err)
            else:
                exp = [c for c, _ in want_err]
            if cats != exp:
                bad.append(("errors", "%s: errors %s, expected %s" % (where, [t[:200] for t in texts], want_err)))
            left = list(texts)
            for c, words in want_err:
                for t in left:
                    if classify(t) == c and all((re.search(r"(?<!\w)%s(?!\w)" % re.escape(str(x)), t) if not isinstance(x, int) else re.search(r"(?<!\d)%d(?!\d)" % x, t)) for x in words):
                        left.remove(t)
                        break
                else:
                    bad.append(("errors", "%s: no error says %s %s among %s" % (where, c, words, [t[:300] for t in texts])))
                    break
            if len(bad) > 5:
                break
    except EOFError:
        bad.append(("crash", "the program ended early: " + died))
    return bad, st


def run_driver(exe, ops_list):
    script = " ".join(" ".join(str(t) for t in o.toks) for ops in ops_list for o in ops) + " 0\n"
    try:
        p = subprocess.run([exe], input=script, capture_output=True, text=True, errors="replace", timeout=60, env=ENV)
    except subprocess.TimeoutExpired:
        return [], "timeout"
    return p.stdout.split("\n")[:-1], "exit %s %s" % (p.returncode, p.stderr[-1200:])


def compile_all(d, headers, shared, san, drv, cxx="g++"):
    flags = [cxx] + CXX[1:] + (build.SAN if san else []) + ["-I" + build.FW_INC, "-I" + HARN, "-I" + d]
    write = tool.write
    write(os.path.join(d, "driver.cpp"), drv)
    procs = []
    for s in ["easyMock_%s.cpp" % h[:-2] for h in headers] + ["driver.cpp"]:
        procs.append((s, subprocess.Popen(flags + ["-c", os.path.join(d, s), "-o", os.path.join(d, s + ".o")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")))
    for s, p in procs:
        out = p.communicate(timeout=300)[0]
        if p.returncode != 0:
            raise Violation("compile_driver" if s == "driver.cpp" else "compile_mock", "%s does not compile: %s" % (s, tool.first_error(out)))
    objs = [os.path.join(d, s + ".o") for s, _ in procs]
    fw = shared["asan" if san else "plain"]
    exe = os.path.join(d, "prog")
    p = tool.cc([cxx] + (build.SAN if san else []) + objs + [fw, "-Wl,-rpath," + os.path.dirname(fw), "-o", exe], timeout=300)
    if p.returncode != 0:
        raise Violation("link", "mock and user do not link: " + tool.first_error(p.stdout + p.stderr))
    return exe


def c16(src, ctx):
    gen = CppGen(src)
    n = src.weighted([(3, 1), (2, 2)])
    d = ctx.work
    headers, texts, fns = [], {}, []
    for i in range(n):
        name = "hdr%d.h" % i
        inc = headers[-1] if headers else None
        t = gen.header(name, inc)
        headers.append(name)
        texts[name] = t
        tool.write(os.path.join(d, name), t)
        fns += gen.hdr_fns
    ctx.sample = {"header": texts[headers[-1]][:1500]}
    if not fns:
        return
    san = src.bool(1, 2)
    for h in headers:
        p = tool.run(ctx.shared["gen"], ["-i", os.path.join(d, h), "-o", d, "--mock-cpp"])
        if p.returncode != 0 or "error:" in tool.err_tail(p, 4000):
            raise Violation("generate", "the generator fails on %s: %s" % (h, tool.err_tail(p)), texts)
    try:
        # calls through a plain name must not be ambiguous between overloads
        for f in fns:
            f.ambiguous = any(g is not f and g.name == f.name for g in fns)
        exe = compile_all(d, headers, ctx.shared, san, driver(headers, fns, gen), "clang++" if not san and src.bool(1, 4) else "g++")
        hists = [gen_history(src, fns, src.bool()) for _ in range(src.int(3, 12))]
        lines, died = run_driver(exe, hists)
        pos = 0
        for ops in hists:
            start = pos
            # the lines of one history run up to the next init, which starts with the contents of the pools
            end = start
            while end < len(lines) and lines[end].startswith("P "):
                end += 1
            while end < len(lines) and not lines[end].startswith("P "):
                end += 1
            pos = end
            bad, st = judge(ops, lines[start:end], fns, died)
            if bad:
                files = dict(texts)
                files["history.txt"] = "\n".join(repr(o) for o in ops) + "\n"
                raise Violation(bad[0][0], "; ".join("[%s] %s" % b for b in bad[:3]), files)
            ctx.count()
            for k, v in st.items():
                ctx.label(k, v)
            if st["call"] >= 2 and st["expect"] >= 2:
                ctx.hit((texts[headers[0]], repr(ops)))
        if died and not died.startswith("exit 0"):
            raise Violation("crash", "the program ended with " + died)
    except Violation as v:
        v.files = dict(texts, **v.files)
        raise
    ctx.label("functions", len(fns))
    ctx.label("methods", sum(1 for f in fns if f.cls))
    ctx.sample = {"header": texts[headers[-1]][:1500], "history": [repr(o) for o in hists[-1][:25]]}


def shared_c16():
    return {"gen": build.generator("plain"), "asan": build.framework("asan"), "plain": build.framework("plain")}


CHECKS = {
    "C16": dict(fn=c16, shared=shared_c16, quick=(150, 90), thorough=(2500, 700),
                rule="a case is one history (of at least two expectations and two calls) of a generated C++ header whose mock was compiled and linked; distinct by header and history"),
}
