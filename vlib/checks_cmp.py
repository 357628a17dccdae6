"""C09: generated struct and union comparators against field-wise equality computed from the generator's own AST."""
import os, re, subprocess
from . import build, hgen, tool
from .hgen import *
from .pbt import Violation, Inconclusive
from .rt import walk, leaf_fill

FEAT = dict(clash=True, ws=True, mdecl=True, tmacro=True, ienum=True, irecptr=True, bigenum=True, cpost=True, multidim=False, max_funcs=2, max_params=3, max_types=6, macros=False, comments=False)
FLAGS = ["gcc", "-w", "-O0", "-g1", "-fsanitize=address", "-I" + build.FW_INC, "-I" + os.path.join(build.VERIF, "harness")]


def shared():
    return {"gen": build.generator("plain"), "fw": build.framework("asan")}


def eq_walk(t, a, depth=0, name=None):
    """C statements that note the name of every leaf in which *x and *y differ; %s in `a` is x or y."""
    t = strip(t)
    if isinstance(t, Arr):
        i = "i%d" % depth
        return "for(int %s = 0; %s < %d; %s++) {\n%s}\n" % (i, i, t.n, i, eq_walk(t.t, a + "[%s]" % i, depth + 1, name))
    r = rec_of(t)
    if r is not None:
        out = ""
        for f in r.fields:
            if f.name is None and f.bits is not None:
                continue
            out += eq_walk(f.t, a if f.name is None else a + "." + f.name, depth, f.name or name)
        return out
    return 'if(!(%s == %s)) differ("%s");\n' % (a.replace("@", "x"), a.replace("@", "y"), name)


def size_walk(t, lv, depth=0):
    return walk(t, lv, leaf_fill, depth)


PRE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "easyMock.h"
typedef unsigned __int128 rt_u128;
static uint64_t rt_mix(uint64_t seed, unsigned leaf)
{
  if(seed == 0) return 0;
  if(seed == 1) return ~0ull;
  uint64_t z = seed * 0x9E3779B97F4A7C15ull + (leaf + 1) * 0xD1B54A32D192ED03ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static const char *names[64]; static int n_names, n_diff;
static void differ(const char *n) { n_diff++; for(int i = 0; i < n_names; i++) if(names[i] == n) return; if(n_names < 64) names[n_names++] = n; }
static int is_word(int c) { return c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int named(const char *msg)
{
  for(int i = 0; i < n_names; i++)
  {
    size_t l = strlen(names[i]);
    for(const char *p = msg; (p = strstr(p, names[i])) != NULL; p++)
      if((p == msg || !is_word(p[-1])) && !is_word(p[l])) return 1;
  }
  return 0;
}
static long n_eq, n_ne, n_cmp;
typedef int (*hm_cmp_fn)(EASYMOCK_MATCHER_PARAM);
static void bad(const char *what, const char *cmp, const char *msg)
{
  printf("BAD %s: %s: %d differing leaves (first %s); message '%s'\n", cmp, what, n_diff, n_names ? names[0] : "-", msg);
  fflush(stdout);
  _Exit(3);
}
/* one comparison: the verdict of the comparator and of its dereferencing twin against the field-wise one */
static void one(const void *x, const void *y, size_t size, void (*eq)(const void *, const void *), hm_cmp_fn cmp, hm_cmp_fn deref, const char *name, void *xs, void *ys)
{
  char *msg = malloc(EASYMOCK_MAX_CMP_ERR);
  n_diff = n_names = 0; eq(x, y); n_cmp++;
  memset(msg, 0, EASYMOCK_MAX_CMP_ERR);
  int r = cmp(x, y, "theParam", msg);
  if(!memchr(msg, 0, EASYMOCK_MAX_CMP_ERR)) { msg[EASYMOCK_MAX_CMP_ERR - 1] = 0; bad("the message is not terminated", name, msg); }
  if(!n_diff && r) bad("equal values reported as different", name, msg);
  if(n_diff && !r) bad("different values reported as equal", name, msg);
  if(!r && *msg) bad("a message without a difference", name, msg);
  if(r && strlen(msg) < EASYMOCK_MAX_CMP_ERR - 1 && !named(msg)) bad("no differing field is named", name, msg);
  if(deref)
  {
    *(const void **)xs = x; *(const void **)ys = y;
    char m2[EASYMOCK_MAX_CMP_ERR]; memset(m2, 0, sizeof m2);
    int r2 = deref(xs, ys, "theParam", m2);
    if(!r2 != !r) bad("the dereferencing comparator disagrees", name, m2);
  }
  if(memcmp(x, xs + sizeof(void *), size)) bad("the comparator changed its argument", name, msg);
  if(n_diff) n_ne++; else n_eq++;
  free(msg);
}
static void record(size_t size, void (*fill)(void *, uint64_t), void (*eq)(const void *, const void *), hm_cmp_fn cmp, hm_cmp_fn deref, const char *name, uint64_t seed, long max_flips)
{
  unsigned char *x = malloc(size ? size : 1), *y = malloc(size ? size : 1), *xs = malloc(sizeof(void *) + size), *ys = malloc(sizeof(void *));
  memset(x, (int)rt_mix(seed, 5000), size); fill(x, seed); memcpy(y, x, size);
  memcpy(xs + sizeof(void *), x, size);
  one(x, y, size, eq, cmp, deref, name, xs, ys);
  n_diff = n_names = 0; eq(x, y);
  int nan = n_diff;
  /* every bit that no field depends on is padding: change it */
  if(!nan)
    for(size_t b = 0; b < size * 8; b++)
    {
      y[b / 8] ^= 1u << (b % 8);
      n_diff = n_names = 0; eq(x, y);
      if(n_diff) y[b / 8] ^= 1u << (b % 8);
    }
  one(x, y, size, eq, cmp, deref, name, xs, ys);
  size_t step = max_flips && (long)(size * 8) > max_flips ? size * 8 / max_flips : 1;
  for(size_t b = rt_mix(seed, 6000) % step; b < size * 8; b += step)
  {
    y[b / 8] ^= 1u << (b % 8);
    one(x, y, size, eq, cmp, deref, name, xs, ys);
    if(rt_mix(seed, 7000 + b) % 4 == 0)
    {
      size_t c = rt_mix(seed, 90000 + b) % (size * 8);
      y[c / 8] ^= 1u << (c % 8);
      one(x, y, size, eq, cmp, deref, name, xs, ys);
      y[c / 8] ^= 1u << (c % 8);
    }
    y[b / 8] ^= 1u << (b % 8);
  }
  for(int k = 0; k < 4; k++)
  {
    memset(y, (int)rt_mix(seed, 5001 + k), size); fill(y, k < 2 ? seed : seed + k);
    one(x, y, size, eq, cmp, deref, name, xs, ys);
  }
  free(x); free(y); free(xs); free(ys);
}
'''


def contained(r, seen=None):
    """Named records whose comparator r's needs."""
    seen = {} if seen is None else seen

    def rec(t):
        t = strip(t)
        while isinstance(t, Arr):
            t = strip(t.t)
        q = rec_of(t)
        if q is not None and id(q) not in seen:
            seen[id(q)] = q
            for f in q.fields or []:
                rec(f.t)
    for f in r.fields:
        rec(f.t)
    return list(seen.values())


def aliases(g, r):
    """Further typedef names of the record. The comparator is named after the one that is used first (open finding alias_first)."""
    return [d.name for d in g.tds if d.decl is None and rec_of(d.t) is r and not d.name.startswith("TM")]


def cands_of(g, r):
    return ([r.td] if r.td else []) + (["%s_%s" % (r.kind, r.tag)] if r.tag else []) + aliases(g, r)


def leaves(t):
    t = strip(t)
    if isinstance(t, Arr):
        return leaves(t.t) * t.n
    r = rec_of(t)
    if r is not None:
        return sum(leaves(f.t) for f in r.fields if not (f.name is None and f.bits is not None))
    return 1


def shape(r):
    def s(t):
        t = strip(t)
        if isinstance(t, Arr):
            return "%s[%d]" % (s(t.t), t.n)
        q = rec_of(t)
        if q is not None:
            return q.kind[0] + "{" + ",".join(s(f.t) + (":%d" % f.bits if f.bits is not None else "") for f in q.fields) + "}"
        return t.key if isinstance(t, Scalar) else type(t).__name__
    return r.kind[0] + "{" + ",".join(s(f.t) + (":%d" % f.bits if f.bits is not None else "") for f in r.fields) + "}"


def c09(src, ctx):
    w = ctx.work
    g = hgen.Gen(src, FEAT)
    h = g.header("hdr.h")
    while not g.complete_recs() or src.bool(1, 3):
        g.gen_rec(h)
    recs = g.complete_recs()
    used = [r for r in recs if src.bool(5, 6)] or recs[:1]
    for r in used:
        t = RecRef(r, bool(r.td) and (not r.tag or src.bool()))
        how = src.choice(["value", "ptr", "cptr", "both"])
        ps = [t] if how == "value" else [Ptr(t)] if how == "ptr" else [Ptr(Const(t))] if how == "cptr" else [t, Ptr(t)]
        if r.has_const and how in ("value", "both"):
            ps = [Ptr(Const(t))]
        if src.bool(1, 3):
            ps.insert(0, Scalar("int", "int", "int"))
        if src.bool(1, 4):
            ps = [Const(p) for p in ps]
        fn = Func(g.uid("use"), VOID if src.bool() else Scalar("int", "int", "int"), [(g.uid("p"), p) for p in ps])
        fn.text = fn.proto() + ";"
        h.chunks.append(fn.text)
        h.funcs.append(fn)
    types = src.bool(1, 3)
    by_name = src.bool(1, 3)
    opts = ["--generate-types"] if types else []
    want = list(used)
    if by_name:
        want = src.subset(used) or used[:1]
        # a name can be the tag of a record and the typedef of another one: both are requested then
        closed, names, todo = {}, [], list(want)
        while todo:
            q = todo.pop()
            if id(q) in closed:
                continue
            closed[id(q)] = q
            todo += [x for x in contained(q) if not x.inline or x.tag]
            new = [n for n in [q.tag, q.td] + aliases(g, q) if n and n not in names]
            names += new
            todo += [x for x in g.complete_recs() if {x.tag, x.td} & set(new)]
        for n in src.shuffled(names):
            opts += ["--generate-comparator-of", n]
    else:
        opts += ["--generate-comparator-of", "EasyMock_all_comparators"]
    text = h.text()
    os.makedirs(w + "/out")
    tool.write(w + "/in/hdr.h", text)
    try:
        p = tool.run(ctx.shared["gen"], ["-i", w + "/in/hdr.h", "-o", w + "/out"] + opts)
        if p.returncode:
            raise Violation("generator", "exit status %d: %s" % (p.returncode, tool.err_tail(p)))
        inc = ["-I" + w + "/out"] + ([] if types else ["-I" + w + "/in"])
        p = tool.cc(FLAGS + ["-c", w + "/out/easyMock_hdr.c", "-o", w + "/m.o"] + inc)
        if p.returncode:
            raise Violation("mock-compile", tool.first_error(p.stderr))
        got = {n for n, k in tool.globals_of(w + "/m.o").items() if k == "T" and n.startswith("cmp_")}
        tests = []
        for r in want:
            cands = cands_of(g, r)
            have = [c for c in cands if "cmp_" + c in got]
            if not have:
                raise Violation("missing", "no comparator of %s (%s), wanted one of %s" % (rec_name(r), opts, ["cmp_" + c for c in cands]))
            for c in have:
                if "cmp_deref_ptr_" + c not in got:
                    raise Violation("missing", "no dereferencing comparator cmp_deref_ptr_%s" % c)
                tests.append((r, c))
        # comparators of named records that got generated because they are contained
        for r in recs:
            if r not in want:
                for c in cands_of(g, r):
                    if "cmp_" + c in got and "cmp_deref_ptr_" + c in got:
                        tests.append((r, c))
        body = PRE + '#define const\n#include "easyMock_hdr.h"\n'
        main = ""
        flips = 4000 if ctx.tier == "thorough" else 600
        for i, (r, c) in enumerate(tests):
            T = cdecl(RecRef(r, r.tag is None))
            body += "static void fill_%d(void *v_, uint64_t seed) { %s *v = v_; unsigned leaf = 0; (void)leaf;\n%s}\n" % (i, T, size_walk(RecRef(r, False), "(*v)"))
            body += "static void eq_%d(const void *x_, const void *y_) { const %s *x = x_, *y = y_;\n%s}\n" % (i, T, eq_walk(RecRef(r, False), "(*@)"))
            body += "extern int cmp_%s(EASYMOCK_MATCHER_PARAM), cmp_deref_ptr_%s(EASYMOCK_MATCHER_PARAM);\n" % (c, c)
            for k in range(3):
                seed = src.choice([0, 1, 4, 5, 6, 7]) if src.bool() else src.int(8, 10 ** 6)
                main += 'record(sizeof(%s), fill_%d, eq_%d, cmp_%s, cmp_deref_ptr_%s, "cmp_%s", %dull, %d);\n' % (T, i, i, c, c, c, seed, flips)
        body += 'int main(void) { %s printf("OK %%ld %%ld\\n", n_eq, n_ne); return 0; }\n' % main
        tool.write(w + "/t.c", body)
        p = tool.cc(FLAGS + [w + "/t.c", w + "/m.o", ctx.shared["fw"], "-Wl,-rpath," + os.path.dirname(ctx.shared["fw"]), "-o", w + "/t"] + inc)
        if p.returncode:
            raise Violation("link", tool.first_error(p.stderr))
        p = subprocess.run([w + "/t"], capture_output=True, text=True, errors="replace", timeout=60, env=tool.ENVG)
        if not p.stdout.startswith("OK"):
            kind = "differs" if p.stdout.startswith("BAD") else "crash"
            raise Violation(kind, p.stdout[:700] or p.stderr[-1500:])
    except Violation as v:
        c = tool.cc(["gcc", "-w", "-xc", "-fsyntax-only", w + "/in/hdr.h"])
        if c.returncode:
            raise Inconclusive("the header is not valid C: " + tool.first_error(c.stderr))
        v.files.update({"in/hdr.h": text, "options": " ".join(opts)})
        raise
    _, ne, nd = p.stdout.split()
    ctx.count(int(ne) + int(nd))
    ctx.label("equal", int(ne))
    ctx.label("different", int(nd))
    ctx.label("comparators", len(tests))
    ctx.label("by_name" if by_name else "all")
    for r, c in tests:
        if leaves(RecRef(r, False)) >= 2:
            ctx.hit((shape(r), types, by_name))
    ctx.sample = {"header": text[:1500], "options": opts}


CHECKS = {
    "C09": dict(fn=c09, shared=shared, quick=(500, 60), thorough=(30000, 600),
                rule="case = a generated header whose records are parameters of mocked functions, comparators requested for all or by name; every comparator and its dereferencing twin is compared with a field-wise equality generated from the AST, over values with all padding bits changed, every single bit flipped, pairs of bits flipped and unrelated values; evaluations = comparisons; non-trivial = a record of at least 2 leaves; distinct by shape of the record and options"),
}
