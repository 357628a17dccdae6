"""C01-C07: histories of expectations and calls against generated C mocks."""
import re
from . import hgen, rt, pbt
from .pbt import Violation, Inconclusive

FEAT = dict(va_list=False, macros=False, comments=False, layout=False, mdecl=True, ienum=True, irecptr=True, fparam=True, aparam=True, bigenum=True, kr=True, mfun=True, cpost=True, huge=True, clash=True, wide=True, max_funcs=4, max_types=3, max_params=4)

# which aspects of the judgement each property owns
OWN = {
    "C01": {"ret", "unexp", "other", "crash"},
    "C02": {"verdict", "count", "crash"},
    "C03": {"seen", "match", "crash"},
    "C04": {"order", "crash"},
    "C05": {"out", "crash"},
    "C07": {"array", "string", "sequence", "match", "unexp", "order", "count", "other", "crash"},
}

PROFILES = {
    "C01": dict(order=3, arr=2, excess=3, init=2, mismatch=2, out=1, rec=2, null=5, deep=25, n_ops=(4, 40)),
    "C02": dict(check=10, order=2, arr=2, excess=2, init=3, mismatch=1, in_order=2, n_ops=(2, 24), rec=1, null=8, builtin=1, deep=60),
    "C03": dict(null=1, rec=6, builtin=5, excess=1, order=3, arr=2, mismatch=4, n_ops=(4, 36)),
    "C04": dict(order=5, arr=3, null=8, rec=1, builtin=1, excess=2, in_order=1, n_ops=(6, 40), out=1),
    "C05": dict(out=8, big=5, null=6, rec=1, builtin=1, order=2, arr=0, str=0, in_order=2, n_ops=(4, 30)),
    "C07": dict(burst=80, arr=8, str=8, check=3, excess=4, order=2, stack=1, rec=6, null=2, mismatch=8, init=2, n_ops=(4, 30)),
}


def feat_for(prop, src):
    f = dict(FEAT)
    if prop == "C05":
        f.update(ptr_bias=True)
    if prop == "C07":
        f.update(long_names=True)
    return f


def make_mocks(prop, src, ctx, dl=False, n_headers=None, copies=0):
    n = n_headers or src.weighted([(5, 1), (3, 2), (1, 3)])
    hs, huge = [], False
    same = dl and src.bool()
    stem = src.weighted([(4, None), (2, 0), (1, 30), (1, 100), (1, 250), (1, 600)])
    for i in range(n):
        g = hgen.Gen(src, dict(feat_for(prop, src), stem_names=stem), prefix="abcd"[i] + "_")
        hs.append(g.header("hdr.h" if same else "hdr%d.h" % i))
        huge = huge or g.huge_done
    m = rt.Mocks(ctx, hs, dl=dl, copies=copies)
    m.huge = huge
    for i, h in enumerate(hs):
        ctx.label("functions", len(h.funcs))
    return m


def finish_history(prop, src, hg, ops):
    """A fixed tail so that every history ends in an observation."""
    if src.bool(2, 3):
        hg.drain(ops, src.bool())
    if src.bool(3, 4):
        ops.append(rt.Op("check"))
    ops.append(rt.Op("arr"))
    ops.append(rt.Op("str"))


def one_history(prop, src, m, prof, n=None):
    hg = rt.HistGen(src, m, prof)
    ops = [rt.Op("init")]
    if prof.get("stack_off", True):
        ops.append(rt.Op("stack", val=0))
    if prop != "C04" or src.bool(1, 3):
        ops.append(rt.Op("order", val=int(src.bool(1, 3) if prop != "C04" else src.bool(2, 3))))
    hg.gen(ops, n)
    finish_history(prop, src, hg, ops)
    return ops


def nontrivial(prop, st):
    return {"C01": st.get("call", 0) >= 2 and st.get("expect", 0) >= 2,
            "C02": st.get("verdict0", 0) + st.get("verdict1", 0) >= 1 and st.get("call", 0) >= 1,
            "C03": st.get("matcher", 0) + st.get("builtin", 0) >= 2,
            "C04": st.get("order_err", 0) >= 1 or st.get("in_order", 0) >= 2,
            "C05": st.get("output", 0) >= 1,
            "C07": True}[prop]


def fail(prop, m, ops, bad, extra=""):
    files = {h.name: h.text() for h in m.headers}
    files["history.txt"] = "\n".join(map(repr, ops)) + "\n"
    detail = "; ".join("[%s] %s" % b for b in bad[:3]) + extra
    raise Violation(bad[0][0], detail, files)


def judge_histories(prop, ctx, m, hists, own, default_order=True):
    scripts = [rt.tokens(h, m) for h in hists]
    try:
        res = m.run(scripts)
    except Violation as v:
        v.files = {h.name: h.text() for h in m.headers}
        raise
    for h, r in zip(hists, res):
        mod = rt.Model(m, default_order)
        bad = rt.judge(mod, h, r)
        mine = [b for b in bad if b[0] in own]
        if mine:
            fail(prop, m, h, mine)
        if bad:
            ctx.label("other_aspect_" + bad[0][0])
        ctx.count()
        for k, v in mod.stats.items():
            ctx.label(k, v)
        yield h, mod, r


def generic(prop, src, ctx):
    m = make_mocks(prop, src, ctx)
    hists = [one_history(prop, src, m, PROFILES[prop]) for _ in range(src.int(4, 24))]
    for h, mod, r in judge_histories(prop, ctx, m, hists, OWN[prop]):
        if nontrivial(prop, mod.stats):
            ctx.hit((m.headers[0].text(), repr(h)))
        ctx.sample = {"header": m.headers[0].text()[:1500], "history": [repr(o) for o in h[:40]]}


def c01(src, ctx):
    generic("C01", src, ctx)


def c02(src, ctx):
    generic("C02", src, ctx)


def c03(src, ctx):
    generic("C03", src, ctx)


def c04(src, ctx):
    generic("C04", src, ctx)


def c05(src, ctx):
    generic("C05", src, ctx)


def c06(src, ctx):
    """A history after any other history and an initialisation behaves as in a fresh process."""
    m = make_mocks("C06", src, ctx)
    prof = dict(order=2, stack=0, excess=3, init=2, arr=2, str=2, check=3, out=3, mismatch=4, deep=30, n_ops=(3, 25))
    pairs = []
    for _ in range(src.int(3, 14)):
        hg = rt.HistGen(src, m, prof)
        pre = [rt.Op("stack", val=0)]
        if src.bool(5, 6):
            pre.append(rt.Op("init"))
        if src.bool():
            pre.append(rt.Op("order", val=int(src.bool())))
        hg.gen(pre)
        if src.bool():
            pre += [rt.Op("check"), rt.Op("arr")][:src.int(1, 2)]
        order = [o.val for o in pre if o.kind == "order"]
        post = [rt.Op("init"), rt.Op("switches")]
        hg2 = rt.HistGen(src, m, prof)
        hg2.slot = hg.slot
        if src.bool(1, 4):
            post.append(rt.Op("order", val=int(src.bool())))
        hg2.gen(post)
        finish_history("C06", src, hg2, post)
        # the reference: a fresh process with the same switches
        ref = [rt.Op("stack", val=0)] + ([rt.Op("order", val=order[-1])] if order else []) + post
        pairs.append((pre, post, ref))
    scripts = []
    for pre, post, ref in pairs:
        scripts += [rt.tokens(pre + post, m), rt.tokens(ref, m)]
    res = m.run(scripts)
    for i, (pre, post, ref) in enumerate(pairs):
        mod1, mod2 = rt.Model(m), rt.Model(m)
        bad2 = rt.judge(mod2, ref, res[2 * i + 1])
        bad1 = rt.judge(mod1, pre + post, res[2 * i])
        ctx.count()
        kinds2 = {b[0] for b in bad2}
        # judge only what is observed after the initialisation
        n = len(pre)
        late = [b for b in bad1 if b[0] not in kinds2 and (b[0] == "crash" or int(re.search(r"op (\d+)", b[1]).group(1)) >= n)]
        if late:
            fail("C06", m, pre + post, late)
        if bad1 or bad2:
            ctx.label("other_aspect")
        for k, v in mod1.stats.items():
            ctx.label(k, v)
        if len(pre) > 3:
            ctx.hit((m.headers[0].text(), repr(pre + post)))
        ctx.sample = {"before": [repr(o) for o in pre[:30]], "after": [repr(o) for o in post[:30]]}


def c07(src, ctx):
    m = make_mocks("C07", src, ctx)
    prof = PROFILES["C07"]
    hists, twins = [], []
    for _ in range(src.int(3, 16)):
        h = one_history("C07", src, m, prof)
        hists.append([o for o in h if o.kind != "stack" or o.val == 0])
        twins.append(src.bool(1, 8))
    scripts = []
    plan = []
    for h, tw in zip(hists, twins):
        plan.append(("plain", h, h))
        scripts.append(rt.tokens(h, m))
        # retrieving errors changes nothing: the same history with the retrievals in the middle removed or doubled
        quiet = [o for o in h[:-2] if o.kind not in ("arr", "str")] + h[-2:]
        noisy = []
        for o in h:
            noisy += [o, o] if o.kind in ("arr", "str") else [o]
            if o.kind == "call" and len(noisy) < 150:
                noisy.append(rt.Op("str"))
        plan += [("quiet", quiet, h), ("noisy", noisy, h)]
        scripts += [rt.tokens(quiet, m), rt.tokens(noisy, m)]
        if tw:
            st = [rt.Op("stack", val=1) if o.kind == "stack" else o for o in h][:14]
            if st[-1].kind != "arr":
                st.append(rt.Op("arr"))
            plan.append(("stack", st, h))
            scripts.append(rt.tokens(st, m))
    res = m.run(scripts, timeout=120)
    for (kind, h, orig), r in zip(plan, res):
        mod = JudgeC07(m, check_str=kind != "stack")
        bad = rt.judge(mod, h, r)
        bad = [b for b in bad if b[0] in OWN["C07"] | ({"ret", "verdict", "out", "seen"} if kind == "stack" else set())]
        if bad:
            fail("C07", m, h, bad, " (variant: %s)" % kind)
        ctx.count()
        ctx.label("variant_" + kind)
        ctx.label("errors", len(mod.expected_errors()))
        ctx.label("over_512_errors", int(mod.seen_errors > 512))
        if mod.seen_errors >= 2:
            ctx.hit((m.headers[0].text(), kind, repr(h)))
        ctx.sample = {"variant": kind, "history": [repr(o) for o in h[:30]], "errors": mod.seen_errors}


class JudgeC07(rt.Model):
    """Also relates the error string to the array, and the texts over time."""
    def __init__(self, m, check_str=True):
        super().__init__(m)
        self.check_str, self.seen, self.seen_errors, self.prev = check_str, None, 0, []

    def reset(self):
        super().reset()
        self.prev = []
        self.last_s = None

    def relate(self, texts, out, where):
        if texts[:len(self.prev)] != self.prev:
            out.append(("array", "%s: errors already retrieved have changed: %r" % (where, [(a[:200], b[:200]) for a, b in zip(self.prev, texts) if a != b][:2])))
        self.prev = texts
        self.seen_errors = max(self.seen_errors, len(texts))

    def judge_errors(self, n, nonnull, strs, end, out, where):
        super().judge_errors(n, nonnull, strs, end, out, where)
        self.relate(self.last_texts, out, where)
        if self.last_s is not None:
            parts = self.last_s
            if parts != "".join(t + "\n\r" for t in self.last_texts[:self.n_at_str]):
                out.append(("string", "%s: the error string is not the errors each followed by the separator: %r" % (where, parts[:500])))
            self.last_s = None

    def judge_str(self, s, out, where):
        super().judge_str(s, out, where)
        if s is not None:
            self.last_s = s.decode("latin1")
            self.n_at_str = len(self.expected_errors())


def c18(src, ctx):
    """Mocks of several headers loaded and unloaded at run time in any order."""
    n = src.int(2, 4)
    copies = src.choice([3, 9, 20, 40]) if src.bool(1, 10) else 0
    m = make_mocks("C18", src, ctx, dl=True, n_headers=n, copies=copies)
    n += copies
    prof = dict(order=1, stack=0, excess=1, init=2, arr=2, str=1, check=6, out=2, mismatch=2, deep=200, n_ops=(1, 8), in_order=2)
    hists, leaks = [], []
    for _ in range(src.int(2, 10)):
        hg = rt.HistGen(src, m, prof)
        hg.present = set()
        ops = [rt.Op("stack", val=0)]
        order_ok = True
        if copies and src.bool(3, 4):
            for g in src.sample(range(n), src.int(n // 2, n)):
                hg.present.add(g)
                ops.append(rt.Op("load", g=g))
        for step in range(src.int(2, 10)):
            absent = [g for g in range(n) if g not in hg.present]
            kinds = ([(3, "load")] if absent else []) + ([(2, "unload")] if hg.present else []) + ([(3, "ops")] if hg.present else []) + [(1, "init"), (1, "check")]
            k = src.weighted(kinds)
            if k == "load":
                g = src.choice(absent)
                hg.present.add(g)
                ops.append(rt.Op("load", g=g))
            elif k == "unload":
                g = src.choice(sorted(hg.present))
                hg.present.discard(g)
                ops.append(rt.Op("unload", g=g))
                if any(x[0] == g for x in hg.fifo):
                    # what the order check says about expectations that are gone is not specified
                    if src.bool():
                        ops.append(rt.Op("init"))
                        hg.reset()
                    else:
                        ops.append(rt.Op("order", val=0))
                        order_ok = False
                for d in (hg.pend, hg.n_exp):
                    for key in [x for x in d if x[0] == g]:
                        del d[key]
                hg.spoiled = {x for x in hg.spoiled if x[0] != g}
            elif k == "ops":
                hg.p["order"] = 1 if order_ok else 0
                hg.gen(ops)
            elif k == "init":
                ops.append(rt.Op("init"))
                hg.reset()
                if not order_ok:
                    ops.append(rt.Op("order", val=int(src.bool())))
                    order_ok = True
            else:
                ops += [rt.Op("check"), rt.Op("arr")]
        if hg.present:
            hg.drain(ops, src.bool())
        ops += [rt.Op("check"), rt.Op("arr"), rt.Op("str")]
        # unload everything left, in any order, and ask again
        for g in src.shuffled(sorted(hg.present)):
            ops += [rt.Op("unload", g=g)]
            if src.bool(1, 6):
                ops += [rt.Op("check"), rt.Op("arr")]
        ops += [rt.Op("init"), rt.Op("check"), rt.Op("arr")]
        hists.append(ops)
        # leaving the process with mocks loaded, which happens after the framework's own destructors
        cut = src.int(1, len(ops))
        hists.append(ops[:cut] + [rt.Op("exit")])
        # the same block again and again must not make the process grow
        block = [o for o in ops if o.kind not in ("arr", "str")] + [rt.Op("init"), rt.Op("bytes")]
        leaks.append(block)
    scripts = [rt.tokens(h, m) for h in hists] + [rt.tokens(b * 6, m) for b in leaks]
    res = m.run(scripts, timeout=120)
    own = {"ret", "unexp", "other", "crash", "verdict", "count", "order", "match", "seen", "out"}
    for h, r in zip(hists, res):
        mod = rt.Model(m)
        bad = [b for b in rt.judge(mod, h, r) if b[0] in own]
        if bad:
            fail("C18", m, h, bad)
        ctx.count()
        for k, v in mod.stats.items():
            ctx.label(k, v)
        ctx.label("exit_with_mocks_loaded", int(h[-1].kind == "exit" and bool(mod.present)))
        nu = sum(1 for i, o in enumerate(h) if o.kind == "unload" and any(x.kind in ("expect", "call") for x in h[i:]))
        ctx.label("unload_then_more", int(nu > 0))
        if nu and mod.stats.get("expect"):
            ctx.hit((m.headers[0].text(), repr(h)))
        ctx.sample = {"headers": n, "history": [repr(o) for o in h[:40]]}
    for b, (lines, died, err) in zip(leaks, res[len(hists):]):
        if died:
            fail("C18", m, b * 6, [("crash", died + err[-1500:])])
        bs = [int(l.split()[1]) for l in lines if l.startswith("B ")]
        ctx.label("leak_runs")
        if len(bs) == 6 and all(y > x for x, y in zip(bs[1:], bs[2:])):
            fail("C18", m, b, [("leak", "allocated bytes grow every time the history is repeated: %s" % bs)])


CHECKS = {
    "C18": dict(fn=c18, rule="case = mocks of 2-4 headers as shared libraries and 2-10 histories of load/unload/expect/call/check/init in any order against the reference model; every history is also repeated 6 times in one process, which must not grow (ASan byte count); non-trivial = something is unloaded and the history goes on; distinct by header and history"),
    "C01": dict(fn=c01, rule="case = 1-3 generated C headers mocked by the real generator, compiled with ASan/UBSan, and 4-24 histories of expect/call/check/init/switch operations, each in its own process, judged by a reference model of the queue; non-trivial = at least 2 expectations and 2 calls; distinct by header text and history"),
    "C02": dict(fn=c02, rule="as C01 with many verdicts; non-trivial = at least one call and one verdict"),
    "C03": dict(fn=c03, rule="as C01 with recording and built-in matchers on the parameters; non-trivial = at least 2 matchers run"),
    "C04": dict(fn=c04, rule="as C01 with expectations over several functions called in and out of order, switching the check; non-trivial = an out-of-order call or 2 calls in order while the check is on"),
    "C05": dict(fn=c05, rule="as C01 with output data on pointer parameters, every pointed-to object an exact-size heap block under ASan compared byte-wise after each call; non-trivial = at least one output written"),
    "C06": dict(fn=c06, rule="case = headers as C01 and 3-14 pairs (any history, initialisation, history) compared with the second history alone in a fresh process; non-trivial = the first history has more than 3 operations"),
    "C07": dict(fn=c07, rule="as C01 with long names and messages up to the documented maximum with format characters; every history also runs with retrievals removed and doubled, some with call stacks on; non-trivial = at least 2 errors retrieved"),
}
for c in CHECKS.values():
    c["shared"] = rt.shared
    c["quick"] = (400, 90)
    c["thorough"] = (20000, 600)
