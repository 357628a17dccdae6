"""A small property-based testing engine with integrated shrinking.

A case is a sequence of bounded integers ("choices") drawn through Src; the generators of the checks
draw everything through it, so a failing case is shrunk by editing its choice sequence and replayed
from it. Case number i of a run is a pure function of (property, VERIF_SEED, i)."""
import hashlib, json, multiprocessing as mp, os, queue, random, shutil, signal, sys, tempfile, time, traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property is broken by this case. `kind` groups failures while shrinking."""
    def __init__(self, kind, detail, files=None):
        super().__init__(kind + ": " + detail)
        self.kind, self.detail, self.files = kind, detail, files or {}


class Inconclusive(Exception):
    pass


class Src:
    def __init__(self, rng=None, replay=None):
        self.rng, self.replay, self.pos, self.rec = rng, replay, 0, []

    def draw(self, n):
        """An integer in [0, n); shrinks towards 0."""
        assert n >= 1, n
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            v = min(max(v, 0), n - 1)
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def bool(self, num=1, den=2):
        """True with probability num/den; shrinks towards False."""
        return self.draw(den) >= den - num

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: (weight, value); shrinks towards the first."""
        total = sum(w for w, _ in pairs)
        k = self.draw(total)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise AssertionError

    def sample(self, seq, k):
        pool = list(seq)
        return [pool.pop(self.draw(len(pool))) for _ in range(min(k, len(pool)))]

    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.bool(num, den)]

    def shuffled(self, seq):
        return self.sample(seq, len(seq))


class Ctx:
    """Given to the property: scratch directory, labels, tier, shared objects built beforehand."""
    def __init__(self, prop, tier, seed, shared):
        self.prop, self.tier, self.seed, self.shared = prop, tier, seed, shared
        self.labels, self.subcases, self.sample, self.replaying = Counter(), 0, None, False
        self.nontrivial = []
        self.work = None
        self._base = tempfile.mkdtemp(prefix="em_%s_" % prop, dir=os.environ.get("EM_TMP", "/tmp"))
        self._n = 0

    def fresh_dir(self):
        self._n += 1
        if self.work:
            shutil.rmtree(self.work, ignore_errors=True)
        self.work = os.path.join(self._base, "c%d" % self._n)
        os.makedirs(self.work)
        return self.work

    def label(self, name, n=1):
        self.labels[name] += n

    def count(self, n=1):
        """n more evaluated (sub)cases."""
        self.subcases += n

    def hit(self, key):
        """A non-trivial (sub)case, identified by key."""
        self.nontrivial.append(hashlib.sha1(repr(key).encode()).digest()[:8])

    def close(self):
        shutil.rmtree(self._base, ignore_errors=True)


def run_case(fn, src, ctx):
    """Returns None or the Violation."""
    ctx.fresh_dir()
    try:
        fn(src, ctx)
    except Violation as v:
        return v
    return None


def shrink(fn, ctx, choices, viol, seconds):
    end = time.time() + seconds
    best, bv = list(choices), viol
    saved = (ctx.labels, ctx.subcases, ctx.nontrivial, ctx.sample)
    ctx.labels, ctx.subcases, ctx.nontrivial, ctx.sample = Counter(), 0, [], None

    def attempt(c):
        nonlocal best, bv
        if time.time() > end:
            return False
        s = Src(replay=c)
        try:
            v = run_case(fn, s, ctx)
        except Exception:
            return False
        if v is not None and v.kind == bv.kind:
            r = s.rec
            while r and r[-1] == 0:
                r = r[:-1]
            if (len(r), r) < (len(best), best):
                best, bv = r, v
                return True
        return False
    improved = True
    while improved and time.time() < end:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                else:
                    i += size
            size //= 2
        i = 0
        while i < len(best) and time.time() < end:
            if best[i]:
                if attempt(best[:i] + [0] + best[i + 1:]):
                    improved = True
                elif best[i] > 1:
                    lo, hi = 0, best[i]
                    while lo + 1 < hi and time.time() < end and i < len(best):
                        mid = (lo + hi) // 2
                        if attempt(best[:i] + [mid] + best[i + 1:]):
                            hi = mid
                            improved = True
                        else:
                            lo = mid
            i += 1
    ctx.labels, ctx.subcases, ctx.nontrivial, ctx.sample = saved
    return best, bv


def _worker(w, nw, fn, prop, tier, seed, n_cases, deadline, shared, q, stop, shrink_s):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    ctx = Ctx(prop, tier, seed, shared)
    out = {"cases": 0, "inconclusive": 0, "notes": [], "samples": [], "viol": None, "timeup": False, "error": None}
    try:
        i = w
        while i < n_cases and not stop.is_set():
            if time.time() > deadline:
                out["timeup"] = True
                break
            src = Src(rng=random.Random("%s/%d/%d" % (prop, seed, i)))
            ctx.sample = None
            ctx.seen = len(ctx.nontrivial)
            try:
                v = run_case(fn, src, ctx)
            except Inconclusive as e:
                out["inconclusive"] += 1
                if len(out["notes"]) < 3:
                    out["notes"].append("case %d: %s" % (i, str(e)[:500]))
                i += nw
                continue
            except Exception:
                out["inconclusive"] += 1
                out["error"] = traceback.format_exc()[-4000:]
                i += nw
                continue
            out["cases"] += 1
            if v is not None:
                # does it reproduce from its choices?
                again = 0
                for _ in range(3):
                    try:
                        if run_case(fn, Src(replay=list(src.rec)), ctx) is not None:
                            again += 1
                    except Inconclusive:
                        pass
                if again == 3:
                    if not stop.is_set():
                        stop.set()
                        c, v2 = shrink(fn, ctx, src.rec, v, shrink_s)
                        # the shrunk one must reproduce 3 times too; else fall back on the original
                        ok = True
                        for _ in range(3):
                            try:
                                r = run_case(fn, Src(replay=list(c)), ctx)
                            except Exception:
                                r = None
                            if r is None or r.kind != v2.kind:
                                ok = False
                        if not ok:
                            c, v2 = src.rec, v
                        out["viol"] = {"case": i, "choices": c, "kind": v2.kind, "detail": v2.detail, "files": v2.files}
                    break
                out["inconclusive"] += 1
                out["notes"].append("case %d failed once but %d/3 on replay: %s" % (i, again, str(v)[:800]))
            elif len(out["samples"]) < 2 and ctx.sample is not None and len(ctx.nontrivial) > ctx.seen:
                out["samples"].append(ctx.sample)
            i += nw
    except BaseException:
        out["error"] = traceback.format_exc()[-4000:]
    finally:
        ctx.close()
    out["labels"] = dict(ctx.labels)
    out["subcases"] = ctx.subcases
    out["nontrivial"] = sorted(set(ctx.nontrivial))
    q.put((w, out))


def explore(fn, prop, tier, seed, n_cases, budget_s, shared=None, workers=None, shrink_s=45):
    """Runs the property over n_cases generated cases (or until the time budget ends the generation)."""
    nw = workers or int(os.environ.get("EM_WORKERS", os.cpu_count() or 4))
    nw = min(nw, n_cases)
    deadline = time.time() + budget_s
    mpc = mp.get_context("fork")
    q, stop = mpc.Queue(), mpc.Event()
    ps = [mpc.Process(target=_worker, args=(w, nw, fn, prop, tier, seed, n_cases, deadline, shared, q, stop, shrink_s), daemon=False)
          for w in range(nw)]
    for p in ps:
        p.start()
    res, lost = [], 0
    t_end = deadline + shrink_s + 240
    pending = set(range(nw))
    while pending:
        try:
            w, o = q.get(timeout=2)
            res.append(o)
            pending.discard(w)
        except queue.Empty:
            for w in list(pending):
                if not ps[w].is_alive() and q.empty():
                    pending.discard(w)
                    lost += 1
            if time.time() > t_end:
                for w in pending:
                    ps[w].kill()
                    lost += 1
                break
    for p in ps:
        p.join(timeout=5)
    agg = {"cases": sum(o["cases"] for o in res), "inconclusive": sum(o["inconclusive"] for o in res),
           "notes": [n for o in res for n in o["notes"]][:8], "samples": [s for o in res for s in o["samples"]][:5],
           "timeup": any(o["timeup"] for o in res), "errors": [o["error"] for o in res if o["error"]], "lost_workers": lost,
           "subcases": sum(o["subcases"] for o in res), "labels": Counter(), "n_planned": n_cases}
    nt = set()
    for o in res:
        agg["labels"].update(o["labels"])
        nt.update(o["nontrivial"])
    agg["distinct_nontrivial"] = len(nt)
    vs = sorted((o["viol"] for o in res if o["viol"]), key=lambda v: (len(v["choices"]), v["case"]))
    agg["viol"] = vs[0] if vs else None
    return agg
