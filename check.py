#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] [--setup]
Runs the check of one property; see DESIGN.md."""
import importlib, json, os, shutil, subprocess, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import build, pbt

VERIF = build.VERIF
MODULES = ["checks_rt", "checks_fw", "checks_cmd", "checks_ir", "checks_sel", "checks_decl", "checks_cmp", "checks_rob", "checks_cpp"]


def load():
    reg = {}
    for m in MODULES:
        reg.update(importlib.import_module("vlib." + m).CHECKS)
    return reg


def findings(prop):
    """Known findings: lines 'open: property=<id> finding=<name> ...' of findings/FINDINGS."""
    out = []
    try:
        for line in open(os.path.join(VERIF, "findings", "FINDINGS")):
            line = line.strip()
            if line.startswith("open: property=%s " % prop):
                name = line.split("finding=", 1)[1].split(" ", 1)[0]
                out.append((name, line.split(" -- ", 1)[1] if " -- " in line else ""))
    except OSError:
        pass
    return out


def finding_fails(prop, name):
    """Runs findings/<id>/<name>.sh in a scratch directory; its exit status is nonzero when the finding still fails."""
    path = os.path.join(VERIF, "findings", prop, name + ".sh")
    d = tempfile.mkdtemp(prefix="em_find_")
    try:
        env = dict(os.environ, GEN=build.generator("plain"), FWINC=build.FW_INC, FWLIB=build.framework("plain"))
        return subprocess.run(["bash", path], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                              stderr=subprocess.DEVNULL, timeout=60).returncode != 0
    except subprocess.TimeoutExpired:
        return True
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write_replay(prop, v, seed, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%d.json" % (prop, seed))
    with open(path, "w") as f:
        json.dump(dict(property=prop, seed=seed, tier=tier, **v), f, indent=1)
    return path


def main():
    args = sys.argv[1:]
    reg = load()
    if args and args[0] == "--setup":
        try:
            for v in ("plain", "asan"):
                build.generator(v)
                build.framework(v)
        except build.BuildError as e:
            print(e)
        return 0
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    chk = reg[prop]
    t0 = time.time()
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "violations": 0,
          "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": chk["rule"], "samples": []}}
    viol = None
    try:
        shared = chk["shared"]()
    except build.BuildError as e:
        viol = {"case": -1, "choices": [], "kind": "build", "detail": "what the check needs from /repo does not build: " + str(e)[-1500:], "files": {}}
        shared = None
    if shared is not None and "--replay" in args:
        r = json.load(open(args[args.index("--replay") + 1]))
        ctx = pbt.Ctx(prop, tier, r["seed"], shared)
        ctx.replaying = True
        try:
            v = pbt.run_case(chk["fn"], pbt.Src(replay=r["choices"]), ctx)
        finally:
            ctx.close()
        if v is None:
            print("replay: the property held on this case")
            return 0
        print("VIOLATION property=%s replay=%s" % (prop, args[args.index("--replay") + 1]))
        print(v.kind + ": " + v.detail)
        return 1
    if shared is not None:
        known = []
        for name, what in findings(prop):
            if not finding_fails(prop, name):
                print("note: the known finding %s of %s does not fail any more" % (name, prop))
                continue
            known.append(name)
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, name, what))
        n, budget = chk[tier]
        budget = float(os.environ.get("EM_BUDGET", budget))
        n = int(os.environ.get("EM_CASES", n))
        agg = pbt.explore(chk["fn"], prop, tier, seed, n, budget, shared)
        viol = agg["viol"]
        if "post" in chk and viol is None:
            viol = chk["post"](agg, shared)
        tried = agg["cases"] + agg["inconclusive"]
        if viol is None and agg["errors"]:
            print("internal error in a worker (case skipped):\n" + agg["errors"][0])
        if viol is None and (tried == 0 or agg["inconclusive"] > 0.5 * tried + 3):
            viol = {"case": -1, "choices": [], "kind": "cannot-exercise", "files": {},
                    "detail": "%d of %d generated cases could not be exercised at all: %s" % (agg["inconclusive"], tried, agg["notes"][:3])}
        cov = ev["coverage"]
        cov["evaluations"] = agg["subcases"] or agg["cases"]
        cov["distinct_nontrivial"] = agg["distinct_nontrivial"]
        cov["samples"] = agg["samples"]
        cov["cases"] = agg["cases"]
        cov["inconclusive"] = agg["inconclusive"]
        cov["labels"] = dict(sorted(agg["labels"].items()))
        cov["notes"] = agg["notes"]
        cov["stopped_by_time"] = agg["timeup"]
        cov["known_findings"] = known
        if agg["errors"]:
            cov["worker_errors"] = [e[-600:] for e in agg["errors"]][:3]
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["violations"] = 1 if viol else 0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if viol:
        path = write_replay(prop, viol, seed, tier)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("%s: %s" % (viol["kind"], viol["detail"]))
        return 1
    c = ev["coverage"]
    print("%s ok: %d evaluations, %d distinct non-trivial, %d cases, %d inconclusive, %.1f s %s"
          % (prop, c["evaluations"], c["distinct_nontrivial"], c.get("cases", 0), c.get("inconclusive", 0), ev["wall_s"], c["labels"]))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
