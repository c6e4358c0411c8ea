"""Driver: seeded, sharded Hypothesis runs of JSON-case properties with evidence, replay and known findings."""

import argparse
import collections
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

SHARDS = 8
CASE_WALL = 120  # seconds; a case normally takes milliseconds
CASE_CPU = 60


class Violation(Exception):
    """The property does not hold for a case.  `finding` names a root cause that may be listed as known."""

    def __init__(self, message, finding=None):
        super().__init__(message)
        self.finding = finding


class Hang(BaseException):
    pass


class Inconclusive(Exception):
    """The case decides nothing (counted, never a pass or a violation)."""


class HarnessError(Exception):
    pass


class Ctx:
    """Per-shard record of what was generated."""

    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.labels = collections.Counter()
        self.samples = []
        self.known = collections.Counter()
        self.inconclusive = 0
        self._nt = False
        self._labels = set()

    def nontrivial(self):
        self._nt = True

    def label(self, *names):
        self._labels.update(names)


class Prop:
    """One executable statement.

    strategy: Hypothesis strategy of JSON cases; check(case, ctx) raises Violation.
    quick/thorough: cases over all shards together.
    """

    def __init__(self, name, strategy, check, quick, thorough=None, setup=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough or quick * 8
        self.setup = setup


def canon(x):
    return json.dumps(x, sort_keys=True, default=repr)


HARNESS_EXC = (HarnessError, MemoryError, ImportError, KeyboardInterrupt)


def _alarm(signum, frame):
    raise Hang("case did not finish within %d s wall / %d s CPU" % (CASE_WALL, CASE_CPU))


def run_case(prop, case, ctx):
    """Raise Violation if the case breaks the property."""
    ctx._nt, ctx._labels = False, set()
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU)
    try:
        prop.check(case, ctx)
    except (Violation, Inconclusive):
        raise
    except Hang as e:
        raise Violation("hang: %s" % e) from e
    except HARNESS_EXC:
        raise
    except Exception as e:  # noqa: BLE001
        # an exception nobody expected while the code under test ran, or while its result was examined
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-14:])
        raise Violation("unexpected %s: %s\n%s" % (type(e).__name__, e, tb)) from e
    except SystemExit as e:
        raise Violation("unexpected SystemExit %s" % e.code) from e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def load_known(here):
    path = os.path.join(here, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def known_ids(here, pid):
    return {k["id"] for k in load_known(here) if k["property"] == pid and k["status"] == "open"}


def run_shard(pid, mod, tier, seed, shard, nshards, out, here, budget, only=None):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    known = known_ids(here, pid)
    result = {"props": {}, "violation": None}
    deadline = time.time() + budget

    def dump():
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(result, f, default=repr)
        os.rename(tmp, out)

    for prop in mod.PROPS:
        if only and prop.name not in only:
            continue
        total = prop.quick if tier == "quick" else prop.thorough
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        n = int(total * scale)
        n = n // nshards + (1 if shard < n % nshards else 0)
        if n <= 0:
            continue
        ctx = Ctx()
        if prop.setup:
            prop.setup()
        best = {}
        state = {"fail_at": None}
        pseed = int.from_bytes(hashlib.sha256(f"{seed}/{shard}/{prop.name}".encode()).digest()[:6], "big")
        t0 = time.time()

        def finish_violation():
            result["violation"] = {"prop": prop.name, "case": best["case"], "message": best["message"]}
            record()
            dump()

        def record():
            result["props"][prop.name] = {
                "evaluations": ctx.evaluations, "hashes": sorted(ctx.hashes), "labels": dict(ctx.labels),
                "samples": ctx.samples, "known": dict(ctx.known), "inconclusive": ctx.inconclusive,
                "wall": time.time() - t0,
            }

        def body(case):
            now = time.time()
            if state["fail_at"] is None and now > deadline:
                ctx.labels["skipped: time budget"] += 1
                return
            if state["fail_at"] is not None and now > state["fail_at"] + 45:
                finish_violation()
                sys.stdout.flush()
                os._exit(0)
            try:
                run_case(prop, case, ctx)
            except Inconclusive:
                if state["fail_at"] is None:
                    ctx.evaluations += 1
                    ctx.inconclusive += 1
                return
            except Violation as v:
                if v.finding and v.finding in known:
                    if state["fail_at"] is None:
                        ctx.evaluations += 1
                        ctx.known[v.finding] += 1
                    return
                size = len(canon(case))
                if "case" not in best or size <= best["size"]:
                    best.update(case=case, message=str(v), size=size)
                if state["fail_at"] is None:
                    state["fail_at"] = time.time()
                raise AssertionError("violation") from None
            if state["fail_at"] is None:
                ctx.evaluations += 1
                for lab in ctx._labels:
                    ctx.labels[lab] += 1
                if ctx._nt:
                    h = hashlib.sha1(canon(case).encode()).hexdigest()[:14]
                    if h not in ctx.hashes:
                        ctx.hashes.add(h)
                        k = len(ctx.hashes)
                        if k in (2, 15, 90):
                            s = canon(case)
                            ctx.samples.append({"prop": prop.name, "case": case if len(s) < 3000 else s[:3000] + "…"})

        test = hypothesis.given(prop.strategy)(body)
        test = settings(
            max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
        )(test)
        test = hypothesis.seed(pseed)(test)
        try:
            test()
        except Exception as e:  # noqa: BLE001
            if "case" not in best:
                raise
            if not isinstance(e, AssertionError):
                best["message"] += "\n[shrinker: %s]" % type(e).__name__
        if "case" in best:
            finish_violation()
            return
        record()
    dump()


def evidence(here, pid, tier, seed, mod, results, wall, violations, known_lines):
    props = collections.defaultdict(lambda: {"evaluations": 0, "hashes": set(), "labels": collections.Counter(),
                                             "samples": [], "known": collections.Counter(), "inconclusive": 0})
    for r in results:
        for name, d in r["props"].items():
            p = props[name]
            p["evaluations"] += d["evaluations"]
            p["hashes"] |= set(d["hashes"])
            p["labels"].update(d["labels"])
            p["samples"] += d["samples"]
            p["known"].update(d["known"])
            p["inconclusive"] += d["inconclusive"]
    samples = []
    for p in props.values():
        samples += p["samples"][:3]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in props.values()),
            "distinct_nontrivial": sum(len(p["hashes"]) for p in props.values()),
            "rule": mod.RULE,
            "samples": samples,
            "per_check": {n: {"evaluations": p["evaluations"], "distinct_nontrivial": len(p["hashes"]),
                              "inconclusive": p["inconclusive"], "known_findings_hit": dict(p["known"]),
                              "classes": dict(sorted(p["labels"].items()))} for n, p in props.items()},
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    if known_lines:
        ev["known_findings"] = known_lines
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    with open(os.path.join(here, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write("\n")
    return ev


def scratch_env():
    scratch = tempfile.mkdtemp(prefix="verif-")
    env = dict(os.environ)
    for k in ("PYTHONPATH", "PYTHONHOME", "XDG_CACHE_HOME"):
        env.pop(k, None)
    os.makedirs(os.path.join(scratch, "home"))
    os.makedirs(os.path.join(scratch, "tmp"))
    env.update(HOME=os.path.join(scratch, "home"), TMPDIR=os.path.join(scratch, "tmp"), LC_ALL="C.UTF-8",
               PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", VERIF_SCRATCH=scratch, TZ="UTC",
               PYTHONPYCACHEPREFIX=os.path.join(scratch, "nopyc"), PYTHONWARNINGS="ignore")
    return scratch, env


def check_repo(repo):
    import cwl_utils

    want = os.path.realpath(os.path.join(repo, "src", "cwl_utils"))
    got = [os.path.realpath(p) for p in cwl_utils.__path__]
    if got != [want]:
        raise HarnessError("cwl_utils comes from %s, not %s" % (got, want))


def replay(mod, pid, path):
    with open(path) as f:
        rec = json.load(f)
    prop = {p.name: p for p in mod.PROPS}[rec["prop"]]
    if prop.setup:
        prop.setup()
    try:
        run_case(prop, rec["case"], Ctx())
    except Inconclusive as e:
        print("inconclusive:", e)
        return 0
    except Violation as v:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print(v)
        if v.finding:
            print("finding:", v.finding)
        return 1
    print("replay: the property holds for this case")
    return 0


def main(argv, here, repo):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--shard")
    ap.add_argument("--out")
    ap.add_argument("--only", action="append")
    ap.add_argument("--replay")
    ap.add_argument("--finding", help="internal: replay the listed known findings of the property")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if a.tier == "thorough" else "quick"
    budget = 300 if tier == "quick" else 3 * 3600

    if a.replay or a.shard or a.finding:
        if a.replay and not os.environ.get("VERIF_SCRATCH"):
            scratch, env = scratch_env()
            try:
                return subprocess.run([sys.executable] + sys.argv, env=env).returncode
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
        check_repo(repo)
        if a.replay:
            with open(a.replay) as f:
                pid = json.load(f)["property"]
            return replay(importlib.import_module("checks." + pid.lower()), pid, a.replay)
        mod = importlib.import_module("checks." + a.property.lower())
        if a.finding:
            byname = {p.name: p for p in mod.PROPS}
            out = []
            for k in load_known(here):
                if k["property"] != a.property or k["status"] != "open":
                    continue
                prop = byname[k["prop"]]
                if prop.setup:
                    prop.setup()
                try:
                    run_case(prop, k["case"], Ctx())
                    out.append([k["id"], "no longer fails"])
                except Inconclusive:
                    out.append([k["id"], "inconclusive"])
                except Violation as v:
                    out.append([k["id"], "fails" if v.finding == k["id"] else "other: %s" % v])
            with open(a.out, "w") as f:
                json.dump(out, f)
            return 0
        i, n = map(int, a.shard.split("/"))
        run_shard(a.property, mod, tier, seed, i, n, a.out, here, budget, a.only)
        return 0

    pid = a.property
    t0 = time.time()
    scratch, env = scratch_env()
    procs = []

    def cleanup(*_):
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        for p in procs:
            p.wait()
        shutil.rmtree(scratch, ignore_errors=True)

    signal.signal(signal.SIGTERM, lambda *_: (cleanup(), os._exit(3)))
    try:
        known_lines = []
        open_findings = [k for k in load_known(here) if k["property"] == pid and k["status"] == "open"]
        violation = None
        if open_findings:
            out = os.path.join(scratch, "findings.json")
            r = subprocess.run([sys.executable, sys.argv[0], pid, "--finding", "all", "--out", out], env=env,
                               capture_output=True, text=True)
            if r.returncode != 0:
                print(r.stdout[-3000:], r.stderr[-5000:], file=sys.stderr)
                return 2
            with open(out) as f:
                status = dict(json.load(f))
            for k in open_findings:
                if status[k["id"]] == "fails":
                    line = "KNOWN-FINDING: property=%s %s" % (pid, k["what"])
                    known_lines.append(line)
                    print(line)
                elif status[k["id"]].startswith("other: "):
                    violation = violation or {"prop": k["prop"], "case": k["case"], "message": status[k["id"]]}
        logs = []
        outs = []
        for i in range(SHARDS):
            out = os.path.join(scratch, "shard%d.json" % i)
            log = open(os.path.join(scratch, "shard%d.log" % i), "w+")
            cmd = [sys.executable, sys.argv[0], pid, "--tier", tier, "--shard", "%d/%d" % (i, SHARDS), "--out", out]
            for o in a.only or []:
                cmd += ["--only", o]
            senv = dict(env)
            senv["TMPDIR"] = os.path.join(scratch, "tmp%d" % i)
            os.makedirs(senv["TMPDIR"])
            procs.append(subprocess.Popen(cmd, env=senv, stdout=log, stderr=subprocess.STDOUT, start_new_session=True,
                                          stdin=subprocess.DEVNULL, cwd=senv["TMPDIR"]))
            logs.append(log)
            outs.append(out)
        results = [None] * SHARDS
        pending = set(range(SHARDS))
        errors = []
        while pending:
            for i in sorted(pending):
                rc = procs[i].poll()
                if rc is None:
                    continue
                pending.discard(i)
                if os.path.exists(outs[i]):
                    with open(outs[i]) as f:
                        results[i] = json.load(f)
                    if results[i]["violation"] and not violation:
                        violation = results[i]["violation"]
                else:
                    logs[i].seek(0)
                    errors.append("shard %d ended with %s\n%s" % (i, rc, logs[i].read()[-4000:]))
            if violation:
                break
            time.sleep(0.1)
        done = [r for r in results if r]
        mod = importlib.import_module("checks." + pid.lower())
        ev = evidence(here, pid, tier, seed, mod, done, time.time() - t0, 1 if violation else 0, known_lines)
        if violation:
            os.makedirs(os.path.join(here, "replays"), exist_ok=True)
            digest = hashlib.sha1(canon(violation["case"]).encode()).hexdigest()[:10]
            path = os.path.join(here, "replays", "%s-%s-%s.json" % (pid, violation["prop"], digest))
            with open(path, "w") as f:
                json.dump({"property": pid, "prop": violation["prop"], "case": violation["case"],
                           "message": violation["message"], "tier": tier, "seed": seed}, f, indent=1)
            print(violation["message"][:3000])
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, here)))
            return 1
        if errors:
            for e in errors:
                print(e, file=sys.stderr)
            return 2
        c = ev["coverage"]
        print("%s %s: %d cases, %d distinct non-trivial, %.1f s" % (pid, tier, c["evaluations"], c["distinct_nontrivial"],
                                                                   time.time() - t0))
        if os.environ.get("VERIF_VERBOSE"):
            print(json.dumps(c["per_check"], indent=1))
        return 0
    finally:
        cleanup()
