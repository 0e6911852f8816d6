"""Campaign engine shared by every check.

A check is a list of `Family` objects.  A family couples a Hypothesis strategy producing
plain JSON-able cases with a `run(case)` oracle which returns an `Info` (labels, whether the
case is non-trivial, a printable sample) or raises `Violation`.  The engine spreads a fixed
number of cases over forked workers (each seeded from VERIF_SEED, family and worker number),
shrinks the first failure of each worker, writes replay files and the evidence file, and
turns everything which is not a decision about the property (harness error, vacuous
campaign) into an exit code which is neither 0 nor 1.
"""
import collections
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
WORKERS = int(os.environ.get("ACETONE_PBT_WORKERS", "8"))


class Violation(Exception):
    """The property does not hold on this case."""


class Reject(Exception):
    """The case is outside of the domain of the property (ill conditioned, ...)."""


class Info:
    def __init__(self, labels=(), nontrivial=True, sample=None, counters=None):
        self.labels = list(labels)
        self.nontrivial = bool(nontrivial)
        self.sample = sample
        self.counters = counters or {}


class Family:
    """name; strategy: () -> SearchStrategy; run: case -> Info; quick/thorough: case counts."""

    def __init__(self, name, strategy, run, quick, thorough=None, min_nontrivial=0.3, known=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.min_nontrivial = min_nontrivial
        # known: (case, message) -> id of a listed known finding or None
        self.known = known


class Check:
    def __init__(self, pid, title, rule, families, assumptions=(), setup=None):
        self.id, self.title, self.rule, self.families = pid, title, rule, families
        self.assumptions = list(assumptions)
        self.setup = setup

    def family(self, name):
        for f in self.families:
            if f.name == name:
                return f
        raise KeyError(name)


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def digest(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


def derive(*parts):
    h = hashlib.sha256("/".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "big")


# ------------------------------------------------------------------ worker
class _Endless(BaseException):
    pass


def _limited(run, case, seconds=200):
    """run(case), a violation when it uses that much CPU time: cases take less than a few seconds."""
    def stop(*_):
        raise _Endless

    old = signal.signal(signal.SIGPROF, stop)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        return run(case)
    except _Endless:
        raise Violation(f"no end after {seconds} s of computation") from None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def _campaign(check, fam, n, seed_value, shrink_budget, deadline):
    """Run one family for n cases in this process. Returns a JSON-able result."""
    from hypothesis import HealthCheck, Phase, given, seed, settings

    from .cgen import Hung

    res = {"family": fam.name, "evaluations": 0, "rejected": 0, "inconclusive": 0, "nontrivial": [],
           "labels": collections.Counter(), "samples": [], "violation": None, "error": None,
           "counters": collections.Counter(), "skipped_time": 0, "known": {}}
    seen = set()
    state = {"best": None, "t_fail": None}

    class _Stop(Exception):
        pass

    def body(case):
        now = time.time()
        if state["t_fail"] is None and now > deadline:
            res["skipped_time"] += 1
            return
        if state["t_fail"] is not None and now - state["t_fail"] > shrink_budget:
            return      # out of shrinking budget: keep the best failure so far
        shrinking = state["t_fail"] is not None
        try:
            info = _limited(fam.run, case)
        except Violation as v:
            msg = str(v)
            kid = fam.known(case, msg) if fam.known else None
            if kid:
                res["known"].setdefault(kid, msg[:400])
                return
            size = len(canon(case))
            if state["best"] is None or size <= state["best"][0]:
                state["best"] = (size, json.loads(canon(case)), msg)
            if state["t_fail"] is None:
                state["t_fail"] = now
            raise
        except Reject:
            if not shrinking:
                res["rejected"] += 1
            return
        except Hung:
            if not shrinking:
                res["inconclusive"] += 1
            return
        if shrinking:
            return
        res["evaluations"] += 1
        for lab in info.labels:
            res["labels"][lab] += 1
        for k, v in info.counters.items():
            res["counters"][k] += v
        if info.nontrivial:
            d = digest(case)
            if d not in seen:
                seen.add(d)
                res["nontrivial"].append(d)
                if len(res["samples"]) < 3:
                    res["samples"].append(info.sample if info.sample is not None else case)

    @seed(seed_value)
    @settings(max_examples=n, database=None, deadline=None, derandomize=False,
              suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
              phases=[Phase.generate, Phase.shrink], print_blob=False)
    @given(fam.strategy())
    def test(case):
        body(case)

    try:
        test()
    except Violation:
        pass
    except BaseException as e:  # noqa: BLE001
        if state["best"] is None:
            res["error"] = "".join(traceback.format_exception(e))[-3000:]
    if state["best"] is not None:
        res["violation"] = {"case": state["best"][1], "message": state["best"][2]}
        res["evaluations"] += 1
    res["labels"] = dict(res["labels"])
    res["counters"] = dict(res["counters"])
    return res


def _worker(check, w, plan, seed_base, tier, deadline, fd):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    try:
        import torch
        torch.set_num_threads(1)
    except Exception:  # noqa: BLE001
        pass
    out = []
    for fam, n in plan:
        s = derive(seed_base, check.id, fam.name, w)
        random.seed(s)
        budget = 45 if tier == "quick" else 180
        try:
            out.append(_campaign(check, fam, n, s, budget, deadline))
        except BaseException as e:  # noqa: BLE001
            out.append({"family": fam.name, "error": "".join(traceback.format_exception(e))[-3000:]})
    data = json.dumps(out).encode()
    with os.fdopen(fd, "wb") as f:
        f.write(data)


# ------------------------------------------------------------------ known findings
def load_known(pid):
    p = VERIF / "known_findings.jsonl"
    out = []
    if p.exists():
        for line in p.read_text().splitlines():
            if line.strip():
                k = json.loads(line)
                if k.get("property") == pid:
                    out.append(k)
    return out


def run_one(check, famname, case):
    """Run one stored case. Returns (violated, message)."""
    from .cgen import Hung
    fam = check.family(famname)
    try:
        fam.run(case)
    except Violation as v:
        return True, str(v)
    except (Reject, Hung) as e:
        return None, f"{type(e).__name__}: {e}"
    return False, ""


def main(check, tier=None, replay=None, only=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed_base = int(os.environ.get("VERIF_SEED", "1") or 1)
    if check.setup:
        check.setup()
    if replay:
        r = json.loads(Path(replay).read_text())
        bad, msg = run_one(check, r["family"], r["case"])
        print(f"replay {replay}: {'VIOLATED' if bad else 'held' if bad is False else 'not applicable'}")
        if bad:
            print(msg)
            print(f"VIOLATION property={check.id} replay={replay}")
        return 1 if bad else 0 if bad is False else 2

    scale = float(os.environ.get("ACETONE_PBT_SCALE", "1"))
    cap = float(os.environ.get("ACETONE_PBT_CAP", 540 if tier == "quick" else 7200))
    deadline = t0 + cap
    fams = [f for f in check.families if only is None or f.name in only]
    known = load_known(check.id)
    violations = []
    errors = []
    notes = []

    # 1. committed regression cases and known findings
    ncorpus = 0
    for k in known:
        if "case" not in k:
            continue
        if only and k["family"] not in only:
            continue
        try:
            bad, msg = run_one(check, k["family"], k["case"])
        except Exception as e:  # noqa: BLE001
            errors.append(f"known finding {k['id']}: " + "".join(traceback.format_exception(e))[-1500:])
            continue
        ncorpus += 1
        if k["status"] == "known":
            if bad:
                print(f"KNOWN-FINDING: property={check.id} {k['id']}: {k['what']}")
            else:
                notes.append(f"known finding {k['id']} did not reproduce")
        elif bad:
            violations.append({"family": k["family"], "case": k["case"], "message": f"[{k['id']}] {msg}"})
    corpus = VERIF / "corpus" / check.id
    for p in sorted(corpus.glob("*.json")) if corpus.exists() else []:
        r = json.loads(p.read_text())
        if only and r["family"] not in only:
            continue
        try:
            bad, msg = run_one(check, r["family"], r["case"])
        except Exception as e:  # noqa: BLE001
            errors.append(f"corpus {p.name}: " + "".join(traceback.format_exception(e))[-1500:])
            continue
        ncorpus += 1
        if bad:
            violations.append({"family": r["family"], "case": r["case"], "message": f"[corpus {p.stem}] {msg}"})

    # 2. generated campaigns
    procs = []
    for w in range(WORKERS):
        plan = []
        for f in fams:
            total = max(1, int((f.quick if tier == "quick" else f.thorough) * scale))
            # small families go to a few workers, each of them with enough cases to leave the simplest ones
            k = min(WORKERS, max(1, total // 12))
            pos = (w - derive(f.name) % WORKERS) % WORKERS
            n = total // k + (1 if pos < total % k else 0) if pos < k else 0
            if n:
                plan.append((f, n))
        # rotate so that workers do not all run the same family at once
        plan = plan[w % max(1, len(plan)):] + plan[:w % max(1, len(plan))]
        rfd, wfd = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            code = 0
            try:
                _worker(check, w, plan, seed_base, tier, deadline, wfd)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 3
            sys.stderr.flush()
            os._exit(code)
        os.close(wfd)
        procs.append((pid, rfd))
    results = []
    for pid, rfd in procs:
        with os.fdopen(rfd, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if status != 0 or not data:
            errors.append(f"worker {pid} ended with status {status}")
            continue
        results.extend(json.loads(data))

    # 3. aggregate
    agg = {f.name: {"evaluations": 0, "rejected": 0, "inconclusive": 0, "skipped_time": 0, "nontrivial": set(),
                    "labels": collections.Counter(), "samples": [], "counters": collections.Counter(), "known": {}}
           for f in fams}
    for r in results:
        if r.get("error"):
            errors.append(f"{r['family']}: {r['error']}")
            if "evaluations" not in r:
                continue
        a = agg[r["family"]]
        for k in ("evaluations", "rejected", "inconclusive", "skipped_time"):
            a[k] += r[k]
        a["nontrivial"].update(r["nontrivial"])
        a["labels"].update(r["labels"])
        a["counters"].update(r["counters"])
        a["known"].update(r["known"])
        a["samples"].extend(r["samples"])
        if r["violation"]:
            violations.append({"family": r["family"], **r["violation"]})
    for a in agg.values():
        for kid, msg in a["known"].items():
            k = next((k for k in known if k["id"] == kid), None)
            if k is None:       # classifier names an unlisted finding: that is a violation
                errors.append(f"classifier produced unlisted known finding {kid}")

    total_eval = sum(a["evaluations"] for a in agg.values()) + ncorpus
    total_nt = sum(len(a["nontrivial"]) for a in agg.values())
    if not violations:
        for f in fams:
            a = agg[f.name]
            tot = a["evaluations"] + a["rejected"] + a["inconclusive"]
            if a["evaluations"] == 0 or (a["evaluations"] >= 20
                                         and len(a["nontrivial"]) < f.min_nontrivial * tot * 0.5):
                errors.append(f"vacuous campaign {f.name}: {a['evaluations']} evaluated, "
                              f"{len(a['nontrivial'])} distinct non-trivial, {a['rejected']} rejected, "
                              f"{a['inconclusive']} inconclusive, {a['skipped_time']} skipped")

    # 4. report
    evdir = VERIF / "evidence"
    evdir.mkdir(exist_ok=True)
    samples = []
    for f in fams:
        for s in agg[f.name]["samples"][:2]:
            t = canon(s)
            samples.append({"family": f.name, "case": s if len(t) < 3000 else t[:3000]})
    ev = {
        "property": check.id, "tier": tier, "seed": seed_base, "level": "exploration",
        "coverage": {
            "evaluations": total_eval, "distinct_nontrivial": total_nt, "rule": check.rule,
            "samples": samples[:12],
            "families": {n: {"evaluations": a["evaluations"], "distinct_nontrivial": len(a["nontrivial"]),
                             "rejected_outside_domain": a["rejected"], "inconclusive": a["inconclusive"],
                             "skipped_out_of_time": a["skipped_time"],
                             "counters": dict(a["counters"]),
                             "labels": dict(a["labels"].most_common(150))} for n, a in agg.items()},
            "replayed_regression_cases": ncorpus,
            "notes": notes,
        },
        "assumptions": check.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    (evdir / f"{check.id}.json").write_text(json.dumps(ev, indent=1, default=str))
    for n, a in agg.items():
        print(f"[{check.id}] {n}: {a['evaluations']} cases, {len(a['nontrivial'])} distinct non-trivial, "
              f"{a['rejected']} outside domain, {a['inconclusive']} inconclusive, {a['skipped_time']} skipped")
        if os.environ.get("ACETONE_PBT_LABELS"):
            for lab, c in a["labels"].most_common(400):
                print(f"      {c:6d} {lab}")
            print("      counters", dict(a["counters"]))
    for n in notes:
        print("note:", n)
    for e in errors:
        print("HARNESS-ERROR:", e)
    if violations:
        rdir = evdir / "replay"
        rdir.mkdir(exist_ok=True)
        violations.sort(key=lambda v: len(canon(v["case"])))
        done = {}
        for v in violations:
            key = (v["family"], v["message"][:34])
            done[key] = done.get(key, 0) + 1
            if done[key] > 1 or len(done) > 12:
                continue
            p = rdir / f"{check.id}_{v['family']}_{digest(v['case'])}.json"
            p.write_text(json.dumps({"property": check.id, **v}, indent=1, default=str))
            print(f"--- {check.id}/{v['family']}: {v['message'][:1500]}")
            print(f"VIOLATION property={check.id} replay={p}")
        print(f"[{check.id}] {time.time() - t0:.1f}s")
        return 1
    print(f"[{check.id}] {time.time() - t0:.1f}s")
    return 2 if errors else 0
