"""Check command: runs the simulations of one property and judges them.

  check.py run PROPERTY [--tier quick|thorough] [--seed N] [--runs N] [--secs N]
  check.py replay FILE
  check.py list
"""

import argparse
import collections
import ctypes
import json
import os
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
PYTHON = "/opt/venv/bin/python"
if __package__ in (None, ""):
    sys.path.insert(0, VERIF)

from dst import gen, props, shrink  # noqa: E402

LIMIT = 40
RETRY_LIMIT = 120


def _no_aslr():
    """Object addresses are part of the interpreter state: fix them."""
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


class Zygote:
    def __init__(self, hashseed):
        self.hashseed = hashseed
        self.lock = threading.Lock()
        self.proc = None

    def start(self):
        env = {"PATH": "/usr/bin:/bin", "PYTHONHASHSEED": str(self.hashseed),
               "PYTHONPATH": f"{VERIF}:{REPO}", "LC_ALL": "C.UTF-8", "HOME": "/nonexistent",
               "PYTHONDONTWRITEBYTECODE": "1"}
        self.proc = subprocess.Popen(
            [PYTHON, "-B", os.path.join(HERE, "zygote.py")], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, env=env, cwd="/", preexec_fn=_no_aslr)

    def call(self, payload):
        with self.lock:
            if self.proc is None:
                self.start()
            try:
                self.proc.stdin.write(json.dumps(payload).encode() + b"\n")
                self.proc.stdin.flush()
                line = self.proc.stdout.readline()
            except OSError as exc:
                return {"harness_error": f"zygote: {exc}"}
            if not line:
                self.proc = None
                return {"harness_error": "zygote ended"}
            return json.loads(line)

    def stop(self):
        if self.proc is not None:
            try:
                self.proc.stdin.close()
                self.proc.wait(10)
            except Exception:
                self.proc.kill()
            self.proc = None


class Pool:
    def __init__(self):
        self.z = [Zygote(h) for h in gen.HASHSEEDS]

    def stop(self):
        for z in self.z:
            z.stop()

    def run(self, payload, hashseed, limit=LIMIT):
        return self.z[gen.HASHSEEDS.index(hashseed)].call(dict(payload, limit=limit))


# ------------------------------------------------------------ one seed
def variants_of(profile):
    return profile.get("variants", 1)


def zindex(seed, v):
    return (seed + 3 * v) % gen.N_HASH


def case_of(pool, profile, seed):
    r = pool.z[seed % gen.N_HASH].call({"gen": [profile, seed], "only_case": True, "limit": 60})
    return r.get("case")


def run_case(pool, case, limit=LIMIT, trace=False):
    """Runs all variants of a case; returns the merged result."""
    prof = props.profile(case["profile"])
    nv = variants_of(prof)
    out = []
    base = gen.HASHSEEDS.index(case["hashseed"])
    todo = case.get("variants") or list(range(nv))
    for v in todo:
        out.append(pool.z[zindex(base, v)].call(
            {"run": case, "variant": v, "limit": limit, "trace": trace}))
    return merge(out, todo, prof.get("cmp_cls", "nondet"))


def merge(results, todo, cls="nondet"):
    first = results[0]
    if len(results) == 1:
        return first
    res = dict(first)
    for r in results:
        if "viol" not in r:
            return r
    res["viol"] = [v for r in results for v in r["viol"]]
    for r, v in zip(results[1:], todo[1:]):
        if not first.get("nocmp"):
            res["viol"] += compare(first, r, todo[0], v, cls)
        for k, n in r["fired"].items():
            res["fired"][k] = res["fired"].get(k, 0) + n
        res["steps"] += r["steps"]
        res["sim_s"] += r["sim_s"]
        if "case" in r and "case" not in res:
            res["case"] = r["case"]
    res["digest"] = "+".join(r["digest"][:20] for r in results)
    return res


def compare(a, b, va, vb, cls):
    out = []
    for key in sorted(set(a.get("obs", {})) | set(b.get("obs", {}))):
        x, y = a["obs"].get(key), b["obs"].get(key)
        if x != y:
            out.append({"cls": cls, "detail": f"{key} differs between run {va} and run {vb} "
                        f"of the same calls on the same files"})
    return out


def classes_in(res, classes):
    if "viol" not in res:
        if "timeout" in res:
            return ["no-return"]
        return []
    return sorted({v["cls"] for v in res["viol"] if v["cls"] in classes})


# ------------------------------------------------------------ search
class Search:
    def __init__(self, prop, tier, seed, runs=None, secs=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = props.PROPS[prop]
        self.pool = Pool()
        self.lock = threading.Lock()
        self.hits = []
        self.harness = []
        self.n = 0
        self.evals = 0
        self.fired = collections.Counter()
        self.probes = collections.Counter()
        self.stats = collections.Counter()
        self.ops = collections.Counter()
        self.digests = set()
        self.nontrivial = set()
        self.graphs = set()
        self.sim_s = 0.0
        self.steps = 0
        self.actor_events = 0
        self.samples = []
        self.per_profile = collections.Counter()
        self.determinism = {"rerun": 0, "same": 0}
        self.stop = False
        self.runs = runs
        self.secs = secs or (1500 if tier == "thorough" else 420)
        self.t0 = time.monotonic()

    def jobs(self):
        """(profile, seed) in a fixed order."""
        mult = {"quick": 1, "thorough": 40}[self.tier]
        out = []
        for profile, n, classes in self.spec["parts"]:
            n = self.runs or n * mult
            base = self.seed * 10_000_000
            out += [(i / n, profile, base + i, classes) for i in range(n)]
        out.sort(key=lambda x: (x[0], x[1]))
        return [(p, s, c) for _, p, s, c in out]

    def note(self, profile, seed, res, classes):
        with self.lock:
            self.n += 1
            if "viol" not in res:
                if "timeout" in res:
                    self.hits.append((profile, seed, ["no-return"], res))
                    self.stop = True
                else:
                    self.harness.append((profile, seed, res))
                    if len(self.harness) > 5:
                        self.stop = True
                return
            self.per_profile[profile] += 1
            self.evals += 1
            self.fired.update(res["fired"])
            self.probes.update(res["probes"])
            self.stats.update(res["stats"])
            self.sim_s += res["sim_s"]
            self.steps += res["steps"]
            self.actor_events += res["actor_events"]
            self.digests.add(res["digest"])
            self.graphs.add(res["gh"])
            if self.spec["nontrivial"](res):
                self.nontrivial.add(res["digest"])
                if len(self.samples) < 3:
                    self.samples.append({"profile": profile, "seed": seed,
                                         "history": res["history"][:12], "fired": res["fired"],
                                         "nodes": res["nodes"], "digest": res["digest"][:16]})
            got = classes_in(res, classes)
            if got:
                self.hits.append((profile, seed, got, res))
                self.stop = True

    def worker(self, k, jobs, results):
        z = self.pool.z[k]
        for profile, seed, classes, v in jobs:
            if self.stop or time.monotonic() - self.t0 > self.secs:
                return
            res = z.call({"gen": [profile, seed], "variant": v, "limit": LIMIT})
            if "viol" not in res:
                res = z.call({"gen": [profile, seed], "variant": v, "limit": RETRY_LIMIT})
            nv = variants_of(props.profile(profile))
            if nv == 1:
                self.note(profile, seed, res, classes)
                if "viol" in res and seed % 97 < 8 and self.determinism["rerun"] < 64:
                    again = z.call({"gen": [profile, seed], "variant": v, "limit": LIMIT})
                    with self.lock:
                        self.determinism["rerun"] += 1
                        self.determinism["same"] += again.get("digest") == res["digest"]
            else:
                with self.lock:
                    slot = results.setdefault((profile, seed), {})
                    slot[v] = res
                    full = len(slot) == nv
                    if full:
                        del results[(profile, seed)]
                if full:
                    todo = list(range(nv))
                    cls = props.profile(profile).get("cmp_cls", "nondet")
                    self.note(profile, seed, merge([slot[i] for i in todo], todo, cls), classes)

    def search(self):
        per = [[] for _ in range(gen.N_HASH)]
        for profile, seed, classes in self.jobs():
            for v in range(variants_of(props.profile(profile))):
                per[zindex(seed, v)].append((profile, seed, classes, v))
        results = {}
        ths = [threading.Thread(target=self.worker, args=(k, per[k], results))
               for k in range(gen.N_HASH)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()

    # -------------------------------------------------------- violations
    def report(self):
        """Minimises and writes the first violations; returns replay paths."""
        out = []
        known = props.known_findings(self.prop)
        seen = set()
        budget = time.monotonic() + 200
        hits = sorted(self.hits, key=lambda h: (h[3].get("nodes", 0), h[1]))
        for profile, seed, got, res in hits[:8]:
            cls = got[0]
            if (profile, cls) in seen:
                continue
            seen.add((profile, cls))
            case = res.get("case") or case_of(self.pool, profile, seed)
            if case is None:
                self.harness.append((profile, seed, {"harness_error": "no case"}))
                continue
            lim = RETRY_LIMIT if cls == "no-return" else LIMIT
            conf = run_case(self.pool, case, lim)
            if cls not in classes_in(conf, set(got)):
                self.harness.append((profile, seed, {"harness_error": "not reproducible",
                                                     "cls": cls,
                                                     "viol": res.get("viol")}))
                continue
            n = 0
            if cls != "no-return" and time.monotonic() < budget:
                def test(c):
                    return cls in classes_in(run_case(self.pool, c), set(got))

                case, n = shrink.shrink(case, test, 700, min(60, budget - time.monotonic()))
            final = run_case(self.pool, case, lim, trace=True)
            detail = [v for v in final.get("viol", ()) if v["cls"] in got] or [
                {"cls": cls, "detail": "the run does not end"}]
            k = props.match_known(known, detail)
            if k is not None:
                print(f"KNOWN-FINDING: property={self.prop} {k}")
                continue
            path = os.path.join(VERIF, "replays", f"{self.prop}-{profile}-{seed}-{cls}.json")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as fp:
                json.dump({"property": self.prop, "classes": got, "class": cls, "case": case,
                           "seed": seed, "digest": final.get("digest"), "violations": detail[:10],
                           "shrink_runs": n, "trace": (final.get("trace") or [])[-400:]}, fp,
                          indent=1)
            for v in detail[:3]:
                print(f"  {v['cls']}: {v['detail']}"[:600])
            print(f"VIOLATION property={self.prop} replay={path}")
            out.append(path)
            if len(out) >= 2:
                break
        return out

    def cross_process(self):
        """A few seeds again in fresh processes."""
        done = same = 0
        pool = Pool()
        try:
            for profile, n, classes in self.spec["parts"]:
                if variants_of(props.profile(profile)) > 1:
                    continue
                for i in range(2):
                    s = self.seed * 10_000_000 + i
                    a = self.pool.z[s % gen.N_HASH].call({"gen": [profile, s], "limit": LIMIT})
                    b = pool.z[s % gen.N_HASH].call({"gen": [profile, s], "limit": LIMIT})
                    if "digest" in a and "digest" in b:
                        done += 1
                        same += a["digest"] == b["digest"]
        finally:
            pool.stop()
        return {"fresh_process_reruns": done, "identical": same}

    def evidence(self, replays):
        wall = time.monotonic() - self.t0
        cov = {
            "evaluations": self.evals,
            "distinct_nontrivial": len(self.nontrivial),
            "rule": self.spec["rule"],
            "samples": self.samples,
            "runs_per_profile": dict(self.per_profile),
            "runs_per_hour": int(self.evals / wall * 3600) if wall else 0,
            "seeds_per_hour": int(self.evals / wall * 3600) if wall else 0,
            "first_seed": self.seed * 10_000_000,
            "simulated_seconds": round(self.sim_s, 3),
            "simulated_io_events": self.steps,
            "concurrent_actor_events": self.actor_events,
            "faults_fired": dict(sorted(self.fired.items())),
            "distinct_event_logs": len(self.digests),
            "distinct_final_graphs": len(self.graphs),
            "distinct_measure": "SHA-256 over the complete event log of a run (calls, every "
            "simulated I/O event, faults, hook calls, scheduler decisions, resulting graphs)",
            "reached": dict(sorted(self.probes.items())),
            "oracle_evaluations": dict(sorted(self.stats.items())),
            "determinism": dict(self.determinism, **self.cross),
            "harness_errors": len(self.harness),
            "real_components": props.REAL,
            "stubbed_components": props.STUB + self.spec.get("stubs", []),
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": "exploration", "coverage": cov, "wall_s": round(wall, 2),
              "violations": len(replays),
              "assumptions": props.ASSUME + self.spec.get("assume", [])}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as fp:
            json.dump(ev, fp, indent=1, sort_keys=True)
            fp.write("\n")

    def main(self):
        self.cross = {}
        try:
            self.search()
            for line in props.known_findings(self.prop):
                print(f"KNOWN-FINDING: property={self.prop} {line['what']}")
            replays = self.report() if self.hits else []
            if not self.hits:
                self.cross = self.cross_process()
            self.evidence(replays)
        finally:
            self.pool.stop()
        print(f"{self.prop}: {self.evals} runs, {len(self.nontrivial)} distinct non-trivial, "
              f"{sum(self.fired.values())} faults, {time.monotonic() - self.t0:.1f}s, "
              f"{len(replays)} violations, {len(self.harness)} harness errors")
        for p, s, r in self.harness[:3]:
            print(f"harness: profile={p} seed={s} "
                  f"{ {k: v for k, v in r.items() if k != 'case'} }"[:1500], file=sys.stderr)
        if replays:
            return 1
        if self.harness or not self.evals:
            return 2
        return 0


def replay(path):
    with open(path) as fp:
        rec = json.load(fp)
    pool = Pool()
    try:
        res = run_case(pool, rec["case"], RETRY_LIMIT)
    finally:
        pool.stop()
    got = classes_in(res, set(rec["classes"]) | {"no-return"})
    exact = res.get("digest") == rec.get("digest")
    for v in res.get("viol", ()):
        if v["cls"] in rec["classes"]:
            print(f"  {v['cls']}: {v['detail']}"[:600])
    print(f"replay: {'identical event log' if exact else 'event log differs'}; "
          f"violations: {got}")
    if rec["class"] in got:
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    r = sub.add_parser("run")
    r.add_argument("property")
    r.add_argument("--tier", default="quick")
    r.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    r.add_argument("--runs", type=int)
    r.add_argument("--secs", type=float)
    p = sub.add_parser("replay")
    p.add_argument("file")
    sub.add_parser("list")
    a = ap.parse_args()
    if a.cmd == "run":
        s = Search(a.property, a.tier, a.seed, a.runs, a.secs)
        sys.exit(s.main())
    if a.cmd == "replay":
        sys.exit(replay(a.file))
    for k in sorted(props.PROPS):
        print(k)


if __name__ == "__main__":
    main()
