"""C13: several graphs built at the same time by threads of one process."""

import json
import os
import pickle
import signal
import traceback

from . import sched
from .execute import G, Run, describe


class SimView:
    """The simulator as one thread sees it."""

    def __init__(self, sim, t):
        self.__dict__.update(_sim=sim, _t=t, op_index=-1, io_of_op=0)

    def __getattr__(self, name):
        return getattr(self._sim, name)

    def log(self, *items):
        self._sim.log(self._t, *items)


class Sub(Run):
    """The calls of one thread on its own graph."""

    def __init__(self, parent, t, ops):
        self.case = dict(parent.case, ops=ops)
        self.sim = SimView(parent.sim, t)
        self.t = t
        self.viol, self.history, self.stats, self.probes = [], [], {}, {}
        self.seq = 0
        self.code_cache, self.cli_out = {}, []
        self.world, self.mg = parent.world, parent.mg
        self.base_implies = parent.base_implies
        self.graphs = parent.graphs
        self.dist_objects = parent.dist_objects
        self.states = []
        self.sched = None

    def host_state(self):
        return None

    def host_compare(self, before, where):
        pass

    def snapshot(self, g):
        return self.quiet(super().snapshot, g)

    def check_graph(self, g, i):
        return self.quiet(super().check_graph, g, i)

    def quiet(self, fn, *args):
        """The harness is not scheduled."""
        s = self.sched
        if s is None:
            return fn(*args)
        s.off[self.t] += 1
        try:
            return fn(*args)
        finally:
            s.off[self.t] -= 1

    def main(self):
        g = self.graphs[self.t] if self.t < len(self.graphs) else None
        for i, op in enumerate(self.case["ops"]):
            if self.sched is not None:
                self.sched.point("op")
            if g is not None:
                g.lazy_at_list.append(dict(g.lazy))
            self.run_op(i, op)
            last = self.history[-1][2] if self.history else None
            self.states.append([describe(op), last,
                                self.canonical(g.snap) if g is not None else ""])


class ThreadRun(Run):
    def setup(self):
        super().setup()
        self.dist_objects = {}
        sched.patch_threading()
        sched.patch_imports()

    def solo(self, subs, t):
        """Outcome of the calls of thread *t* when nothing else happens."""
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(60)
                os.close(rfd)
                s = sched.Sched(1, {}, lambda *a: None)
                sub = subs[t]
                sub.sim._t = 0
                self.sim.sched = s
                real_t, sub.t = sub.t, 0
                graphs = sub.graphs
                sub.graphs = [graphs[real_t]] if real_t < len(graphs) else []
                sub.sched = s
                sub.case = json.loads(json.dumps(dict(sub.case)))
                for op in sub.case["ops"]:
                    op["g"] = 0
                s.run([sub.main], self.kinds, self.case.get("fine"))
                out = {"states": sub.states, "counts": s.counts[0],
                       "errors": [repr(e) for _, e in s.errors],
                       "viol": [dict(v) for v in sub.viol], "steps": self.sim.steps}
            except BaseException:  # noqa: B036
                out = {"harness": traceback.format_exc()[-1500:]}
            data = pickle.dumps(out)
            while data:
                data = data[os.write(wfd, data[:60000]):]
            os._exit(0)
        os.close(wfd)
        chunks = []
        while True:
            b = os.read(rfd, 1 << 16)
            if not b:
                break
            chunks.append(b)
        os.close(rfd)
        os.waitpid(pid, 0)
        if not chunks:
            raise RuntimeError("solo run ended without a result")
        out = pickle.loads(b"".join(chunks))
        if "harness" in out:
            raise RuntimeError(out["harness"])
        return out

    def run(self):
        self.setup()
        ops = self.case["ops"]
        n = len(self.graphs)
        self.sim.armed = True
        for g in self.graphs:
            g.lazy_at_list = []
        per = [json.loads(json.dumps([o for o in ops if o.get("g", 0) == t]))
               for t in range(n)]
        subs = [Sub(self, t, per[t]) for t in range(n)]
        self.kinds = {p["kind"] for p in self.case.get("preempt", ())}
        alone, same = [], {}
        for t in range(n):
            key = json.dumps([self.case["graphs"][t], [dict(o, g=0) for o in per[t]]],
                             sort_keys=True)
            if key not in same:
                same[key] = self.solo(subs, t)
            alone.append(same[key])
        plan = {}
        for p in self.case.get("preempt", ()):
            t = p["t"]
            if t < n:
                total = alone[t]["counts"].get(p["kind"], 0)
                plan[(t, p["kind"], 1 + int(p["f"] * total))] = p["to"]
        s = sched.Sched(n, plan, self.sim.log)
        self.sim.sched = s
        for sub in subs:
            sub.sched = s
        s.run([sub.main for sub in subs], self.kinds, self.case.get("fine"))
        self.sim.sched = None
        self.sim.armed = False
        for t, exc in s.errors:
            if isinstance(exc, sched.Deadlock):
                self.bad("deadlock", f"thread {t}: {exc}")
            else:
                raise exc
        if s.deadlocked and not s.errors:
            self.bad("deadlock", "all threads wait for locks")
        for t, (sub, ref) in enumerate(zip(subs, alone)):
            self.viol += [dict(v, detail=f"thread {t}: {v['detail']}") for v in sub.viol]
            for x in sub.history:
                self.history.append([t] + x)
            for d, own in ((self.probes, sub.probes), (self.stats, sub.stats)):
                for k, v in own.items():
                    d[k] = d.get(k, 0) + v
            for (a, b) in zip(sub.states, ref["states"]):
                if a[1] != b[1]:
                    self.bad("concurrent", f"thread {t}: {a[0]} ended with {a[1]}, "
                             f"alone with {b[1]}")
                    break
                if a[2] != b[2]:
                    self.bad("concurrent", f"thread {t}: the graph after {a[0]} is not the graph "
                             f"that is built alone: {where(a[2], b[2])}")
                    break
        for g in self.graphs:
            for node in g.graph.nodes():
                d = getattr(node, "distribution", None)
                if d is not None:
                    self.check_identity([d])
        self.probe("switches", s.switches)
        self.probe("lock_waits", s.blocks)
        if s.switches + s.blocks:
            self.probe("interleaved")
        return self.finish()


def where(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"...{a[max(0, i - 60):i + 80]} / ...{b[max(0, i - 60):i + 80]}"


assert G
