"""Special purpose executions: output comparison, command line, scale."""

import hashlib
import io
import sys
import traceback

from . import execute, model, simfs
from .execute import G, Run, exc_text
from .exports import DotReport, HtmlReport


def sha(x):
    return hashlib.sha256(repr(x).encode("utf-8", "backslashreplace")).hexdigest()[:24]


# ------------------------------------------------------------ C05
class ObsRun(Run):
    """Every run also produces all outputs; variants are compared."""

    def obs(self):
        out = super().obs()
        main = sys.modules["modulegraph2.__main__"]
        for i, g in enumerate(self.graphs):
            if g.dead:
                continue
            try:
                buf = io.StringIO()
                g.graph.report(buf)
                out[f"report {i}"] = sha(sorted(buf.getvalue().split("\n")))
                buf = io.StringIO()
                main.print_graph(buf, main.OutputFormat.HTML, g.graph)
                h = HtmlReport(buf.getvalue())
                out[f"html {i}"] = sha((sorted(h.result().items()), sorted(h.twice)))
                buf = io.StringIO()
                main.print_graph(buf, main.OutputFormat.GRAPHVIZ, g.graph)
                d = DotReport(buf.getvalue())
                out[f"dot {i}"] = sha((sorted(d.nodes.items()), sorted(d.edges.items()),
                                       sorted((k, sorted(v)) for k, v in d.clusters.items()),
                                       sorted(map(str, d.dups))))
                out[f"dists {i}"] = sha(sorted(x.identifier
                                               for x in g.graph.distributions(False)))
            except Exception as exc:
                self.bad("op-raised", f"writing the report raised {exc_text(exc)}")
        return out


# ------------------------------------------------------------ C12, C16
OUT = "/simdisk/out"


class CliRun(Run):
    def setup(self):
        super().setup()
        self.sim.disk.mkdirs(OUT)
        for p, text in self.case.get("stale", {}).items():
            self.sim.disk.put(p, text.encode())

    def emulate(self, argv):
        """Runs the command line like a fresh interpreter would run it:
        (exit status, text on stderr)."""
        main = sys.modules["modulegraph2.__main__"]
        path = OUT + "/stdout"
        self.sim.disk.put(path, b"")
        raw = simfs.SimRaw(self.sim, path, self.sim.disk.lookup(path), "w")
        old = sys.stdout, sys.stderr
        err = io.StringIO()
        sys.stdout = io.TextIOWrapper(io.BufferedWriter(raw), self.sim.locale)
        sys.stderr = err
        status = 0
        try:
            try:
                main.main(argv)
            except SystemExit as exc:
                if exc.code is None:
                    status = 0
                elif isinstance(exc.code, int):
                    status = exc.code & 0xFF
                else:
                    print(exc.code, file=err)
                    status = 1
            except simfs.SimCrash:
                raise
            except BaseException as exc:
                # (printing the traceback reads sources)
                self.sim.armed = False
                traceback.print_exception(exc, file=err)
                self.sim.armed = True
                status = 130 if isinstance(exc, KeyboardInterrupt) else 1
            try:
                sys.stdout.flush()
            except BaseException as exc:
                print(f"Exception ignored in stdout: {exc!r}", file=err)
                if status == 0:
                    status = 120
        finally:
            out = sys.stdout
            sys.stdout, sys.stderr = old
            try:
                raw.close()
                out.detach()
            except BaseException:
                pass
        return status, err.getvalue()

    def cli(self, op):
        sim = self.sim
        fired0 = sum(f["fired"] for f in sim.faults)
        spell = self.case.get("spell", {})
        argv = [spell.get(a, a) if i and op["argv"][i - 1] in (
            "-p", "--path", "-o", "--output") else a for i, a in enumerate(op["argv"])]
        status, err = self.emulate(argv)
        fired = sum(f["fired"] for f in sim.faults) - fired0
        sim.log("exit", status, bool(err))
        self.probe(f"cli_status_{'0' if status == 0 else 'error'}")
        sim.armed = False
        try:
            if status == 0:
                self.check_output(op)
            else:
                if not err.strip():
                    self.bad("cli-silent", f"{argv} ended with status {status} and without an "
                             f"error message")
                # (names that the encoding of the output does not have)
                encoding = self.sim.locale != "utf-8" and "UnicodeEncodeError" in err
                if not fired and not op.get("invalid") and not encoding:
                    self.bad("cli-failed", f"{argv} ended with status {status}: "
                             f"{err.strip()[-300:]}")
            if op.get("invalid") and status == 0:
                self.bad("cli-success", f"{argv} ended with status 0 although the request is "
                         f"not valid")
        finally:
            sim.armed = True

    def api_graph(self, op):
        mg = self.mg.ModuleGraph()
        mg.add_excludes(op["excludes"])
        if op.get("exclude_stdlib"):
            mg.add_excludes(sorted(sys.stdlib_module_names))
        old = list(sys.path)
        spell = self.case.get("spell", {})
        sys.path[:0] = [spell.get(e, e) for e in op["extra"]]
        try:
            for n in op["names"]:
                {"m": mg.add_module, "s": mg.add_script, "d": mg.add_distribution}[op["kind"]](n)
        finally:
            sys.path[:] = old
        return mg

    def check_output(self, op):
        path = op.get("out") or OUT + "/stdout"
        try:
            text = bytes(self.sim.disk.lookup(path).data).decode(self.sim.locale)
        except OSError:
            self.bad("cli-output", f"{op['argv']} reported success without writing {path}")
            return
        try:
            mg = self.api_graph(op)
        except Exception as exc:
            if not op.get("invalid"):
                self.bad("cli-api", f"{op['argv']}: the API calls raised {exc_text(exc)}")
            return
        snap = self.snapshot(G(mg, {}))
        self.stats["cli_nodes"] = self.stats.get("cli_nodes", 0) + len(snap["nodes"])
        reach = self.reachable_of(snap)
        edges = {(a, b) for a, b in snap["edges"] if a in reach}
        if op["format"] == "html":
            self.check_html(op, text, snap, reach, edges)
        else:
            self.check_dot(op, text, snap, reach, edges)


assert execute


# ------------------------------------------------------------ C14
class InstallRun(Run):
    """Distribution lookups while other processes install and uninstall."""

    def setup(self):
        super().setup()
        self.states = [(0, self.disk_dists())]
        real = self.sim.run_actor

        def run_actor(a):
            real(a)
            self.states.append((self.sim.steps, self.disk_dists()))

        self.sim.run_actor = run_actor
        self.objects = {}

    def disk_dists(self):
        """Directory -> parsed distribution (None: incomplete), per entry."""
        out = {}
        for entry in self.case["path"]:
            try:
                node = self.sim.disk.lookup(entry)
            except OSError:
                continue
            if not node.is_dir:
                continue
            for n in node.entries:
                if not n.endswith(".dist-info"):
                    continue
                base = f"{entry}/{n}"
                out[base] = None
                sub = node.entries[n]
                if not sub.is_dir:
                    continue
                try:
                    m, r = [bytes(sub.entries[x].data).decode("utf-8")
                            for x in ("METADATA", "RECORD")]
                except (KeyError, ValueError, AttributeError):
                    continue
                out[base] = model.parse_dist(base, {"k": "text", "text": m},
                                             {"k": "text", "text": r})
        return out

    def lookup(self, op):
        sim = self.sim
        start = sim.steps
        fired0 = len(sim.fired_log)
        what = op["what"]
        d = self.mg._distributions
        path = op.get("path")
        arg = tuple(path) if path is not None else None
        if what == "all":
            found = list(self.mg.all_distributions(arg))
        elif what == "named":
            found = [self.mg.distribution_named(op["name"], arg)]
        else:
            found = [d.distribution_for_file(op["file"], arg)]
        sim.log("lookup", what, [x and x.identifier for x in found])
        before = [s for t, s in self.states if t <= start]
        window = before[-1:] + [s for t, s in self.states if t > start]
        faulty = {p.rpartition("/")[0] for _, _, p, e in sim.fired_log[fired0:] if e != "SHORT"}
        entries = list(path) if path is not None else [e for e in self.case["path"]]
        self.judge(op, found, entries, window, faulty)

    def judge(self, op, found, entries, window, faulty):
        what = op["what"]
        desc = f"{what} {op.get('name', op.get('file', ''))!r}"
        required, allowed = {}, {}
        for b in sorted({b for s in window for b in s}):
            if b.rpartition("/")[0] not in entries:
                continue
            ever = [s[b] for _, s in self.states if s.get(b)]
            if ever:
                allowed[b] = ever[-1]
                if b not in faulty and all(s.get(b) for s in window):
                    required[b] = ever[-1]
        for x in found:
            if x is None:
                continue
            self.probe("dist_found")
            old = self.objects.setdefault(x.identifier, x)
            if old is not x:
                self.bad("dist-identity", f"{desc}: two objects for {x.identifier}")
            want = allowed.get(x.identifier)
            if want is None:
                self.bad("dist-torn", f"{desc}: {x.identifier} is not an installed distribution")
                continue
            got = (x.name, x.version, set(x.files), set(x.import_names))
            if got != (want["name"], want["version"], want["files"], want["import_names"]):
                self.bad("dist-torn", f"{desc}: {x.identifier} has {x.name} {x.version} "
                         f"{sorted(x.files)} {sorted(x.import_names)}, should have "
                         f"{want['name']} {want['version']} {sorted(want['files'])} "
                         f"{sorted(want['import_names'])}")
        if what == "all":
            ids = [x.identifier for x in found]
            missing = [b for b in sorted(required) if b not in ids]
            if missing:
                self.bad("dist-index", f"{desc}: installed distributions are missing: {missing}")
            if len(set(ids)) != len(ids):
                self.bad("dist-index", f"{desc}: reported twice: {ids}")
            order = [entries.index(i.rpartition("/")[0]) for i in ids
                     if i.rpartition("/")[0] in entries]
            if order != sorted(order):
                self.bad("dist-index", f"{desc}: not in search path order: {ids}")
            if len(window) > 1:
                self.probe("moving_lookup")
            return
        x = found[0]

        def match(w):
            return w["name"] == op["name"] if what == "named" else op["file"] in w["files"]

        must = [entries.index(b.rpartition("/")[0]) for b, w in required.items() if match(w)]
        if x is None:
            if must:
                self.bad("dist-index", f"{desc} gave nothing, should find one of "
                         f"{sorted(b for b, w in required.items() if match(w))}")
            return
        want = allowed.get(x.identifier)
        if want is None or not match(want):
            self.bad("dist-index", f"{desc} gave {x.identifier}, which does not match")
            return
        if must and entries.index(x.identifier.rpartition("/")[0]) > min(must):
            self.bad("dist-index", f"{desc} gave {x.identifier}, which is later on the search "
                     f"path than another match")

    def call(self, g, op):
        if op["op"] == "settle":
            while self.sim.actors:
                self.sim.run_actor(self.sim.actors.pop(0))
            return
        super().call(g, op)
