"""Executes one case against the real modulegraph2 under the simulator.

Must run in a process of its own (a fork of a zygote): it replaces the
file-system seam of the process, populates sys.modules by really importing
simulated packages, and so on.
"""

import hashlib
import importlib
import importlib.machinery
import importlib.util
import _imp
import io
import os
import posixpath
import sys
import types
import zipfile

from . import model, simfs, world
from .exports import ExportChecks
from .model import _MISSING, DEFAULT, Certifier, World, viol

STDLIB = os.path.dirname(os.__file__)
STDLIB_PATH = [p for p in sys.path if "-packages" not in p and (
    p == STDLIB or p.startswith(STDLIB + "/") or p.endswith(".zip"))]


class HookError(Exception):
    """Raised by simulated user hooks."""


class G:
    """One graph under test and what was asked of it."""

    def __init__(self, graph, base_lazy):
        self.graph = graph
        self.lazy = dict(base_lazy)
        self.builtin_hooks = True
        self.lazy_at = []       # per op index
        self.late = {}          # name -> (op index, action registered during it)
        self.created = {}       # node id -> op index
        self.roots = []         # (kind, id)
        self.may_roots = set()
        self.scripts = {}       # node id -> body
        self.dists = set()
        self.may_dists = set()  # distributions of interrupted calls
        self.hook_edges = []
        self.may_edges = []
        self.groups = []
        self.supplied = {}
        self.supplied_types = {}
        self.loose = False
        self.posts = []         # (hook id, node id, seq, op index, outgoing)
        self.consulting = []
        self.nested = set()
        self.missing_calls = [] # (hook id, importing, name, answer, seq)
        self.post_hooks = []    # ids in registration order with op index
        self.missing_hooks = []
        self.failed = False
        self.dead = False       # an operation raised unexpectedly: stop judging
        self.taint = set()
        self.sources = set()
        self.packages = []      # import_package requests (from, name)
        self.unreached_ok = set()
        self.partial = set()    # names that interrupted calls may have loaded
        self.may_packages = []  # import_package requests that were interrupted
        self.hook_broken = set()  # nodes whose post hooks were interrupted
        self.pending = False    # a failed call left work for a later call
        self.settled_packages = 0   # how many of packages have been judged
        self.strong_packages = set()  # requests that certainly completed
        self.weak_packages = set()  # requests a failure may have cut short
        self.snap = {"nodes": {}, "edges": {}, "roots": []}


def dep(e):
    """An edge annotation as a tuple."""
    try:
        return (e.is_optional, e.is_global, e.in_fromlist, e.imported_as)
    except AttributeError:
        return ("not a DependencyInfo", repr(e), False, None)


class Run(ExportChecks):
    not_rejected = False

    def __init__(self, case):
        self.case = case
        self.sim = simfs.Sim(case)
        self.viol = []
        self.history = []
        self.seq = 0
        self.stats = {}
        self.code_cache = {}
        self.cli_out = []
        self.probes = {}

    def bad(self, cls, detail, **kw):
        self.viol.append(viol(cls, detail, **kw))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # ------------------------------------------------------------ setup
    def setup(self):
        case = self.case
        world.populate(self.sim.disk, case)
        self.world = World(case)
        self.sim.eligible = frozenset(
            p for p, sp in case["files"].items()
            if sp["k"] in ("py", "pyc") and not sp.get("ns"))
        self.sim.entries = frozenset(case["path"]) | frozenset(
            e for o in case["ops"] for e in o.get("extra", ()))
        self.sim.zips = frozenset(p for p, sp in case["files"].items() if sp["k"] == "zip")
        simfs.Seam(self.sim).install()
        sys.dont_write_bytecode = True
        spell = case.get("spell", {})
        sys.path[:] = [spell.get(e, e) for e in case["path"]] + STDLIB_PATH
        import modulegraph2

        self.mg = modulegraph2
        self.base_implies = {}
        for k, v in modulegraph2._implies.STDLIB_IMPLIES.items():
            self.base_implies[k] = self.conv_implied(v)
        self.host_setup()
        self.host_before = self.host_state()
        self.graphs = []
        for gs in case.get("graphs", [{}]):
            self.graphs.append(self.new_graph(gs))

    def conv_implied(self, v):
        if v is None:
            return None
        if isinstance(v, self.mg.Alias):
            return {"alias": str(v)}
        if isinstance(v, self.mg.Virtual):
            return {"virtual": str(v)}
        return list(v)

    def new_graph(self, gs):
        si = gs.get("stdlib_implies", False)
        bh = gs.get("builtin_hooks", True)
        kw = {}
        if not si or gs.get("explicit", True):
            kw["use_stdlib_implies"] = si
        if not bh or gs.get("explicit", True):
            kw["use_builtin_hooks"] = bh
        g = self.mg.ModuleGraph(**kw)
        base = {"__main__": None}
        if si:
            base.update(self.base_implies)
        out = G(g, base)
        out.builtin_hooks = bh
        return out

    def host_setup(self):
        for h in self.case.get("host", ()):
            do, name = h["do"], h.get("name")
            try:
                if do == "import":
                    importlib.import_module(name)
                elif do == "none":
                    sys.modules[name] = None
                elif do == "specless":
                    m = types.SimpleNamespace()
                    if h.get("path"):
                        m.__path__ = list(h["path"])
                    sys.modules[name] = m
                elif do == "nonespec":
                    m = types.ModuleType(name)
                    if h.get("path"):
                        m.__path__ = list(h["path"])
                    sys.modules[name] = m
                elif do == "alias":
                    sys.modules[name] = importlib.import_module(h["to"])
            except (Exception, SystemExit) as exc:
                self.sim.log("host", do, name, type(exc).__name__)
                if do == "alias":
                    h["do"] = "skip"
                    self.world.host_alias.pop(name, None)

    def host_state(self):
        return {
            "path": list(sys.path),
            "pathid": id(sys.path),
            "meta": list(sys.meta_path),
            "hooks": list(sys.path_hooks),
            "modules": {k: v for k, v in sys.modules.items()},
            "import": __builtins__["__import__"] if isinstance(__builtins__, dict)
            else __builtins__.__import__,
        }

    def host_compare(self, before, where):
        after = self.host_state()
        if after["path"] != before["path"] or after["pathid"] != before["pathid"]:
            self.bad("host-path", f"sys.path changed by {where}: {before['path']} -> "
                     f"{after['path']}")
        if [id(x) for x in after["meta"]] != [id(x) for x in before["meta"]]:
            self.bad("host-path", f"sys.meta_path changed by {where}")
        if [id(x) for x in after["hooks"]] != [id(x) for x in before["hooks"]]:
            self.bad("host-path", f"sys.path_hooks changed by {where}")
        if after["import"] is not before["import"]:
            self.bad("host-path", f"builtins.__import__ changed by {where}")
        for k, v in before["modules"].items():
            if k not in after["modules"]:
                self.bad("host-module", f"sys.modules[{k!r}] removed by {where}", node=k)
            elif after["modules"][k] is not v:
                self.bad("host-module", f"sys.modules[{k!r}] replaced by {where}", node=k)

    # ------------------------------------------------------------ snapshots
    def code_state(self, node, file):
        code = getattr(node, "code", None)
        if code is None:
            return "none"
        if file is None:
            if node.name in model.FROZEN:
                want = _imp.get_frozen_object(node.name)
                return "same" if same_code(want, code) else "other"
            return "other"
        want = self.expected_code(file)
        return "same" if want is not None and same_code(want, code) else "other"

    def expected_code(self, file):
        if file not in self.code_cache:
            spec = self.world.files.get(file)
            if spec is None:
                for z, (mem, _) in self.world.zips.items():
                    if file.startswith(z + "/"):
                        spec = mem.get(file[len(z) + 1:])
            code = None
            if spec is not None and spec["k"] in ("py", "pyc") and spec.get("bad") in (
                    None, "latin", "bom"):
                if spec["k"] == "py":
                    code = compile(world.file_bytes(file, spec), file, "exec",
                                   dont_inherit=True)
                else:
                    code = compile(world.render_body(spec.get("body", ())), file, "exec",
                                   dont_inherit=True)
            self.code_cache[file] = code
        return self.code_cache[file]

    def located(self, path):
        """Absolute form of a path in the graph."""
        if path is None:
            return None
        path = str(path)
        if self.sim.cwd:
            path = posixpath.normpath(posixpath.join(self.sim.cwd, path))
        return path

    def info(self, node):
        t = type(node).__name__
        if t == "PyPIDistribution":
            return {"t": t, "name": node.name}
        f = self.located(node.filename)
        d = {"t": t, "name": node.name, "file": f,
             "dist": None if node.distribution is None else node.distribution.identifier}
        if isinstance(node, self.mg.NamespacePackage):
            d["sp"] = [self.located(p) for p in node.search_path]
            d["data"] = bool(node.has_data_files)
        elif isinstance(node, self.mg.Package):
            init = node.init_module
            fi = self.located(init.filename)
            d["sp"] = [self.located(p) for p in node.search_path]
            d["data"] = bool(node.has_data_files)
            d["nst"] = node.namespace_type
            d["init"] = {"t": type(init).__name__, "file": fi,
                         "code": self.code_state(init, fi)}
        elif isinstance(node, self.mg.AliasNode):
            d["actual"] = str(node.actual_module)
        elif isinstance(node, self.mg.VirtualNode):
            d["prov"] = str(node.providing_module)
        elif hasattr(node, "code"):
            d["code"] = self.code_state(node, f)
        return d

    def snapshot(self, g):
        graph = g.graph
        nodes = {}
        for node in graph.nodes():
            nodes[node.identifier] = self.info(node)
        edges = {}
        for a, b, eds in graph.edges():
            edges[(a.identifier, b.identifier)] = {dep(e) for e in eds}
        roots = sorted(n.identifier for n in graph.roots())
        return {"nodes": nodes, "edges": edges, "roots": roots}

    @staticmethod
    def canonical(snap):
        return repr((sorted((k, sorted(v.items(), key=repr)) for k, v in snap["nodes"].items()),
                     sorted((k, sorted(v, key=repr)) for k, v in snap["edges"].items()),
                     snap["roots"]))

    # ------------------------------------------------------------ hooks
    def make_post_hook(self, g, op):
        hid = op["id"]
        acts = op.get("acts", {})
        raises = set(op.get("raise_at", ()))
        state = {"raised": set()}

        def hook(graph, node):
            self.seq += 1
            ident = node.identifier
            out = {t.identifier: {dep(e) for e in eds} for eds, t in graph.outgoing(node)}
            g.posts.append((hid, ident, self.seq, self.sim.op_index, out,
                            graph is g.graph and graph.find_node(node) is node))
            self.sim.log("post", hid, ident)
            try:
                if ident in raises and ident not in state["raised"]:
                    state["raised"].add(ident)
                    self.probe("hook_raised")
                    raise HookError(ident)
                for act in acts.get(ident, ()):
                    self.do_act(g, act, node)
            except BaseException:
                g.hook_broken.add(ident)
                raise

        return hook

    def make_missing_hook(self, g, op):
        hid = op["id"]
        table = op.get("table", {})

        def hook(graph, importing, name):
            if name in g.consulting:
                # asked again while a hook for this name is importing things
                g.nested.add(name)
            g.consulting.append(name)
            try:
                return answer(graph, importing, name)
            finally:
                g.consulting.remove(name)

        def answer(graph, importing, name):
            self.seq += 1
            if name not in g.nested and graph.find_node(name) is not None:
                # (an import nested in an earlier hook may have added the node)
                self.bad("missing-again", f"missing hook {hid} consulted for {name}, which "
                         f"already has a node", node=name)
            imp = None if importing is None else importing.identifier
            row = table.get(name)
            self.sim.log("missing", hid, imp, name)
            rec = [hid, imp, name, None, self.seq,
                   graph is g.graph and (importing is None or graph.find_node(imp) is importing)]
            g.missing_calls.append(rec)
            if row is None:
                return None
            try:
                for act in row.get("acts", ()):
                    g.groups.append({act["name"], name})
                    self.do_act(g, act, importing)
                ret = row.get("ret")
                if ret is None:
                    return None
                if ret["t"] == "raise" and not row.get("_done"):
                    row["_done"] = True
                    self.probe("hook_raised")
                    raise HookError(name)
            except BaseException:
                g.taint.add(name)
                raise
            if ret["t"] == "raise":
                return None
            ident = ret.get("id", name)
            node = graph.find_node(ident)
            if node is None:
                node = self.make_node(ret["t"], ident)
                graph.add_node(node)
                g.supplied_types[ident] = type(node).__name__
            rec[3] = ident
            g.supplied[name] = ident
            self.probe("missing_supplied")
            return node

        return hook

    def make_node(self, t, ident):
        mg = self.mg
        if t == "virtual":
            return mg.VirtualNode(ident, "provider")
        if t == "builtin":
            return mg.BuiltinModule(name=ident, loader=None, distribution=None, filename=None,
                                    extension_attributes={}, globals_written=set(),
                                    globals_read=set(), code=None)
        if t == "excluded":
            return mg.ExcludedModule(ident)
        raise simfs.SimCrash(f"node type {t}")

    def do_act(self, g, act, node):
        a = act["a"]
        graph = g.graph
        src = node if act.get("from", "self") == "self" else graph.find_node(act["from"])
        if a == "add_node":
            if graph.find_node(act["name"]) is None:
                graph.add_node(self.make_node("virtual", act["name"]))
                g.supplied_types[act["name"]] = "VirtualNode"
                g.sources.add(act["name"])
                self.probe("act_add_node")
            return
        if a == "add_post":
            hid = act["id"] + f"-{len(g.post_hooks)}"
            graph.add_post_processing_hook(self.make_post_hook(g, {"id": hid}))
            g.post_hooks.append((hid, self.sim.op_index + 0.5))
            self.probe("act_add_post")
            return
        if a == "add_missing":
            hid = act["id"] + f"-{len(g.missing_hooks)}"
            graph.add_missing_hook(self.make_missing_hook(g, dict(act, id=hid)))
            g.missing_hooks.append((hid, self.sim.op_index + 0.5))
            self.probe("act_add_missing")
            return
        if a == "excludes":
            graph.add_excludes([act["name"]])
            self.late_lazy(g, act["name"], None)
            self.probe("act_excludes")
            return
        if a == "implies":
            graph.add_implies(self.implied_map(act))
            for n, v in act["map"].items():
                self.late_lazy(g, n, v)
            self.probe("act_implies")
            return
        if src is None and a != "add_module":
            self.probe("act_skipped")
            return
        if a == "import_module":
            if act.get("from", "self") != "self":
                g.loose = True
            g.groups.append({act["name"]} | set(act.get("with", ())))
            try:
                res = graph.import_module(src, act["name"])
            except BaseException:
                g.may_edges.append((src.identifier, act["name"], DEFAULT))
                g.partial.add(act["name"])
                raise
            g.hook_edges.append((src.identifier, act["name"]))
            self.returned(g, act, res)
        elif a == "import_package":
            g.loose = True
            try:
                res = graph.import_package(src, act["name"])
            except BaseException:
                g.may_edges.append((src.identifier, act["name"], DEFAULT))
                g.partial.add(act["name"])
                g.may_packages.append(act["name"])
                raise
            g.hook_edges.append((src.identifier, act["name"]))
            g.packages.append(act["name"])
            self.returned(g, act, res)
        elif a == "add_module":
            g.loose = True
            try:
                graph.add_module(act["name"])
            except BaseException:
                g.may_roots.add(act["name"])
                g.partial.add(act["name"])
                raise
            g.roots.append(("module", act["name"]))
        elif a == "add_edge":
            dst = graph.find_node(act["to"])
            if dst is not None:
                g.loose = True
                graph.add_edge(src, dst, self.mg.DependencyInfo(False, True, False, None))
                g.may_edges.append((src.identifier, dst.identifier, DEFAULT))
        elif a == "raise":
            raise HookError("act")
        else:
            raise simfs.SimCrash(f"act {a}")
        self.probe(f"act_{a}")

    def returned(self, g, act, node):
        want = g.graph.find_node(g.supplied.get(act["name"], act["name"]))
        if node is not want or want is None:
            self.bad("hookedge-missing", f"{act['a']}(..., {act['name']!r}) returned "
                     f"{getattr(node, 'identifier', node)!r}", node=act["name"])

    # ------------------------------------------------------------ operations
    def expected_failure(self, g, op):
        """Exception types a call must raise in the current state, else ()."""
        k = op["op"]
        if k == "add_script":
            p = op["path"]
            if p in g.snap["nodes"]:
                return (ValueError,)
            spec = self.world.files.get(p)
            if spec is None:
                return (OSError,)
            if spec.get("bad") in ("utf8",):
                return (SyntaxError, ValueError)
            if spec.get("bad") not in (None, "latin", "bom"):
                return (SyntaxError,)
        elif k == "add_dist":
            if op["name"] not in {d["name"] for here in self.world.distributions()
                                  for d in here}:
                return (ValueError,)
        elif k == "add_source" and op.get("bad"):
            return (SyntaxError,)
        elif k == "excludes_str":
            return (TypeError,)
        elif k == "context" and (op.get("raise") or any(a["a"] == "raise"
                                                        for a in op.get("acts", ()))):
            return (HookError,)
        return ()

    def implied_map(self, op):
        m = {}
        for n, v in op["map"].items():
            if isinstance(v, dict):
                m[n] = (self.mg.Alias(v["alias"]) if "alias" in v
                        else self.mg.Virtual(v["virtual"]))
            elif v is None:
                m[n] = None
            else:
                m[n] = tuple(v) if op.get("how") != "list" else list(v)
        return m

    def late_lazy(self, g, name, value):
        """An action registered while a call runs takes effect when *name* is not there yet."""
        if name in g.lazy and g.lazy[name] is None:
            value = None
        g.lazy[name] = value
        if g.graph.find_node(name) is None:
            g.late[name] = (self.sim.op_index, value)

    def call(self, g, op):
        k = op["op"]
        graph = g.graph
        if k == "add_module":
            node = graph.add_module(op["name"])
            if node is not graph.find_node(g.supplied.get(op["name"], op["name"])):
                self.bad("root-missing", f"add_module({op['name']!r}) returned "
                         f"{getattr(node, 'identifier', node)!r}", node=op["name"])
            g.roots.append(("module", op["name"]))
        elif k == "add_script":
            node = graph.add_script(op["path"])
            if type(node).__name__ != "Script" or node.identifier != op["path"]:
                self.bad("root-missing", f"add_script({op['path']!r}) returned {node!r}")
            g.roots.append(("script", op["path"]))
        elif k == "add_source":
            text = world.render_body(op["body"]) + ("def x(:\n" if op.get("bad") else "")
            graph.add_dependencies_for_source(text)
            for imp in model.body_imports(op["body"]):
                if imp.level:
                    g.roots.append(("module", "." * imp.level + imp.mod))
                    continue
                g.roots.append(("module", imp.mod))
                for n, _ in imp.names:
                    g.roots.append(("module", f"{imp.mod}.{n}"))
        elif k == "add_dist":
            arg = op["name"]
            if op.get("as") == "object":
                arg = self.mg.distribution_named(op["name"])
                if arg is None:
                    raise ValueError("not found")
            node = graph.add_distribution(arg)
            g.roots.append(("dist", node.identifier))
            g.dists.add(node.identifier)
            if graph.find_node(node.identifier) is not node:
                self.bad("dist-node", f"add_distribution returned an object that is not the "
                         f"node for {node.identifier}")
        elif k == "excludes":
            names = list(op["names"])
            if op.get("how") == "iter":
                names = iter(names)
            elif op.get("how") == "set":
                names = frozenset(names)
            graph.add_excludes(names)
            for n in op["names"]:
                g.lazy[n] = None
        elif k == "excludes_str":
            graph.add_excludes(op["name"])
        elif k == "implies":
            graph.add_implies(self.implied_map(op))
            for n, v in op["map"].items():
                if n not in g.lazy or g.lazy[n] is not None:
                    g.lazy[n] = v
        elif k == "post_hook":
            graph.add_post_processing_hook(self.make_post_hook(g, op))
            g.post_hooks.append((op["id"], self.sim.op_index))
        elif k == "missing_hook":
            graph.add_missing_hook(self.make_missing_hook(g, op))
            g.missing_hooks.append((op["id"], self.sim.op_index))
        elif k == "context":
            with graph.hook_context():
                g.groups.append({a["name"] for a in op["acts"]
                                 if "name" in a and a["a"] != "excludes"})
                for act in op["acts"]:
                    self.do_act(g, act, None)
                if op.get("raise"):
                    raise HookError("context")
        elif k == "report":
            self.check_export(g, op)
        elif k == "dists":
            self.check_dists(g, op)
        elif k == "lookup":
            self.lookup(op)
        elif k == "fs":
            self.fs(op)
        elif k == "cli":
            self.cli(op)
        elif k == "noop":
            pass
        else:
            raise simfs.SimCrash(f"op {k}")

    BUILD = frozenset(["add_module", "add_script", "add_source", "add_dist", "context"])
    CAUSED = (OSError, MemoryError, KeyboardInterrupt, HookError, ImportError, EOFError,
              zipfile.BadZipFile)

    def run_op(self, i, op):
        g = self.graphs[op.get("g", 0)] if op.get("g", 0) < len(self.graphs) else None
        sim = self.sim
        sim.op_index = i
        sim.io_of_op = 0
        sim.log("op", i, op["op"])
        k = op["op"]
        if g is not None and g.dead:
            return
        expect = self.expected_failure(g, op) if g is not None else ()
        host0 = self.host_state()
        fired0 = sum(f["fired"] for f in sim.faults)
        log0 = len(sim.fired_log)
        raised0 = self.probes.get("hook_raised", 0)
        nroots = len(g.roots)
        script_seen = k == "add_script" and op["path"] in g.snap["nodes"]
        if k == "add_script" and not script_seen:
            spec = self.world.files.get(op["path"])
            if spec is not None:
                g.scripts[op["path"]] = spec.get("body", ())
        outcome = "ok"
        exc = None
        try:
            self.call(g, op)
        except simfs.SimCrash:
            raise
        except BaseException as e:  # noqa: B036 - KeyboardInterrupt is injected
            if isinstance(e, (SystemExit,)) and k == "cli":
                raise
            exc = e
            outcome = type(e).__name__
        fired = sum(f["fired"] for f in sim.faults) - fired0
        hooked = self.probes.get("hook_raised", 0) - raised0
        sim.log("ret", i, outcome)
        self.history.append([i, k, outcome, fired])
        self.probe(f"op_{k}")
        if exc is not None:
            self.probe(f"op_failed_{k}")
        if fired:
            self.probe("op_with_fault")
        if g is None:
            return
        g.lazy_at_op = i
        snap = self.snapshot(g)
        for n in snap["nodes"]:
            if n not in g.created:
                g.created[n] = i
        cause_ok = bool(fired or hooked)
        if op.get("rej") and exc is None:
            # (the fault was not hit)
            self.not_rejected = True
        if exc is not None and not cause_ok:
            if not expect:
                self.bad("op-raised", f"op {i} {describe(op)} raised {exc_text(exc)}",
                         exc=type(exc).__name__)
                g.dead = True
            elif not isinstance(exc, expect):
                self.bad("op-wrong-exc", f"op {i} {describe(op)} raised {exc_text(exc)}, "
                         f"expected {[e.__name__ for e in expect]}", exc=type(exc).__name__)
        elif exc is None and expect:
            self.bad("op-no-exc", f"op {i} {describe(op)} returned normally, expected "
                     f"{[e.__name__ for e in expect]}")
        if exc is not None and k in ("add_script", "add_source", "add_dist", "excludes_str") and (
                expect or (k == "add_script" and fired and self.script_fault(op, log0))):
            # a rejected call leaves no trace
            if not (hooked or (fired and not expect and k != "add_script")):
                if self.canonical(snap) != self.canonical(g.snap):
                    self.bad("reject-changed", f"op {i} {describe(op)} raised "
                             f"{exc_text(exc)} but changed the graph: "
                             f"{diff(g.snap, snap)}")
                self.probe("rejected")
        elif exc is not None and not isinstance(exc, self.CAUSED + tuple(expect)):
            self.bad("op-wrong-exc", f"op {i} {describe(op)} raised {exc_text(exc)} after an "
                     f"injected failure", exc=type(exc).__name__)
        if exc is not None and cause_ok and k in self.BUILD:
            g.failed = True
            g.loose = True
            self.note_taint(g, op, i, exc, log0)
            g.pending = True
            g.weak_packages |= set(g.packages[g.settled_packages:]) | set(g.may_packages)
            g.settled_packages = len(g.packages)
            for r in self.op_roots(op):
                g.may_roots.add(r)
                g.partial.add(r)
            if k == "add_dist":
                for here in self.world.distributions():
                    for d in here:
                        if d["name"] == op["name"]:
                            g.partial |= d["import_names"]
                            g.may_dists.add(d["id"])
        g.snap = snap
        self.host_compare(host0, f"op {i} {describe(op)}")
        done = exc is None or (k == "context" and expect and not cause_ok)
        if done and k in self.BUILD and (k != "add_source" or model.body_imports(op["body"])):
            g.pending = False
            g.strong_packages |= set(g.packages[g.settled_packages:])
            g.settled_packages = len(g.packages)
        if (k in self.BUILD or k in ("excludes", "implies")) and done and not g.pending:
            self.check_graph(g, i)

    def script_fault(self, op, log0):
        """Did the fault strike while the script itself was read?"""
        return any(p == op["path"] and e != "SHORT"
                   for _, _, p, e in self.sim.fired_log[log0:])

    def op_roots(self, op):
        k = op["op"]
        if k == "add_module":
            return [op["name"]]
        if k == "add_script":
            return [op["path"]]
        if k == "add_source":
            out = []
            for imp in model.body_imports(op["body"]):
                if imp.level:
                    out.append("." * imp.level + imp.mod)
                    continue
                out.append(imp.mod)
                out += [f"{imp.mod}.{n}" for n, _ in imp.names]
            return out
        if k == "add_dist":
            return [d["id"] for here in self.world.distributions() for d in here
                    if d["name"] == op["name"]]
        return [a["name"] for a in op.get("acts", ()) if a["a"] == "add_module"]

    def note_taint(self, g, op, i, exc, log0):
        """Names whose loading the failure interrupted."""
        for (_, _, path, _), names in zip(self.sim.fired_log[log0:],
                                          self.sim.fault_names[log0:]):
            if names is None:
                continue
            if names:
                g.taint |= set(names)
                # SWIG: the global import of an extension next to the importer
                g.taint |= {n.rpartition(".")[2] for n in names if "._" in n}
            elif op["op"] == "add_script" and path == op["path"]:
                pass
            else:
                g.taint.add("*")
        self.sim.log("taint", sorted(g.taint))

    # ------------------------------------------------------------ checks
    def lazy_fn(self, g):
        cur = g.lazy
        at = g.lazy_at_list

        def lazy(name):
            op = g.created.get(name)
            if op is not None and name in g.late and g.late[name][0] == op:
                return g.late[name][1]
            table = cur if op is None else at[op]
            return table.get(name, _MISSING)

        return lazy

    def cert_ctx(self, g):
        # (all modules of a distribution are loaded in one go)
        dgroups = [{p for n in d["import_names"] for p in model.prefixes(n)}
                   for d in map(self.dist_by_id, sorted(g.dists | g.may_dists)) if d]
        return {
            "lazy": self.lazy_fn(g), "supplied": g.supplied,
            "supplied_types": g.supplied_types, "hook_edges": g.hook_edges,
            "may_edges": g.may_edges, "roots": list(g.roots), "failed": g.failed, "may_roots": g.may_roots,
            # (the packages of a requested name are loaded together with it)
            "groups": g.groups + [set(model.prefixes(r)) for k, r in g.roots
                                  if k == "module"] + dgroups, "taint": g.taint, "loose": g.loose or g.failed,
            "scripts": g.scripts, "builtin_hooks": g.builtin_hooks, "dists": g.dists | g.may_dists, "sources": g.sources,
            "unreached_ok": g.unreached_ok, "partial": g.partial | {
                n for n in g.snap["nodes"] if any(n == p or n.startswith(p + ".")
                                                  for p in g.weak_packages)},
        }

    def certifier(self, g):
        c = Certifier(self.world, g.snap, self.cert_ctx(g))
        for d in g.dists:
            dist = self.dist_by_id(d)
            if dist is None:
                self.bad("dist-node", f"distribution node {d} is not an installed distribution")
                continue
            for nm in sorted(dist["import_names"]):
                c.need(d, c.nid(nm), DEFAULT, "dist")
        for d in sorted(g.may_dists - g.dists):
            for nm in sorted(self.dist_by_id(d)["import_names"]):
                c.may(d, c.nid(nm), DEFAULT)
        for X in sorted(g.snap["nodes"]):
            if X.startswith("_") and c.expect(X)["via"] == "swig":
                self.probe("swig")
            comp = c.mypyc_of(X)
            if comp:
                self.probe("mypyc")
                if g.failed:
                    c.may(X, c.nid(comp[0]), DEFAULT)
                    c.ctx["may_roots"] = c.ctx["may_roots"] | {comp[0]}
                    c.ctx["partial"] = c.ctx["partial"] | {comp[0]}
                else:
                    c.need(X, c.nid(comp[0]), DEFAULT, "hook")
                    c.ctx["roots"].append(("module", comp[0]))
                    c.ctx["groups"].append(set(model.prefixes(comp[0])))
        self.package_needs(g, c)
        return c

    def dist_by_id(self, ident):
        for here in self.world.distributions():
            for d in here:
                if d["id"] == ident:
                    return d
        return None

    def package_needs(self, g, c):
        """Edges import_package must have created."""
        done = set()
        st = [(p, False) for p in g.weak_packages] + [(p, True) for p in g.strong_packages]
        while st:
            name, must = st.pop()
            if (name, must) in done or (name, True) in done:
                continue
            done.add((name, must))
            # an interrupted subpackage loses the rest of that subpackage
            must = must and not any(t == name or t.startswith(name + ".") for t in c.taint)
            ident = c.nid(name)
            if g.snap["nodes"].get(ident, {}).get("t") not in model.PACKAGE_TYPES:
                continue
            ex = c.expect(ident)
            if ex["res"] is None:
                continue
            for d in ex["res"].node_search:
                if d not in self.world.dirs:
                    continue
                for fn in self.world.dirs[d]:
                    p = f"{d}/{fn}"
                    if self.world.isdir(p):
                        if not fn.isidentifier() or fn == "__pycache__":
                            continue
                        sub = f"{name}.{fn}"
                    elif fn.endswith(".py") and fn[:-3].isidentifier():
                        sub = f"{name}.{fn[:-3]}"
                    else:
                        continue
                    if fn == "__init__.py":
                        c.may(ident, c.nid(sub), DEFAULT)
                        continue
                    if must and not c.tainted(sub):
                        c.need(ident, c.nid(sub), DEFAULT, "pkg")
                    else:
                        c.may(ident, c.nid(sub), DEFAULT)
                    st.append((sub, must))

    def check_graph(self, g, i):
        if g.dead:
            return
        c = self.certifier(g)
        vs = c.run(g.snap["roots"])
        for k, v in c.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        for v in vs:
            v["op"] = i
        self.viol.extend(vs)
        if vs:
            return
        self.check_hooks(g, c, i)

    def check_hooks(self, g, c, i):
        nodes = g.snap["nodes"]
        byhook = {}
        for hid, ident, seq, opi, out, same in g.posts:
            byhook.setdefault((hid, ident), []).append((seq, opi, out, same))
        for (hid, ident), calls in sorted(byhook.items()):
            if len(calls) > 1:
                self.bad("post-twice", f"post hook {hid} called {len(calls)} times for {ident}",
                         node=ident)
            if not calls[0][3]:
                self.bad("post-node", f"post hook {hid}: node {ident} is not the graph's node",
                         node=ident)
        order = [h for h, _ in g.post_hooks]
        reg = dict(g.post_hooks)
        mods = set(nodes)
        for ident in sorted(mods):
            if nodes[ident]["t"] == "PyPIDistribution" or ident in g.supplied_types:
                continue
            if c.expect(ident)["via"] == "swig":
                continue    # (provided by a missing hook)
            created = g.created[ident]
            called = []
            for hid in order:
                if reg[hid] <= created:
                    if (hid, ident) not in byhook:
                        if ident not in g.hook_broken:
                            self.bad("post-missing", f"post hook {hid} not called for {ident}",
                                     node=ident)
                    else:
                        called.append((byhook[(hid, ident)][0][0], hid))
            got = [h for _, h in sorted(called)]
            want = [h for h in reversed(order) if h in got]
            if got != want:
                self.bad("post-order", f"post hooks for {ident} ran in order {got}, not {want}",
                         node=ident)
        # completeness of the node at the time of the call
        if not g.failed:
            hooked = {(s, c.nid(d)) for s, d in g.hook_edges}
            bysrc = {}
            for (s, d), dis in c.req.items():
                bysrc.setdefault(s, []).append((d, dis))
            for (hid, ident), calls in sorted(byhook.items()):
                out = calls[0][2]
                for d, dis in bysrc.get(ident, ()):
                    for di, why in dis.items():
                        if why not in ("import", "parent", "implied"):
                            continue
                        if why == "parent" and nodes[ident]["t"] == "MissingModule":
                            continue
                        if why == "import" and c.mypyc_of(ident):
                            continue    # (imports of its source)
                        if di not in out.get(d, ()):
                            if (ident, d) in hooked and why != "import":
                                continue
                            self.bad("post-early", f"post hook {hid} called for {ident} before "
                                     f"its edge to {d} {di} existed", node=ident, dst=d)
                for why, alts in c.choice:
                    if alts[0][0] == ident and not c.mypyc_of(ident) and not any(di in out.get(d, ())
                                                       for _, d, di in alts):
                        self.bad("post-early", f"post hook {hid} called for {ident} before "
                                 f"edges for '{why}' existed", node=ident)
        self.check_missing_calls(g, c)

    def check_missing_calls(self, g, c):
        nodes = g.snap["nodes"]
        order = [h for h, _ in g.missing_hooks]
        reg = dict(g.missing_hooks)
        calls = {}
        for rec in g.missing_calls:
            calls.setdefault(rec[2], []).append(rec)
        for name, recs in sorted(calls.items()):
            ex = c.expect(name) if name not in g.supplied_types else {"via": "missing"}
            if ex["via"] not in ("missing", "hook", "swig") and not c.tainted(name):
                self.bad("missing-needless", f"missing hook called for {name}, which is "
                         f"{ex['via']}", node=name)
            for rec in recs:
                if not rec[5]:
                    self.bad("missing-arg", f"missing hook for {name}: importing node is not "
                             f"in the graph", node=name)
            if name in g.nested:
                continue
            # split the calls into consultations: each is a run in reverse order
            runs, cur = [], []
            for rec in recs:
                if cur and (cur[-1][3] is not None or order.index(rec[0]) >= order.index(
                        cur[-1][0])):
                    runs.append(cur)
                    cur = []
                cur.append(rec)
            if cur:
                runs.append(cur)
            for r in runs:
                opi = g.created.get(g.supplied.get(name, name))
                have = [h for h in reversed(order) if opi is None or reg[h] <= opi]
                # (a hook that was added during the same call may or may not be asked)
                got = [x[0] for x in r if opi is None or reg[x[0]] != opi + 0.5]
                if r[-1][3] is None:
                    if got != have and not c.tainted(name):
                        self.bad("missing-order", f"missing hooks for {name} consulted as {got}, "
                                 f"should be {have}", node=name)
                elif got != have[: len(got)] and not c.tainted(name):
                    self.bad("missing-order", f"missing hooks for {name} consulted as {got}, "
                             f"should start {have}", node=name)
                imps = {x[1] for x in r}
                if len(imps) > 1:
                    self.bad("missing-arg", f"missing hooks for {name} got different importing "
                             f"modules {imps}", node=name)
                for x in r:
                    self.check_importer(g, c, x)
            declined = [r for r in runs if r[-1][3] is None]
            if len(declined) > 1 and not c.tainted(name):
                self.bad("missing-again", f"missing hooks consulted {len(declined)} times for "
                         f"{name} although it already had a node", node=name)
        if g.missing_hooks:
            for X in sorted(nodes):
                if nodes[X]["t"] == "MissingModule" and X not in calls:
                    if any(reg[h] <= g.created[X] for h in order):
                        self.bad("missing-skipped", f"missing hooks not consulted for {X}",
                                 node=X)

    def check_importer(self, g, c, rec):
        """The importing node must have a cause for the name it asked for."""
        hid, imp, name = rec[0], rec[1], rec[2]
        if g.failed:
            return
        nodes = g.snap["nodes"]
        if imp is None:
            want = set()
            for _, r in c.ctx["roots"]:
                want |= set(model.prefixes(r)) if not r.startswith("/") else set()
            for d in g.dists:
                dist = self.dist_by_id(d)
                for nm in dist["import_names"] if dist else ():
                    want |= set(model.prefixes(nm))
            for X in list(nodes):
                ex = c.expect(X)
                if ex.get("to"):
                    want |= set(model.prefixes(ex["to"]))
                if ex["res"] is not None and ex["res"].ns_type:
                    want.add(ex["res"].ns_type)
            closure = set()
            for w in want:
                c._load_group(w, closure)
            if name not in closure:
                self.bad("missing-arg", f"missing hook called for {name} without an importing "
                         f"module", node=name)
            return
        if imp not in nodes:
            self.bad("missing-arg", f"missing hook for {name}: unknown importer {imp}", node=name)
            return
        want = set()
        for im in c.imports_of(imp):
            b = c.base_of(imp, im)
            if b is None:
                continue
            c._load_group(b, want)
            tgt = b
            if c.expect(c.nid(b)).get("to"):
                tgt = c.real_of(b) or b
            for n, _ in im.names:
                c._load_group(f"{tgt}.{n}", want)
                c._load_group(f"{c.nid(tgt)}.{n}", want)
        for r in c.implied_refs(imp):
            c._load_group(r, want)
        ex = c.expect(imp)
        if ex.get("to"):
            c._load_group(ex["to"], want)
        for s, d in g.hook_edges:
            if s == imp:
                c._load_group(d, want)
        for p in g.packages:
            if imp == p or imp.startswith(p + "."):
                want.add(name)
        if name not in want:
            self.bad("missing-arg", f"missing hook for {name} got importer {imp}, which does not "
                     f"import it", node=name)

    # -- reports and queries
    def reachable(self, g):
        out = {}
        for (a, b) in g.snap["edges"]:
            out.setdefault(a, []).append(b)
        seen, st = set(), list(g.snap["roots"])
        while st:
            x = st.pop()
            if x not in seen:
                seen.add(x)
                st.extend(out.get(x, ()))
        return seen

    def check_export(self, g, op):
        buf = io.StringIO()
        fmt = op.get("format")
        if fmt is None:
            g.graph.report(buf)
            self.check_report(g, buf.getvalue())
            return
        main = sys.modules["modulegraph2.__main__"]
        html = fmt == "html"
        main.print_graph(buf, main.OutputFormat.HTML if html else main.OutputFormat.GRAPHVIZ,
                         g.graph)
        snap = self.snapshot(g)
        reach = self.reachable_of(snap)
        edges = {(a, b) for a, b in snap["edges"] if a in reach}
        (self.check_html if html else self.check_dot)(op, buf.getvalue(), snap, reach, edges)

    def check_report(self, g, text):
        snap = self.snapshot(g)
        lines = [ln for ln in text.split("\n")]
        body = [ln for ln in lines if ln.strip()][2:]
        want = []
        for x in sorted(self.reachable_of(snap)):
            info = snap["nodes"][x]
            if info["t"] == "PyPIDistribution":
                continue
            want.append((info["t"], x, info["file"] or ""))
        got = []
        for ln in body:
            parts = ln.split(None, 2)
            file = self.located(parts[2].strip()) if len(parts) > 2 else ""
            got.append((parts[0], parts[1], file))
        if got != want:
            self.bad("report", f"report lists {got}, should list {want}")

    def reachable_of(self, snap):
        out = {}
        for (a, b) in snap["edges"]:
            out.setdefault(a, []).append(b)
        seen, st = set(), list(snap["roots"])
        while st:
            x = st.pop()
            if x not in seen:
                seen.add(x)
                st.extend(out.get(x, ()))
        return seen

    def check_dists(self, g, op):
        reach = op.get("reachable", True)
        got = [d.identifier for d in (g.graph.distributions(reach) if "reachable" in op
                                      else g.graph.distributions())]
        snap = self.snapshot(g)
        ids = self.reachable_of(snap) if reach else set(snap["nodes"])
        want = sorted({snap["nodes"][x]["dist"] for x in ids
                       if snap["nodes"][x].get("dist") is not None})
        if sorted(got) != want:
            self.bad("dists-query", f"distributions(reachable={reach}) gave {sorted(got)}, "
                     f"should be {want}")

    # -- distribution lookups and disk changes
    def lookup(self, op):
        what = op["what"]
        path = op.get("path")
        d = self.mg._distributions if hasattr(self.mg, "_distributions") else None
        w = World(self.case, self.live_files())
        if path is not None:
            w.path = list(path)
        dists = w.distributions()
        flat = [x for here in dists for x in here]
        if what == "all":
            found = list(self.mg.all_distributions(path))
            ids = [x.identifier for x in found]
            self.check_identity(found)
            for x in found:
                self.check_dist_content(x, w)
            if not self.changing():
                if sorted(ids) != sorted(x["id"] for x in flat):
                    self.bad("dist-index", f"all_distributions gave {sorted(ids)}, should be "
                             f"{sorted(x['id'] for x in flat)}")
                ents = [self.entry_of(i) for i in ids]
                order = [w.path.index(e) for e in ents]
                if order != sorted(order):
                    self.bad("dist-index", f"all_distributions not in search path order: {ids}")
            else:
                self.check_moving(ids, what)
        elif what == "named":
            x = self.mg.distribution_named(op["name"], path)
            want = [y["id"] for here in dists for y in here if y["name"] == op["name"]]
            first = []
            for here in dists:
                first = [y["id"] for y in here if y["name"] == op["name"]]
                if first:
                    break
            if x is not None:
                self.check_identity([x])
                self.check_dist_content(x, w)
            if not self.changing():
                if (x is None) != (not want) or (x is not None and x.identifier not in first):
                    self.bad("dist-index", f"distribution_named({op['name']!r}) gave "
                             f"{x and x.identifier}, should be one of {first}")
        elif what == "file":
            x = d.distribution_for_file(op["file"], path if path is not None else w.path)
            first = []
            for here in dists:
                first = [y["id"] for y in here if op["file"] in y["files"]]
                if first:
                    break
            if not self.changing():
                if (x is None) != (not first) or (x is not None and x.identifier not in first):
                    self.bad("dist-index", f"distribution_for_file({op['file']!r}) gave "
                             f"{x and x.identifier}, should be one of {first}")

    def changing(self):
        return False

    def check_moving(self, ids, what):
        pass

    def entry_of(self, ident):
        return ident.rpartition("/")[0]

    def live_files(self):
        return self.world.files

    def check_identity(self, found):
        seen = self.__dict__.setdefault("dist_objects", {})
        for x in found:
            old = seen.setdefault(x.identifier, x)
            if old is not x:
                self.bad("dist-identity", f"two objects for {x.identifier}")

    def check_dist_content(self, x, w):
        n = x.identifier.rpartition("/")
        want = w.dist(n[0], n[2])
        if want is None:
            self.bad("dist-torn", f"{x.identifier} was reported although it is incomplete")
            return
        got = (x.name, x.version, set(x.files), set(x.import_names))
        if got != (want["name"], want["version"], want["files"], want["import_names"]):
            self.bad("dist-torn", f"{x.identifier} has {x.name} {x.version} {sorted(x.files)} "
                     f"{sorted(x.import_names)}, should have {want['name']} {want['version']} "
                     f"{sorted(want['files'])} {sorted(want['import_names'])}")

    def fs(self, op):
        files = self.world.files
        self.sim.now += 3_000_000_000
        for ch in op["changes"]:
            if ch["do"] == "put":
                self.sim.disk.put(ch["path"], world.file_bytes(ch["path"], ch["spec"]))
                files[ch["path"]] = ch["spec"]
            else:
                self.sim.disk.remove(ch["path"])
                files.pop(ch["path"], None)
        # directories stay when their last file goes
        self.world = World(self.case, files, self.world.dirs)
        self.code_cache.clear()
        importlib.invalidate_caches()

    def cli(self, op):
        raise simfs.SimCrash("cli in plain run")

    # ------------------------------------------------------------ main
    def run(self):
        self.setup()
        ops = self.case["ops"]
        for g in self.graphs:
            g.lazy_at_list = []
        self.sim.armed = True
        for i, op in enumerate(ops):
            for g in self.graphs:
                g.lazy_at_list.append(dict(g.lazy))
            self.run_op(i, op)
        self.sim.armed = False
        return self.finish()

    def finish(self):
        self.host_compare(self.host_before, "the whole run")
        for g in self.graphs:
            self.sim.log("graph", self.canonical(g.snap))
        return self.result()

    def obs(self):
        """What all variants of a case must agree on."""
        return {f"graph {i}": hashlib.sha256(self.canonical(g.snap).encode(
            "utf-8", "backslashreplace")).hexdigest()[:24] for i, g in enumerate(self.graphs)}

    def result(self):
        sim = self.sim
        return {
            "viol": [dict(v) for v in self.viol],
            "digest": sim.digest(),
            "graphs": [self.canonical(g.snap) for g in self.graphs],
            "steps": sim.steps,
            "sim_s": (sim.now - sim.start) / 1e9,
            "fired": sim.fired,
            "configured_faults": len(sim.faults),
            "actor_events": sim.actor_events,
            "counts": sim.counts,
            "history": self.history,
            "stats": self.stats,
            "probes": self.probes,
            "nodes": sum(len(g.snap["nodes"]) for g in self.graphs),
            "trace": sim.trace if sim.keep_trace else None,
            "nocmp": self.not_rejected,
            "obs": self.obs(),
        }


CODE_FIELDS = ("co_code", "co_names", "co_varnames", "co_freevars", "co_cellvars", "co_flags",
               "co_argcount", "co_posonlyargcount", "co_kwonlyargcount", "co_name",
               "co_qualname", "co_firstlineno", "co_exceptiontable", "co_linetable")


def same_code(a, b):
    """Equality of code objects (the builtin one takes exponential time for
    nested functions)."""
    todo = [(a, b)]
    while todo:
        a, b = todo.pop()
        if a is b:
            continue
        if type(a) is not type(b):
            return False
        if isinstance(a, types.CodeType):
            if any(getattr(a, f) != getattr(b, f) for f in CODE_FIELDS):
                return False
            todo.append((a.co_consts, b.co_consts))
        elif isinstance(a, tuple):
            if len(a) != len(b):
                return False
            todo += zip(a, b)
        elif repr(a) != repr(b) if isinstance(a, (float, complex)) else a != b:
            return False
    return True


def describe(op):
    k = op["op"]
    arg = op.get("name", op.get("path", op.get("names", op.get("map", op.get("acts", "")))))
    return f"{k}({arg!r})" if arg != "" else k


def exc_text(e):
    import traceback

    tb = traceback.extract_tb(e.__traceback__)
    last = [f for f in tb if "/repo/" in f.filename or "modulegraph2" in f.filename]
    loc = (f" at {os.path.basename(last[-1].filename)}:{last[-1].name}:{last[-1].line}"
           if last else "")
    return f"{type(e).__name__}: {str(e)[:200]}{loc}"


def diff(a, b):
    out = []
    for k in sorted(set(a["nodes"]) ^ set(b["nodes"])):
        out.append(f"node {k}")
    for k in sorted(set(a["edges"]) ^ set(b["edges"])):
        out.append(f"edge {k}")
    if a["roots"] != b["roots"]:
        out.append(f"roots {sorted(set(a['roots']) ^ set(b['roots']))}")
    for k in sorted(set(a["nodes"]) & set(b["nodes"])):
        if a["nodes"][k] != b["nodes"][k]:
            out.append(f"attributes of {k}: {a['nodes'][k]} / {b['nodes'][k]}")
    for k in sorted(set(a["edges"]) & set(b["edges"])):
        if a["edges"][k] != b["edges"][k]:
            out.append(f"annotations of {k}: {a['edges'][k]} / {b['edges'][k]}")
    return out[:8]
