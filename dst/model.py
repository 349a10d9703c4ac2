"""Executable reference model.

Two parts, both independent of modulegraph2 and of importlib:

* ``World`` decides from the case's file specs what Python would import for a
  name (which file, which kind, which search path) and which import statements
  and global names a module has.
* ``Certifier`` takes an observed graph and decides whether it is exactly the
  closure of the requested roots: every dependency that must be there is there
  (lower bound) and everything that is there has a cause (upper bound).  No
  work-queue order is simulated; the few outcomes that legitimately depend on
  processing order (imported names inside import cycles) are accepted in each
  of their legal forms and in no other.
"""

import _imp
import dis
import os
import sys

from .world import CTX_COND, CTX_FUNC, CTX_TRY

EXT_SUFFIXES = (".cpython-312-x86_64-linux-gnu.so", ".abi3.so", ".so")
SUFFIXES = EXT_SUFFIXES + (".py", ".pyc")
BUILTINS = frozenset(sys.builtin_module_names)
DEFAULT = (False, True, False, None)

MODULE_TYPES = frozenset(
    ["SourceModule", "BytecodeModule", "ExtensionModule", "BuiltinModule",
     "InvalidModule", "FrozenModule"])
PACKAGE_TYPES = frozenset(["Package", "FrozenPackage"])

_MISSING = object()

FROZEN = {"__hello__": 0, "__phello__": 1, "__phello__.spam": 0, "__phello__.ham": 1,
          "__phello__.ham.eggs": 0, "stat": 0}
FROZEN_BODY = {"stat": [{"k": "from", "m": "_stat", "lvl": 0, "names": [["*", None]],
                         "ctx": ["try"]}]}


def frozen_globals(name):
    out, todo = set(), [_imp.get_frozen_object(name)]
    while todo:
        co = todo.pop()
        out |= {i.argval for i in dis.get_instructions(co)
                if i.opname in ("STORE_NAME", "STORE_GLOBAL")
                and (i.opname == "STORE_GLOBAL" or co.co_name == "<module>")}
        todo += [c for c in co.co_consts if hasattr(c, "co_code")]
    return out


class Imp:
    __slots__ = ("frm", "level", "mod", "names", "star", "opt", "glob", "asn")

    def __init__(self, frm, level, mod, names, star, opt, glob, asn):
        self.frm, self.level, self.mod, self.names = frm, level, mod, names
        self.star, self.opt, self.glob, self.asn = star, opt, glob, asn


def flags(ctx, bytecode):
    fn = any(c in CTX_FUNC for c in ctx)
    if bytecode:
        return fn, not fn
    return (fn or any(c in CTX_COND or c in CTX_TRY for c in ctx)), not fn


def live(body):
    """Statements the compiler keeps: none after an unconditional raise."""
    out = []
    for s in body:
        if s["k"] == "raise":
            break
        out.append(s)
    return out


def body_imports(body, bytecode=False):
    out = []
    for s in live(body) if bytecode else body:
        if s["k"] not in ("import", "from"):
            continue
        opt, glob = flags(s.get("ctx", ()), bytecode)
        if s["k"] == "import":
            out.append(Imp(False, 0, s["n"], (), False, opt, glob,
                           None if bytecode else s.get("as")))
        else:
            # duplicate names in one list collapse (last "as" may be any)
            names, star = [], False
            for n, a in s["names"]:
                if n == "*":
                    star = True
                else:
                    names.append((n, None if bytecode else a))
            out.append(Imp(True, s.get("lvl", 0), s.get("m", ""), names, star, opt,
                           glob, None))
    return out


def body_globals(body):
    """Global names the compiled module writes."""
    g = set()
    for s in live(body):
        ctx = s.get("ctx", ())
        inner = any(c in CTX_FUNC or c == "class" for c in ctx)
        k = s["k"]
        if k == "import" and not inner:
            g.add(s["as"] if s.get("as") else s["n"].split(".")[0])
        elif k == "from" and not inner:
            for n, a in s["names"]:
                if n != "*":
                    g.add(n)
                    g.add(a or n)
        elif k == "set":
            if not inner:
                g.add(s["n"])
            elif s.get("glob"):
                g.add(s["n"])
        elif k == "swig":
            g.add("swig_import_helper")
        elif k == "bulk":
            g.add("_bulk")
    return g


NS_TYPE = {"dunder": "pkgutil", "pkgres": "pkg_resources", "combo": "pkg_resources"}


class Res:
    """What the import system finds for one name."""

    __slots__ = ("name", "kind", "fkind", "spec", "file", "search", "node_search",
                 "zip", "ns_type", "dirname")

    def __init__(self, name, kind, fkind=None, spec=None, file=None, search=None,
                 node_search=None, zip=None, ns_type=None, dirname=None):
        self.name, self.kind, self.fkind, self.spec = name, kind, fkind, spec
        self.file, self.search, self.node_search = file, search, node_search
        self.zip, self.ns_type, self.dirname = zip, ns_type, dirname

    @property
    def module_type(self):
        """Class of the module (for packages: of the init module)."""
        if self.kind == "builtin":
            return "BuiltinModule"
        if self.fkind == "ext":
            return "ExtensionModule"
        if self.fkind == "frozen":
            return "FrozenModule"
        if self.fkind == "pyc":
            return "InvalidModule" if self.spec.get("bad") else "BytecodeModule"
        if self.spec.get("bad") in (None, "latin", "bom"):
            return "SourceModule"
        return "InvalidModule"

    @property
    def node_type(self):
        if self.kind == "ns":
            return "NamespacePackage"
        if self.kind == "pkg":
            return "FrozenPackage" if self.fkind == "frozen" else "Package"
        return self.module_type

    def imports(self):
        if self.kind in ("ns", "builtin") or self.fkind == "ext":
            return []
        if self.fkind == "frozen":
            return body_imports(FROZEN_BODY.get(self.name, ()), True)
        bad = self.spec.get("bad")
        if self.fkind == "pyc":
            return [] if bad else body_imports(self.spec.get("body", ()), True)
        if bad in (None, "latin", "bom") or (bad == "return" and not self.zip):
            return body_imports(self.spec.get("body", ()))
        return []

    def globals(self):
        if self.kind in ("ns", "builtin") or self.fkind == "ext":
            return set()
        if self.fkind == "frozen":
            return frozen_globals(self.name)
        bad = self.spec.get("bad")
        if self.fkind == "pyc":
            return set() if bad else body_globals(self.spec.get("body", ()))
        if bad in (None, "latin", "bom"):
            return body_globals(self.spec.get("body", ()))
        return set()

    def has_code(self):
        return self.module_type in ("SourceModule", "BytecodeModule", "FrozenModule")


class World:
    def __init__(self, case, files=None, dirs=()):
        self.case = case
        self.files = dict(case["files"] if files is None else files)
        self.path = list(case["path"])
        self.dirs = {"/simdisk": set()}
        for d in [*case.get("dirs", ()), *dirs]:
            self._adddir(d)
        for p in self.files:
            self._adddir(p.rpartition("/")[0])
            self.dirs[p.rpartition("/")[0]].add(p.rpartition("/")[2])
        if case.get("pycache"):
            for p, s in list(self.files.items()):
                if s["k"] == "py" and not s.get("bad"):
                    self._adddir(p.rpartition("/")[0] + "/__pycache__")
        self.zips = {}
        for p, s in self.files.items():
            if s["k"] == "zip" and not s.get("bad"):
                mem, zd = {}, set()
                for rel, ms in s["members"].items():
                    mem[rel] = ms
                    parts = rel.split("/")[:-1]
                    for j in range(1, len(parts) + 1):
                        zd.add("/".join(parts[:j]))
                # Directories exist in a zip only through explicit entries or
                # (for zipimport of 3.12) not at all when implicit.
                self.zips[p] = (mem, zd if s.get("dirs") else set())
        self.host_none = set()
        self.host_alias = {}
        self.host_pathless = set()
        for h in case.get("host", ()):
            if h["do"] == "none":
                self.host_none.add(h["name"])
            elif h["do"] == "alias":
                self.host_alias[h["name"]] = h["to"]
        self._cache = {}

    def _adddir(self, d):
        while d not in self.dirs:
            self.dirs[d] = set()
            parent, _, name = d.rpartition("/")
            if not parent:
                break
            self._adddir(parent)
            self.dirs[parent].add(name)
            break

    def isdir(self, p):
        return p in self.dirs

    def isfile(self, p):
        return p in self.files

    # -- import resolution
    def _in_entry(self, entry, tail):
        """(kind, ...) for the module *tail* in one search path entry."""
        for z, (mem, zd) in self.zips.items():
            if entry == z or entry.startswith(z + "/"):
                prefix = entry[len(z) + 1:]
                rel = (prefix + "/" if prefix else "") + tail
                # (a bytecode member next to its source is stale)
                for sfx, pkg in (("/__init__.py", 1), ("/__init__.pyc", 1),
                                 (".py", 0), (".pyc", 0)):
                    if rel + sfx in mem:
                        return ("pkg" if pkg else "mod", f"{z}/{rel}{sfx}", mem[rel + sfx],
                                f"{z}/{rel}" if pkg else None, z)
                if rel in zd:
                    return ("portion", None, None, f"{z}/{rel}", z)
                return None
        if not self.isdir(entry):
            return None
        base = f"{entry}/{tail}"
        names = self.dirs[entry]
        portion = False
        if tail in names and self.isdir(base):
            for sfx in SUFFIXES:
                f = f"{base}/__init__{sfx}"
                if self.isfile(f):
                    return ("pkg", f, self.files[f], base, None)
            portion = True
        for sfx in SUFFIXES:
            f = base + sfx
            if tail + sfx in names and self.isfile(f):
                return ("mod", f, self.files[f], None, None)
        if portion:
            return ("portion", None, None, base, None)
        return None

    def resolve(self, name):
        if name in self._cache:
            return self._cache[name]
        self._cache[name] = None
        r = self._resolve(name)
        self._cache[name] = r
        return r

    def ns_works(self, spec):
        """Does the package succeed in extending its path?"""
        if spec.get("nsraise"):
            return False
        if spec["ns"] == "pkgres":
            r = self.resolve("pkg_resources")
            return r is not None and r.fkind == "py" and (r.spec or {}).get("ns") == "stub"
        return True

    def _resolve(self, name):
        if name in self.host_none:
            return None
        parent, _, tail = name.rpartition(".")
        if parent:
            pr = self.resolve(self.host_alias.get(parent, parent))
            if pr is None or pr.search is None:
                return None
            path = pr.search
        else:
            if name in BUILTINS:
                return Res(name, "builtin")
            path = self.path
        if name in FROZEN:
            if not FROZEN[name]:
                return Res(name, "mod", "frozen")
            d = os.path.dirname(os.__file__) + "/" + name.replace(".", "/")
            return Res(name, "pkg", "frozen", search=[d], node_search=[d])
        portions = []
        for entry in path:
            hit = self._in_entry(entry, tail)
            if hit is None:
                continue
            kind, f, spec, d, z = hit
            if kind == "portion":
                portions.append(d)
                continue
            fkind = ("ext" if f.endswith(".so") else "pyc" if f.endswith(".pyc") else "py")
            if kind == "mod" or (z and spec.get("bad")):
                # (zipimport compiles a module to find it: an invalid package
                # in an archive is an invalid module without submodules)
                return Res(name, "mod", fkind, spec, f, zip=z)
            search = [d]
            nst = spec.get("ns")
            if nst and self.ns_works(spec):
                for e2 in self.path if not parent else path:
                    h2 = self._in_entry(e2, tail)
                    if h2 and h2[3] and h2[3] not in search:
                        search.append(h2[3])
            return Res(name, "pkg", fkind, spec, f, search=search,
                       node_search=search if nst != "plain" else [d], zip=z,
                       ns_type=NS_TYPE.get(nst), dirname=d)
        if portions:
            return Res(name, "ns", search=portions, node_search=list(portions))
        return None

    def has_data(self, res):
        """True if the package directory contains data files."""
        if res.fkind == "frozen":
            return False
        if res.zip:
            mem, _ = self.zips[res.zip]
            prefix = res.dirname[len(res.zip) + 1:] + "/"
            for rel in mem:
                if rel.startswith(prefix):
                    if any(p in ("__pycache__", ".hg", ".svn") for p in rel.split("/")):
                        continue
                    if rel.endswith(SUFFIXES):
                        continue
                    return True
            return False
        stack = [res.dirname]
        while stack:
            d = stack.pop()
            for n in self.dirs[d]:
                if n.endswith(SUFFIXES) or n in ("__pycache__", ".hg", ".svn"):
                    continue
                p = f"{d}/{n}"
                if self.isdir(p):
                    stack.append(p)
                else:
                    return True
        return False

    # -- distributions
    def distributions(self):
        """Complete distributions in search path order: list of lists."""
        out = []
        for entry in self.path:
            here = []
            if self.isdir(entry):
                for n in sorted(self.dirs[entry]):
                    if n.endswith(".dist-info"):
                        d = self.dist(entry, n)
                        if d is not None:
                            here.append(d)
            out.append(here)
        return out

    def dist(self, entry, n):
        base = f"{entry}/{n}"
        meta = self.files.get(base + "/METADATA")
        rec = self.files.get(base + "/RECORD")
        if meta is None or rec is None or not self.isdir(base):
            return None
        return parse_dist(base, meta, rec)

    def dist_of_file(self, f):
        """Identifiers of the distributions the file may be attributed to."""
        for here in self.distributions():
            hit = [d["id"] for d in here if f in d["files"]]
            if hit:
                return hit
        return [None]


def parse_dist(base, meta, rec):
    if meta["k"] != "text" or rec["k"] != "text":
        return None
    name = version = None
    for ln in meta["text"].split("\n"):
        if not ln.strip():
            break
        k, _, v = ln.partition(":")
        if k == "Name" and name is None:
            name = v.strip()
        elif k == "Version" and version is None:
            version = v.strip()
    if name is None or version is None:
        return None
    root = base.rpartition("/")[0]
    files, names = set(), set()
    for ln in rec["text"].split("\n"):
        if not ln:
            continue
        rel = ln.rsplit(",", 2)[0]
        if rel.startswith('"') and rel.endswith('"'):
            rel = rel[1:-1].replace('""', '"')
        full = normpath(rel if rel.startswith("/") else root + "/" + rel)
        files.add(full)
        parts = rel.split("/")
        if "__pycache__" in parts[:-1] or rel.startswith("/") or ".." in parts:
            continue
        for sfx in (".py", ".pyc") + EXT_SUFFIXES:
            if rel.endswith(sfx):
                stem = rel[: -len(sfx)]
                if stem.endswith("/__init__"):
                    stem = stem[: -len("/__init__")]
                if all(x and "." not in x for x in stem.split("/")):
                    names.add(stem.replace("/", "."))
                break
    return {"id": base, "name": name, "version": version, "files": files,
            "import_names": names}


def normpath(p):
    out = []
    for x in p.split("/"):
        if x == "..":
            if out:
                out.pop()
        elif x and x != ".":
            out.append(x)
    return "/" + "/".join(out)


def prefixes(name):
    parts = name.split(".")
    return [".".join(parts[:i]) for i in range(1, len(parts) + 1)]


class V(dict):
    """One violation: class, detail."""


def viol(cls, detail, **kw):
    return V(cls=cls, detail=detail, **kw)


class Certifier:
    """Decides whether an observed graph is exactly what was asked for.

    ctx fields:
      lazy(name)     effective implied value before the op that created the node
      supplied       {name: node id} answers of missing hooks
      hook_edges     list of (src, dst) requested explicitly by hooks/contexts
      roots          list of ("module"|"script"|"dist", id)
      groups         list of sets of names that may have been loaded in one go
      taint          names whose loading a fault may have disturbed
      loose          True: treat processing order as unknown everywhere
      sources        ids that may exist without being reachable
    """

    def __init__(self, world, snap, ctx):
        self.w = world
        self.n = snap["nodes"]
        self.e = snap["edges"]
        self.out = {}
        for (a, b), ed in self.e.items():
            self.out.setdefault(a, {})[b] = ed
        self.ctx = ctx
        self.taint = ctx.get("taint") or set()
        self.viol = []
        self.req = {}       # (src,dst) -> {di: (reason)}
        self.opt = {}       # (src,dst) -> set(di)
        self.choice = []    # (reason, [ (src,dst,di), ...])
        self.stray_ok = set()
        self.maybe_stray = set()
        self._res = {}
        self._taintc = {}
        self._mypyc = {}
        self._gmax = None
        self.stats = {"order_dependent": 0, "choice": 0, "req": 0}

    # -- helpers
    def bad(self, cls, detail, **kw):
        self.viol.append(viol(cls, detail, **kw))

    def nid(self, name):
        return self.ctx.get("supplied", {}).get(name, name)

    def need(self, src, dst, di, why):
        self.req.setdefault((src, dst), {}).setdefault(di, why)

    def may(self, src, dst, di):
        self.opt.setdefault((src, dst), set()).add(di)

    def lazy(self, name):
        return self.ctx["lazy"](name)

    def tainted(self, *names):
        """May a failure have interrupted the resolution of one of *names*?"""
        if not self.taint:
            return False
        if "*" in self.taint:
            return True
        for n in names:
            if n not in self._taintc:
                self._taintc[n] = n in self.taint or bool(self._load_group(n) & self.taint)
            if self._taintc[n]:
                return True
        return False

    # -- what node should X be
    def expect(self, X):
        """-> dict(t=set of acceptable types, res=Res|None, via=...)"""
        if X in self._res:
            return self._res[X]
        self._res[X] = r = self._expect(X)
        return r

    def _expect(self, X):
        if X.startswith("."):
            return {"t": {"InvalidRelativeImport"}, "res": None, "via": "invalidrel"}
        if X in self.ctx.get("scripts", {}):
            return {"t": {"Script"}, "res": None, "via": "script"}
        if X in self.ctx.get("dists", ()):
            return {"t": {"PyPIDistribution"}, "res": None, "via": "dist"}
        sup = self.ctx.get("supplied_types", {})
        if X in sup:
            return {"t": {sup[X]}, "res": None, "via": "hook"}
        parent = X.rpartition(".")[0]
        if parent:
            pt = self.n.get(self.nid(parent), {}).get("t")
            if pt == "MissingModule":
                return {"t": {"MissingModule"}, "res": None, "via": "missing"}
            if pt == "ExcludedModule":
                return {"t": {"ExcludedModule"}, "res": None, "via": "excluded"}
        v = self.lazy(X)
        if v is not _MISSING:
            if v is None:
                return {"t": {"ExcludedModule"}, "res": None, "via": "excluded"}
            if isinstance(v, dict):
                return {"t": {"AliasNode" if "alias" in v else "VirtualNode"},
                        "res": None, "via": "alias" if "alias" in v else "virtual",
                        "to": v.get("alias", v.get("virtual"))}
        if X in self.w.host_alias and X not in self.w.host_none:
            return {"t": {"AliasNode"}, "res": None, "via": "hostalias",
                    "to": self.w.host_alias[X]}
        res = self.w.resolve(X)
        if res is None:
            found = self.swig_file(X) if self.ctx.get("builtin_hooks") else None
            if found:
                return {"t": found[1], "res": None, "via": "swig", "file": found[0]}
            return {"t": {"MissingModule"}, "res": None, "via": "missing"}
        return {"t": {res.node_type}, "res": res, "via": "file"}

    def swig_file(self, X):
        """Extension next to the module that SWIG generated for it.

        -> (file, acceptable node types) or None
        """
        if not X.startswith("_") or "." in X or X not in self.n:
            return None
        files, users, copied = set(), set(), set()
        for M in self.n:
            t = self.n[M]["t"]
            if M.rpartition(".")[2] != X[1:] or not (
                    t in MODULE_TYPES or t in PACKAGE_TYPES):
                continue
            if "swig_import_helper" not in self.gmin(M):
                # the helper may arrive through a star import
                if not any(i.star for i in self.imports_of(M)):
                    continue
                copied.add(M)
            where = M if t in PACKAGE_TYPES else M.rpartition(".")[0]
            r = self.w.resolve(f"{where}.{X}") if where else None
            if r is not None and r.kind == "mod" and r.fkind == "ext" and r.file:
                files.add(r.file)
                users.add(M)
        if not files:
            return None
        # (other modules of this kind import nothing)
        rest = [M for M in self.n if M not in users and not (
            M.startswith("_") and "." not in M and self.w.resolve(M) is None)]
        others = {M for M in rest for imp in self.imports_of(M)
                  if not imp.level and prefixes(imp.mod)[0] == X}
        sure = any(not imp.level and imp.mod.split(".")[0] == X
                   for M in users for imp in self.imports_of(M))
        asked = {x for g in self.ctx.get("groups", ()) for x in g}
        if not sure or copied & users or others or X in asked or self.taint or X in {
                i for _, i in self.ctx["roots"]} or any(
                X in self.implied_refs(M) for M in rest):
            return files, {"ExtensionModule", "MissingModule"}
        return files, {"ExtensionModule"}

    # -- globals
    def gmin(self, X):
        ex = self.expect(X)
        return ex["res"].globals() if ex["res"] is not None else set()

    def imports_of(self, X):
        ex = self.expect(X)
        if ex["via"] == "script":
            return body_imports(self.ctx["scripts"][X])
        if ex["res"] is not None:
            comp = self.mypyc_of(X)
            return comp[1] if comp else ex["res"].imports()
        return []

    def mypyc_of(self, X):
        """(helper module, imports of the source) of an extension made by mypyc."""
        if X in self._mypyc:
            return self._mypyc[X]
        out = None
        res = self.expect(X)["res"]
        if self.ctx.get("builtin_hooks") and res is not None and res.fkind == "ext" \
                and self.n.get(X, {}).get("dist"):
            dist = [d for here in self.w.distributions() for d in here
                    if d["id"] == self.n[X]["dist"]]
            helper = sorted(n for d in dist[:1] for n in d["import_names"]
                            if n.endswith("__mypyc"))
            at, _, base = res.file.rpartition("/")
            src = self.w.files.get(f"{at}/{base.split('.')[0]}.py")
            if helper and src is not None:
                out = helper[0], (body_imports(src.get("body", ()))
                                  if src["k"] == "py" and src.get("bad") in (
                                      None, "latin", "bom", "return") else [])
        self._mypyc[X] = out
        return out

    def base_of(self, X, imp):
        """Absolute name of the imported module, or None if invalid."""
        if not imp.level:
            return imp.mod
        if self.expect(X)["via"] == "script":
            return None
        t = self.n[X]["t"]
        bits = X.split(".")
        drop = imp.level
        if t in PACKAGE_TYPES or t == "NamespacePackage":
            drop -= 1
        if len(bits) <= drop:
            return None
        base = ".".join(bits[: len(bits) - drop])
        return f"{base}.{imp.mod}" if imp.mod else base

    def gmax(self):
        if self._gmax is not None:
            return self._gmax
        g, star = {}, []
        for X in self.n:
            if self.n[X]["t"] in MODULE_TYPES or self.n[X]["t"] in PACKAGE_TYPES:
                g[X] = set(self.gmin(X))
                for imp in self.imports_of(X):
                    if imp.star:
                        b = self.base_of(X, imp)
                        if b is not None:
                            star.append((X, self.nid(b)))
                    g[X].update(n for n, _ in imp.names)
        changed = True
        while changed:
            changed = False
            for X, A in star:
                if A in g and not g[A] <= g[X]:
                    g[X] |= g[A]
                    changed = True
        self._gmax = g
        return g

    # -- processing order
    def reach(self, start):
        seen, st = set(), list(start)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(self.out.get(x, ()))
        return seen

    def settled(self, A, M):
        if self.ctx.get("loose"):
            return False
        if not hasattr(self, "_groups"):
            self._build_groups()
        if A not in self._reach:
            start = {A}
            for g in self._bygroup.get(A, ()):
                start |= g
            self._reach[A] = self.reach(start)
        return M not in self._reach[A]

    def _load_group(self, name, acc=None):
        """Names that finding or loading *name* may load in one go."""
        acc = set() if acc is None else acc
        st = [name]
        while st:
            x = st.pop()
            if x in acc:
                continue
            acc.add(x)
            for p in prefixes(x):
                if p not in acc:
                    st.append(p)
            i = self.nid(x)
            if i not in acc:
                acc.add(i)
            for r in self.implied_refs(x):
                st.append(r)
            ex = self.expect(x)
            if ex.get("to"):
                st.append(ex["to"])
            if ex["res"] is not None and ex["res"].ns_type:
                st.append(ex["res"].ns_type)
        return acc

    def _build_groups(self):
        self._groups = []
        self._reach = {}
        for X in self.n:
            for imp in self.imports_of(X):
                b = self.base_of(X, imp)
                if b is None:
                    continue
                self._groups.append(self._load_group(b))
                if imp.names:
                    g = set()
                    tgt = b
                    if self.expect(self.nid(b)).get("to"):
                        tgt = self.real_of(b) or b
                    for n, _ in imp.names:
                        self._load_group(f"{tgt}.{n}", g)
                    self._groups.append(g)
        for names in self.ctx.get("groups", ()):
            g = set()
            for n in names:
                self._load_group(n, g)
            self._groups.append(g)
        self._bygroup = {}
        for g in self._groups:
            for x in g:
                self._bygroup.setdefault(x, []).append(g)

    def implied_refs(self, X):
        ex = self.expect(X)
        if ex["via"] in ("excluded", "alias", "virtual", "invalidrel", "script", "dist"):
            return ()
        parent = X.rpartition(".")[0]
        if parent and self.n.get(self.nid(parent), {}).get("t") in (
                "MissingModule", "ExcludedModule"):
            return ()
        v = self.lazy(X)
        if v is _MISSING or v is None or isinstance(v, dict):
            return ()
        return tuple(v)

    # -- expected edges
    def build(self):
        for X in list(self.n):
            self.node_edges(X)
        for src, dst in self.ctx.get("hook_edges", ()):
            if self.tainted(dst):
                self.may(self.nid(src), self.nid(dst), DEFAULT)
            else:
                self.need(self.nid(src), self.nid(dst), DEFAULT, "hook")
        for src, dst, di in self.ctx.get("may_edges", ()):
            self.may(src, dst, di)
        if self.ctx.get("failed"):
            # the hook for modules made by mypyc may have been interrupted
            for (s, d), dis in list(self.req.items()):
                if self.n.get(s) and self.mypyc_of(s):
                    for di in [k for k, why in dis.items() if why == "import"]:
                        del dis[di]
                        self.may(s, d, di)
            self.choice = [c for c in self.choice if not self.mypyc_of(c[1][0][0])]

    def node_edges(self, X):
        ex = self.expect(X)
        via = ex["via"]
        # containment
        if via in ("file", "excluded", "alias", "virtual", "hostalias", "missing", "hook"):
            parent = X.rpartition(".")[0]
            if parent and via == "missing":
                self.maybe_stray.add(X)
                self.may(X, self.nid(parent), DEFAULT)
            elif parent and via == "hook" and X not in self.ctx.get("supplied", {}).values():
                self.may(X, self.nid(parent), DEFAULT)
            elif parent:
                if self.tainted(X) and (via != "file" or X in self.w.host_alias.values()):
                    self.may(X, self.nid(parent), DEFAULT)
                else:
                    self.need(X, self.nid(parent), DEFAULT, "parent")
        if via in ("alias", "virtual", "hostalias"):
            self.need_t(X, ex["to"], DEFAULT, "implied")
        refs = self.implied_refs(X)
        weak = self.tainted(*refs)  # (a failure in one interrupts the others)
        for r in refs:
            if weak:
                self.may(X, self.nid(r), DEFAULT)
            else:
                self.need(X, self.nid(r), DEFAULT, "implied")
        if ex["res"] is not None and ex["res"].ns_type:
            self.need_t(X, ex["res"].ns_type, DEFAULT, "import")
        for imp in self.imports_of(X):
            self.import_edges(X, imp)

    def need_t(self, src, name, di, why):
        if self.tainted(name):
            self.may(src, self.nid(name), di)
        else:
            self.need(src, self.nid(name), di, why)

    def import_edges(self, M, imp):
        base = self.base_of(M, imp)
        if base is None:
            self.need(M, "." * imp.level + imp.mod, (imp.opt, imp.glob, False, None), "import")
            return
        A = self.nid(base)
        self.need_t(M, base, (imp.opt, imp.glob, False, imp.asn), "import")
        if not imp.names:
            return
        if A not in self.n:
            return
        t = self.n[A]["t"]
        if t == "AliasNode":
            A = self.real_of(A)
            if A not in self.n:
                return
            t = self.n[A]["t"]
        plain = t in MODULE_TYPES
        if not (plain or t in PACKAGE_TYPES or t == "NamespacePackage"):
            return
        # a failure in one name interrupts the whole statement
        tainted = self.tainted(base, *(f"{A}.{nm}" for nm, _ in imp.names))
        for nm, asn in imp.names:
            self.name_edges(M, A, t, plain, nm, asn, imp, tainted)

    def name_edges(self, M, A, t, plain, nm, asn, imp, tainted):
        di = (imp.opt, imp.glob, True, asn)
        sub = f"{A}.{nm}"
        S = self.nid(sub)
        matches = [tgt for tgt, eds in self.out.get(A, {}).items()
                   if tgt == nm or any(ed[3] == nm for ed in eds)]
        if plain or t in PACKAGE_TYPES:
            inmin = nm in self.gmin(A) or A == M
            inmax = inmin or nm in self.gmax().get(A, ())
        else:
            inmin = inmax = False
        sub_exists = S in self.n and self.n[S]["t"] != "MissingModule"
        if plain:
            if not inmax or not matches:
                return
            alts = [(M, tgt, di) for tgt in matches]
            for a in alts:
                self.may(*a)
            if inmin and self.settled(A, M) and not tainted:
                self.choice.append((f"{M} imports name {nm} of {A}", alts))
            else:
                self.stats["order_dependent"] += 1
            return
        if not inmax:
            if tainted:
                self.may(M, S, di)
                self.may(S, A, DEFAULT)
            else:
                self.need(M, S, di, "import")
                self.need(S, A, DEFAULT, "parent")
            return
        if not matches:
            if not sub_exists:
                self.stray_ok.add(sub)
            if tainted or (not inmin and not sub_exists):
                self.may(M, S, di)
                self.may(S, A, DEFAULT)
            elif sub_exists or self.w_exists(sub):
                self.need(M, S, di, "import")
                self.need(S, A, DEFAULT, "parent")
            return
        alts = [(M, tgt, di) for tgt in matches]
        for a in alts:
            self.may(*a)
        settled = self.settled(A, M)
        if settled and inmin:
            if not tainted:
                self.choice.append((f"{M} imports name {nm} of {A}", alts))
            return
        self.stats["order_dependent"] += 1
        self.may(M, S, di)
        self.may(S, A, DEFAULT)
        self.stray_ok.add(sub)
        if not tainted and (sub_exists or self.w_exists(sub)):
            self.choice.append((f"{M} imports name {nm} of {A}", alts + [(M, S, di)]))

    def real_of(self, name):
        """The module at the end of a chain of aliases, or None."""
        seen = set()
        A = self.nid(name)
        while A not in seen:
            seen.add(A)
            ex = self.expect(A)
            if ex["via"] not in ("alias", "hostalias"):
                return A
            A = self.nid(ex["to"])
        return None

    def w_exists(self, name):
        """Would a node for *name* be something other than missing?"""
        ex = self.expect(name)
        return ex["via"] not in ("missing",)

    # -- verdicts
    def check_nodes(self):
        for X in sorted(self.n):
            info = self.n[X]
            ex = self.expect(X)
            if info["t"] not in ex["t"]:
                self.bad("node-kind", f"{X}: is {info['t']}, should be "
                         f"{'/'.join(sorted(ex['t']))} ({ex['via']})", node=X, via=ex["via"])
                continue
            if info.get("name") != X and info["t"] != "PyPIDistribution":
                self.bad("node-kind", f"{X}: name attribute is {info.get('name')!r}", node=X)
            if ex["via"] in ("alias", "hostalias"):
                if info.get("actual") != ex["to"]:
                    self.bad("node-alias", f"{X}: alias of {info.get('actual')}, should be "
                             f"{ex['to']}", node=X)
            elif ex["via"] == "virtual":
                if info.get("prov") != ex["to"]:
                    self.bad("node-alias", f"{X}: provided by {info.get('prov')}, should be "
                             f"{ex['to']}", node=X)
            res = ex["res"]
            if ex["via"] == "swig" and info["t"] == "ExtensionModule" and \
                    info["file"] not in ex["file"]:
                self.bad("node-file", f"{X}: file {info['file']} is none of {ex['file']}", node=X)
            if res is None:
                continue
            if res.kind == "ns":
                if info["sp"] != res.node_search:
                    self.bad("node-path", f"{X}: search path {info['sp']} != {res.node_search}",
                             node=X)
                if info.get("data"):
                    self.bad("node-data", f"{X}: namespace package with data files", node=X)
                continue
            if res.kind == "builtin":
                if info["file"] is not None:
                    self.bad("node-file", f"{X}: builtin with file {info['file']}", node=X)
                continue
            if res.kind == "pkg":
                if info["init"]["t"] != res.module_type:
                    self.bad("node-kind", f"{X}: init is {info['init']['t']}, should be "
                             f"{res.module_type}", node=X, via="init")
                if info["init"]["file"] != res.file:
                    self.bad("node-file", f"{X}: init file {info['init']['file']} != {res.file}",
                             node=X)
                if info["file"] != res.dirname:
                    self.bad("node-file", f"{X}: file {info['file']} != {res.dirname}", node=X)
                if info["sp"] != res.node_search:
                    self.bad("node-path", f"{X}: search path {info['sp']} != {res.node_search}",
                             node=X)
                want = self.w.has_data(res)
                if bool(info["data"]) != want:
                    self.bad("node-data", f"{X}: has_data_files {info['data']}, should be {want}",
                             node=X)
                if info["nst"] != res.ns_type:
                    self.bad("node-path", f"{X}: namespace_type {info['nst']!r}, should be "
                             f"{res.ns_type!r}", node=X)
            else:
                if info["file"] != res.file:
                    self.bad("node-file", f"{X}: file {info['file']} != {res.file}", node=X)
            code = info["init"]["code"] if res.kind == "pkg" else info["code"]
            want = "same" if res.has_code() else "none"
            if code != want:
                self.bad("node-code", f"{X}: code is {code}, should be {want}", node=X)
            wantd = [None] if res.file is None else self.w.dist_of_file(res.file)
            if info["dist"] not in wantd:
                self.bad("node-dist", f"{X}: attributed to {info['dist']}, should be {wantd[0]}",
                         node=X)

    def check_edges(self):
        for (s, d), dis in sorted(self.req.items()):
            got = self.e.get((s, d))
            for di, why in sorted(dis.items(), key=repr):
                self.stats["req"] += 1
                if s not in self.n:
                    continue
                if got is None:
                    self.bad({"parent": "parent-missing", "implied": "implied-missing",
                              "hook": "hookedge-missing", "dist": "dist-edge-missing",
                              "pkg": "pkg-edge-missing"}.get(why, "edge-missing"),
                             f"no edge {s} -> {d} {di} ({why})", node=s, dst=d)
                elif di not in got:
                    self.bad("parent-missing" if why == "parent" else "anno-missing",
                             f"edge {s} -> {d} lacks {di} ({why}), has {sorted(got, key=repr)}",
                             node=s, dst=d)
        for why, alts in self.choice:
            self.stats["choice"] += 1
            if not any(di in self.e.get((s, d), ()) for s, d, di in alts):
                self.bad("edge-missing", f"{why}: none of "
                         f"{[(d, di) for _, d, di in alts]}", node=alts[0][0], dst=alts[0][1])
        for (s, d), got in sorted(self.e.items()):
            r = self.req.get((s, d), {})
            o = self.opt.get((s, d), set())
            for di in sorted(got, key=repr):
                if di not in r and di not in o:
                    if not r and not o:
                        self.bad("edge-extra", f"unjustified edge {s} -> {d} {di}", node=s, dst=d)
                    else:
                        self.bad("anno-extra", f"unjustified annotation {di} on edge {s} -> {d}",
                                 node=s, dst=d)

    def check_reach(self):
        roots = [i for _, i in self.ctx["roots"]]
        start = [self.nid(r) for r in roots] + list(self.ctx.get("sources", ()))
        for r in list(self.ctx.get("partial", ())) + [t for t in self.taint if t != "*"]:
            start += [r] if r.startswith("/") else sorted(self._load_group(r))
        if "*" in self.taint:
            start += list(self.n)
        if self.taint:
            if not hasattr(self, "_groups"):
                self._build_groups()
            for g in self._groups:
                if g & self.taint:
                    start += sorted(g)
        for X in sorted(self.stray_ok):
            if X in self.n:
                start += sorted(self._load_group(X) - {X})
        seen = self.reach(start)
        for X in sorted(self.n):
            if X not in seen:
                if self.n[X]["t"] == "MissingModule" and X in self.stray_ok:
                    continue
                if X in self.ctx.get("unreached_ok", ()):
                    continue
                self.bad("node-extra", f"{X} ({self.n[X]['t']}) is not reachable from any "
                         f"requested root", node=X)
        # missing nodes must have lost their package link only as placeholders
        for X in sorted(self.maybe_stray):
            parent = X.rpartition(".")[0]
            if (X, self.nid(parent)) not in self.e and X not in self.stray_ok \
                    and not self.stray_possible(X) and not self.tainted(X):
                self.bad("parent-missing", f"no edge {X} -> {parent} (missing module)", node=X)

    def stray_possible(self, X):
        parent, _, nm = X.rpartition(".")
        P = self.nid(parent)
        if self.n.get(P, {}).get("t") in PACKAGE_TYPES:
            return nm in self.gmax().get(P, ())
        return False

    def check_roots(self, observed):
        want = {self.nid(i) for _, i in self.ctx["roots"]}
        for r in sorted(want - set(observed)):
            self.bad("root-missing", f"{r} was requested but is not a root", node=r)
        for r in sorted(set(observed) - want):
            if r not in self.ctx.get("may_roots", ()):
                self.bad("root-extra", f"{r} is a root but was not requested", node=r)
        for r in sorted(want):
            if r not in self.n:
                self.bad("node-missing", f"requested root {r} has no node", node=r)

    def run(self, observed_roots=None):
        self.build()
        self.check_nodes()
        self.check_edges()
        self.check_reach()
        if observed_roots is not None:
            self.check_roots(observed_roots)
        return self.viol
