"""Seeded generation of cases (swarm style: every run gets its own mix)."""

import json
import posixpath
import random
import re
from keyword import iskeyword

from .model import World
from .world import CTX_COND, CTX_FUNC, CTX_NONE, CTX_TRY

TOP = ["ma", "mb", "mc", "md", "mab", "pa", "pb", "pc", "pab", "na"]
SUB = ["x", "y", "z", "ma", "pa", "w", "xy"]
MISSING = ["zz1", "zz2", "zz1.q", "zz3.x.y"]
BUILTIN = ["sys", "errno", "itertools", "marshal", "__main__", "__hello__", "__phello__",
           "__phello__.spam", "__phello__.ham", "__phello__.ham.eggs", "__phello__.x", "stat"]
# names with implied actions for the standard library
STD = [("dbm",), ("turtledemo",), ("_curses", "curses")]
STD_SUB = {"dbm": ["gnu", "ndbm", "dumb"], "turtledemo": ["clock", "nim", "rosette", "other"]}
VARS = ["VAR", "x", "y", "ma", "val"]
EXC = ["ValueError('boom')", "ImportError('no')", "RuntimeError('boom')",
       "AttributeError('attr')", "KeyError('k')", "OSError('os')",
       "ModuleNotFoundError(\"No module named 'gone'\")",
       "ModuleNotFoundError('please install gone')", "NameError('n')", "TypeError('t')",
       "AttributeError(1)", "ImportError()", "Exception", "SystemExit(1)", "SystemExit"]

N_HASH = 8
HASHSEEDS = [0, 1, 2, 3, 5, 7, 11, 4242]


def pick(rnd, weights):
    items = sorted(weights.items())
    tot = sum(w for _, w in items)
    x = rnd.random() * tot
    for k, w in items:
        x -= w
        if x < 0:
            return k
    return items[-1][0]


DEFAULTS = dict(
    evolve_p=0.05, spell_p=0.07, uni_p=0.05,
    n_top=(2, 6), max_depth=3, n_roots=(1, 2), zip_p=0.2, zip_dirs_p=0.5,
    kinds={"py": 10, "pyc": 1.5, "ext": 0.7, "bad": 0.7, "badpyc": 0.3},
    shapes={"mod": 5, "pkg": 4, "ns": 1},
    pkg_init={"py": 10, "pyc": 0.7, "ext": 0.4, "bad": 0.5},
    bad_kinds={"syntax": 3, "return": 1, "cookie": 1, "utf8": 1, "utf8early": 1, "null": 1,
               "deep": 0.3, "latin": 0.5, "bom": 0.5},
    badpyc_kinds={"magic": 2, "trunc": 1, "short": 1, "empty": 1, "notcode": 1},
    n_stmts=(0, 4), ctx_p=0.35, ctx2_p=0.3, from_p=0.55, star_p=0.08, rel_p=0.5, as_p=0.3,
    missing_p=0.12, builtin_p=0.06, set_p=0.15, raise_p=0.1, bulk_p=0.02, nspkg_p=0.06,
    data_p=0.2, pycache_p=0.1, n_sub=(0, 3), stdnames_p=0.04, swig_p=0.06,
    n_ops=(1, 4), script_p=0.25, source_p=0.1, host_p=0.0, dist_p=0.0, implies_p=0.0,
    excludes_p=0.0, post_p=0.0, missing_hook_p=0.0, context_p=0.0, n_graphs=1,
    reject_p=0.0, faults=0, query_p=0.0, stdlib_implies_p=0.1, cycle_p=0.2,
)


# the ways in which a package declares that it is a namespace package, and a
# simple variant of pkg_resources (which isn't on the search path)
NS_LINE = {
    "dunder": "__path__ = __import__('pkgutil').extend_path(__path__, __name__)",
    "pkgres": "__import__('pkg_resources').declare_namespace(__name__)",
    "combo": "try:\n"
             "    __import__('pkg_resources').declare_namespace(__name__)\n"
             "except ImportError:\n"
             "    __path__ = __import__('pkgutil').extend_path(__path__, __name__)",
    "stub": "def declare_namespace(name):\n"
            "    m = __import__('sys').modules[name]\n"
            "    m.__path__ = __import__('pkgutil').extend_path(m.__path__, name)",
}


def has_ns(files):
    return any(s.get("ns") or any(m.get("ns") for m in s.get("members", {}).values())
               for s in files.values())


class WorldGen:
    def __init__(self, rnd, p):
        self.rnd, self.p = rnd, p
        self.files, self.dirs, self.path = {}, [], []
        self.extra_path = []
        self.portions = []
        self.swig_names = []
        self.alias_names = []

    def build(self):
        rnd, p = self.rnd, self.p
        for i in range(rnd.randint(*p["n_roots"])):
            self.path.append(f"/simdisk/r{i}")
            self.dirs.append(f"/simdisk/r{i}")
        self.zip = None
        if rnd.random() < p["zip_p"]:
            self.zip = "/simdisk/z0.zip"
            self.zmem = {}
            self.path.insert(rnd.randrange(len(self.path) + 1), self.zip)
        for _ in range(rnd.randint(*p["n_top"])):
            entry = rnd.choice(self.path)
            name = rnd.choice(TOP)
            self.item(entry, name, 1, entry == self.zip)
            if rnd.random() < 0.05:
                # names with a common prefix in one directory
                self.item(entry, name + "b", 1, entry == self.zip)
        for name, ns in self.portions:
            entry = rnd.choice(self.path)
            base, inzip = f"{entry}/{name}", entry == self.zip
            self.put(base + "/__init__.py", {"k": "py", "body": [], "ns": ns}, inzip)
            for _ in range(rnd.randint(1, 2)):
                self.item(base, rnd.choice(SUB), 2, inzip)
        if self.portions or any(s.get("ns") for s in self.files.values()):
            if rnd.random() < 0.7:
                entry = rnd.choice(self.path)
                self.put(f"{entry}/pkg_resources.py", {"k": "py", "body": [], "ns": "stub"},
                         entry == self.zip)
        self.builtins = BUILTIN
        self.std = None
        if rnd.random() < p["stdnames_p"]:
            self.std = rnd.choice(STD)
            for name in self.std:
                self.stdname(rnd.choice(self.path), name)
        if self.zip:
            self.files[self.zip] = {"k": "zip", "members": self.zmem,
                                    "dirs": rnd.random() < p["zip_dirs_p"],
                                    "stored": rnd.random() < 0.5}
        self.case = {"path": list(self.path), "files": self.files, "dirs": self.dirs}
        self.names = self.known()
        self.bodies()

    def stdname(self, entry, name):
        rnd = self.rnd
        base = f"{entry}/{name}"
        inzip = entry == self.zip
        if name in STD_SUB and rnd.random() < 0.7:
            self.put(base + "/__init__.py", {"k": "py", "body": []}, inzip)
            for sub in STD_SUB[name]:
                if rnd.random() < 0.6:
                    self.put(f"{base}/{sub}.py", {"k": "py", "body": []}, inzip)
        else:
            self.put(base + ".py", {"k": "py", "body": []}, inzip)

    def put(self, path, spec, inzip):
        if inzip:
            self.zmem.setdefault(path[len(self.zip) + 1:], spec)
        elif path not in self.files and path not in self.dirs:
            self.files[path] = spec

    def filespec(self, base, weights, inzip):
        rnd, p = self.rnd, self.p
        k = pick(rnd, weights)
        if inzip and k in ("ext", "badpyc"):
            k = "py"
        if k == "py":
            return base + ".py", {"k": "py", "body": []}
        if k == "pyc":
            return base + ".pyc", {"k": "pyc", "body": []}
        if k == "ext":
            return base + rnd.choice([".so", ".abi3.so", ".cpython-312-x86_64-linux-gnu.so"]), {
                "k": "ext"}
        if k == "badpyc":
            return base + ".pyc", {"k": "pyc", "body": [], "bad": pick(rnd, p["badpyc_kinds"])}
        bad = pick(rnd, p["bad_kinds"])
        if inzip and bad not in ("syntax", "return"):
            bad = "syntax"
        return base + ".py", {"k": "py", "body": [], "bad": bad}

    def item(self, dirpath, name, depth, inzip):
        rnd, p = self.rnd, self.p
        shape = pick(rnd, p["shapes"])
        if depth >= p["max_depth"]:
            shape = "mod"
        base = f"{dirpath}/{name}"
        if shape == "mod":
            path, spec = self.filespec(base, p["kinds"], inzip)
            self.put(path, spec, inzip)
            if rnd.random() < 0.04 and not inzip:
                path, spec = self.filespec(base, p["kinds"], inzip)
                self.put(path, spec, inzip)
            return
        if shape == "pkg":
            path, spec = self.filespec(base + "/__init__", p["pkg_init"], inzip)
            if depth == 1 and spec["k"] == "py" and not spec.get("bad") and (
                    rnd.random() < p["nspkg_p"]):
                spec["ns"] = rnd.choice(["dunder", "dunder", "plain", "plain", "pkgres",
                                         "combo"])
                if rnd.random() < 0.15:
                    spec["nsraise"] = True
                if rnd.random() < 0.6 and len(self.path) > 1:
                    # portions in other directories
                    self.portions.append((name, spec["ns"]))
            self.put(path, spec, inzip)
        elif not inzip:
            if base not in self.dirs:
                self.dirs.append(base)
        for _ in range(rnd.randint(*p["n_sub"])):
            self.item(base, rnd.choice(SUB), depth + 1, inzip)
        if rnd.random() < p["data_p"]:
            fn = rnd.choice(["data.txt", "d/deep.dat", "d/__pycache__/c.txt", "__pycache__/x.pyc",
                             "d/code.py", "e/sub/more.bin", ".svn/entries", "not-mod.py",
                             "1x.py", "LICENSE", "bad-dir/q.py", "class.py", "readme/notes.txt",
                             ".hg/store"])
            if shape == "pkg" or not inzip:
                kind = "data"
                if fn.endswith(".py"):
                    self.put(f"{base}/{fn}", {"k": "py", "body": []}, inzip)
                else:
                    self.put(f"{base}/{fn}", {"k": kind}, inzip)
                if rnd.random() < 0.3 and not inzip:
                    self.dirs.append(f"{base}/emptydir")

    def candidates(self):
        out = set()

        def add(rel):
            parts = rel.split("/")
            last = parts[-1].split(".")[0]
            parts = parts[:-1] + ([last] if last and last != "__init__" else [])
            if all(x.isidentifier() and not x.startswith("__") and not iskeyword(x)
                   for x in parts):
                for j in range(1, len(parts) + 1):
                    out.add(".".join(parts[:j]))

        for f, s in self.files.items():
            if s["k"] == "zip":
                for rel in s["members"]:
                    add(rel)
            else:
                for e in self.path:
                    if f.startswith(e + "/"):
                        add(f[len(e) + 1:])
        for d in self.dirs:
            for e in self.path:
                if d.startswith(e + "/"):
                    add(d[len(e) + 1:] + "/__init__")
        return sorted(out)

    def known(self):
        w = World(self.case)
        return [n for n in self.candidates() if w.resolve(n) is not None]

    # -- statements
    def bodies(self):
        rnd, p = self.rnd, self.p
        w = World(self.case)
        self.w = w
        owner = {}
        if has_ns(self.files):
            # (extend_path fails when one of the portions is an invalid
            # package in an archive)
            for s in self.files.values():
                for ms in s.get("members", {}).values():
                    ms.pop("bad", None)
            self.w = w = World(self.case)
        for n in self.names:
            r = w.resolve(n)
            if r.file is not None:
                owner[r.file] = (n, r.kind == "pkg")
        self.owner = owner
        self.vars = {n: [] for n in self.names}
        specs = []
        for f, s in sorted(self.files.items()):
            if s["k"] == "zip":
                for rel, ms in sorted(s["members"].items()):
                    specs.append((f + "/" + rel, ms))
            else:
                specs.append((f, s))
        for f, s in specs:
            if s["k"] not in ("py", "pyc"):
                continue
            name, ispkg = owner.get(f, (None, False))
            n = rnd.randint(*p["n_stmts"])
            body = []
            for _ in range(n):
                st = self.stmt(name, ispkg)
                if st is not None:
                    body.append(st)
                    if name in self.vars:
                        self.note_vars(name, st)
            if rnd.random() < p["bulk_p"]:
                body.insert(rnd.randint(0, len(body)), {"k": "bulk", "n": 270})
            if rnd.random() < p["raise_p"] and not s.get("ns"):
                # (what the compiler leaves of statements after it in bytecode
                # is its own business)
                at = len(body) if s["k"] == "pyc" else rnd.randint(0, len(body))
                body.insert(at, {"k": "raise", "e": rnd.choice(EXC)})
            if s.get("ns"):
                body = [b for b in body if b["k"] == "set"]
                if s["ns"] in NS_LINE:
                    body.insert(0, {"k": "expr", "t": NS_LINE[s["ns"]]})
                else:
                    body.insert(0, {"k": "from", "m": "pkgutil", "lvl": 0,
                                    "names": [["extend_path", "_ep"]]})
                    body.insert(1, {"k": "expr", "t": "__path__ = _ep(__path__, __name__)"})
                if s.get("nsraise"):
                    body.append({"k": "raise", "e": rnd.choice(EXC)})
            s["body"] = body

        if rnd.random() < p["swig_p"]:
            self.swig()

    def swig(self):
        """Modules that import their extension the way SWIG does."""
        rnd = self.rnd
        pool = sorted(f for f, (n, _) in self.owner.items() if f in self.files
                      and self.files[f]["k"] in ("py", "pyc") and not self.files[f].get("ns")
                      and not self.files[f].get("bad"))
        for f in rnd.sample(pool, min(len(pool), rnd.choice([1, 1, 2]))):
            name, ispkg = self.owner[f]
            low = "_" + name.rpartition(".")[2]
            if low in ("_curses", "_dbm", "_gdbm"):
                continue    # (found in the standard library)
            d = f.rpartition("/")[0]
            base = f"{d}/{low}"
            where = name if ispkg else name.rpartition(".")[0]
            if where:
                self.swig_names.append(f"{where}.{low}")
            x = rnd.random()
            if x < 0.7:
                path, spec = base + rnd.choice([".so", ".abi3.so"]), {"k": "ext"}
            elif x < 0.85:
                path, spec = base + ".py", {"k": "py", "body": []}
            else:
                path = None
            if path is not None and not (d in self.path and rnd.random() < 0.7):
                self.put(path, spec, False)
            body = self.files[f]["body"]
            if rnd.random() < 0.9:
                body.insert(rnd.randint(0, len(body)), {"k": "swig"})
            ctx = self.ctx() if self.files[f]["k"] == "py" else []
            st = {"k": "import", "n": low, "as": None, "ctx": ctx}
            if rnd.random() < 0.2:
                st = {"k": "from", "m": low, "lvl": 0, "names": [["x", None]], "ctx": ctx}
            body.insert(rnd.randint(0, len(body)), st)
            if rnd.random() < 0.15:
                f2 = rnd.choice(pool)
                self.files[f2]["body"].insert(0, {"k": "import", "n": low, "as": None,
                                                  "ctx": []})

    def note_vars(self, name, st):
        if st["k"] == "set":
            self.vars[name].append(st["n"])
        elif st["k"] == "import":
            self.vars[name].append(st["as"] or st["n"].split(".")[0])
        elif st["k"] == "from":
            for n, a in st["names"]:
                if n != "*":
                    self.vars[name] += [n] + ([a] if a else [])

    def ctx(self):
        rnd, p = self.rnd, self.p
        out = []
        if rnd.random() < p["ctx_p"]:
            out.append(rnd.choice(CTX_FUNC + CTX_COND + CTX_TRY + CTX_NONE))
            while rnd.random() < p["ctx2_p"] and len(out) < 4:
                out.append(rnd.choice(CTX_FUNC + CTX_COND + CTX_TRY + CTX_NONE))
        return out

    def target(self, frm=None):
        rnd, p = self.rnd, self.p
        x = rnd.random()
        if x < p["missing_p"] or not self.names:
            if self.names and rnd.random() < 0.5:
                return rnd.choice(self.names) + "." + rnd.choice(SUB + ["nope"])
            return rnd.choice(MISSING)
        if x < p["missing_p"] + p["builtin_p"]:
            return rnd.choice(self.builtins)
        if self.alias_names and rnd.random() < 0.3:
            return rnd.choice(self.alias_names)
        return rnd.choice(self.names)

    def stmt(self, name, ispkg):
        rnd, p = self.rnd, self.p
        ctx = self.ctx()
        if rnd.random() < p["set_p"]:
            st = {"k": "set", "n": rnd.choice(VARS), "ctx": ctx}
            if any(c in CTX_FUNC or c == "class" for c in ctx) and rnd.random() < 0.5:
                st["glob"] = True
            return st
        if rnd.random() < p["from_p"]:
            lvl, mod = 0, None
            if name is not None and rnd.random() < p["rel_p"]:
                pkg = name if ispkg else name.rpartition(".")[0]
                depth = len(pkg.split(".")) if pkg else 0
                lvl = rnd.randint(1, depth + 1)
                if lvl <= depth:
                    base = ".".join(pkg.split(".")[: depth - lvl + 1])
                    below = [n for n in self.names if n.startswith(base + ".")]
                    if rnd.random() < 0.4:
                        mod, absname = "", base
                    elif below and rnd.random() < 0.85:
                        absname = rnd.choice(below)
                        mod = absname[len(base) + 1:]
                    else:
                        mod = rnd.choice(SUB)
                        absname = base + "." + mod
                else:
                    mod = rnd.choice(["", "x", "ma"])
                    absname = None
            if mod is None:
                lvl = 0
                mod = absname = self.target()
            names = self.namelist(absname, ctx)
            return {"k": "from", "m": mod, "lvl": lvl, "names": names, "ctx": ctx}
        n = self.target()
        return {"k": "import", "n": n,
                "as": rnd.choice(VARS + ["al"]) if rnd.random() < p["as_p"] else None,
                "ctx": ctx}

    def namelist(self, base, ctx):
        rnd, p = self.rnd, self.p
        if rnd.random() < p["star_p"] and not any(c in CTX_FUNC or c == "class" for c in ctx):
            return [["*", None]]
        pool = []
        if base is not None:
            kids = [n.rpartition(".")[2] for n in self.names + self.alias_names
                    if n.rpartition(".")[0] == base]
            pool += kids * 3
            pool += self.vars.get(base, []) * 2
            if base in ("__phello__", "__phello__.ham"):
                pool += ["spam", "ham", "eggs", "main", "initialized"]
        pool += rnd.sample(SUB + VARS, 2) + (["nope"] if rnd.random() < 0.3 else [])
        out, seen = [], set()
        for _ in range(rnd.choice([1, 1, 1, 2, 2, 3])):
            n = rnd.choice(pool)
            item = (n, rnd.choice(VARS + ["al", n]) if rnd.random() < p["as_p"] else None)
            if item in seen or (any(n == x for x, _ in seen) and rnd.random() < 0.5):
                continue
            seen.add(item)
            out.append(list(item))
        return out


class OpGen:
    def __init__(self, rnd, p, wg):
        self.rnd, self.p, self.wg = rnd, p, wg
        self.ops = []
        self.nscript = 0

    def anyname(self, missing=0.12):
        rnd = self.rnd
        if rnd.random() < missing or not self.wg.names:
            if rnd.random() < 0.4 and self.wg.names:
                return rnd.choice(self.wg.names) + "." + rnd.choice(SUB + ["nope"])
            return rnd.choice(MISSING)
        if rnd.random() < 0.04:
            return rnd.choice(self.wg.builtins)
        if self.wg.alias_names and rnd.random() < 0.25:
            return rnd.choice(self.wg.alias_names)
        return rnd.choice(self.wg.names)

    def script_op(self, g):
        rnd, wg = self.rnd, self.wg
        if self.nscript and rnd.random() < 0.15:
            path = f"/simdisk/s/run{rnd.randrange(self.nscript)}.py"
            return {"op": "add_script", "g": g, "path": path}
        path = f"/simdisk/s/run{self.nscript}.py"
        self.nscript += 1
        body = [s for s in (wg.stmt(None, False) for _ in range(rnd.randint(0, 4))) if s]
        spec = {"k": "py", "body": body}
        if rnd.random() < 0.1:
            for s in body:
                if s["k"] == "from" and rnd.random() < 0.5:
                    s["lvl"] = rnd.randint(1, 3)
                    if s["lvl"] and not s["m"].isidentifier():
                        s["m"] = ""
        wg.files[path] = spec
        return {"op": "add_script", "g": g, "path": path}

    def source_op(self, g):
        rnd, wg = self.rnd, self.wg
        body = []
        for _ in range(rnd.randint(1, 3)):
            s = wg.stmt(None, False)
            if s and s["k"] in ("import", "from") and not s.get("lvl"):
                body.append(s)
        if rnd.random() < 0.1:
            body.insert(rnd.randint(0, len(body)), {
                "k": "from", "m": rnd.choice(["", rnd.choice(wg.names or ["sys"])]),
                "lvl": rnd.choice([1, 1, 2]), "names": [[rnd.choice(SUB), None]], "ctx": []})
        return {"op": "add_source", "g": g, "body": body}

    def build_op(self, g):
        rnd, p = self.rnd, self.p
        x = rnd.random()
        if x < p["script_p"]:
            return self.script_op(g)
        if x < p["script_p"] + p["source_p"]:
            return self.source_op(g)
        if x < p["script_p"] + p["source_p"] + p["context_p"]:
            return self.context_op(g)
        if x < p["script_p"] + p["source_p"] + p["context_p"] + p["dist_p"] and getattr(
                self, "dist_names", None):
            return {"op": "add_dist", "g": g, "name": rnd.choice(self.dist_names + ["nodist"]
                                                               if rnd.random() < 0.2
                                                               else self.dist_names),
                    "as": rnd.choice(["name", "object"])}
        return {"op": "add_module", "g": g, "name": self.anyname()}

    nlate = 0

    def acts(self, n, srcs=("self",), kinds=("import_module",), late=0):
        rnd = self.rnd
        out = []
        for _ in range(n):
            a = rnd.choice(kinds)
            act = {"a": a, "from": rnd.choice(srcs)}
            if late and rnd.random() < late:
                a = act["a"] = rnd.choice(["add_post", "add_missing", "excludes", "implies",
                                           "excludes", "implies"])
                self.nlate += 1
                if a == "add_post":
                    act.update(id=f"LP{self.nlate}")
                elif a == "add_missing":
                    act.update(id=f"LM{self.nlate}", table={
                        n: {"ret": {"t": "virtual"}} for n in MISSING if rnd.random() < 0.4})
                elif a == "excludes":
                    act.update(name=self.lazy_name())
                else:
                    act.update(map=dict(list(self.implies_op(0)["map"].items())[:2]))
            elif a == "add_edge":
                act["to"] = rnd.choice(self.wg.names or ["sys"])
            elif a == "import_package":
                pk = [x for x in self.wg.names if self.wg.w.resolve(x).kind == "pkg"]
                wide = [x for x in pk if len(self.wg.w.resolve(x).search) > 1]
                if wide and rnd.random() < 0.3:
                    pk = wide
                act["name"] = rnd.choice(pk) if pk and rnd.random() < 0.8 else self.anyname()
                if act["name"].startswith("__phello__"):
                    act["name"] = "sys"     # (its directory is not simulated)
            else:
                act["name"] = self.anyname()
            out.append(act)
        return out

    def context_op(self, g):
        rnd = self.rnd
        roots = [o["name"] for o in self.ops if o["op"] == "add_module"] or ["ma"]
        acts = self.acts(rnd.randint(1, 3), roots,
                         self.p.get("context_kinds", ("import_module", "import_package")),
                         self.p.get("late_p", 0))
        if rnd.random() < 0.3:
            # a node that is not reachable from the roots
            u = f"user{rnd.randrange(3)}"
            acts = ([{"a": "add_node", "from": "self", "name": u}]
                    + self.acts(rnd.randint(0, 2), [u]) + acts)
        op = {"op": "context", "g": g, "acts": acts}
        if rnd.random() < 0.15:
            op["raise"] = True
        return op

    def post_hook(self, g, hid):
        rnd, wg, p = self.rnd, self.wg, self.p
        acts = {}
        if rnd.random() < p.get("post_act_p", 0.6):
            for _ in range(rnd.randint(1, 3)):
                if wg.names:
                    acts[rnd.choice(wg.names)] = self.acts(
                        rnd.randint(1, 2), ("self",),
                        p.get("post_kinds", ("import_module", "import_module",
                                             "import_package", "add_module", "add_edge")),
                        p.get("late_p", 0))
        op = {"op": "post_hook", "g": g, "id": hid, "acts": acts}
        if rnd.random() < p.get("hook_raise_p", 0.0) and wg.names:
            op["raise_at"] = [rnd.choice(wg.names)]
        return op

    def missing_names(self):
        """Names that statements ask for and nothing provides."""
        out = set(MISSING)
        for n in self.wg.names:
            for s in SUB + ["nope"]:
                if f"{n}.{s}" not in self.wg.names:
                    out.add(f"{n}.{s}")
        return sorted(out)

    def missing_hook(self, g, hid):
        rnd = self.rnd
        table = {}
        pool = self.missing_names()
        for n in rnd.sample(pool, min(len(pool), rnd.randint(0, 8))) + ["zz1"] * (
                rnd.random() < 0.5):
            x = rnd.random()
            row = {}
            if x < 0.6:
                row["ret"] = {"t": rnd.choice(["virtual", "builtin", "virtual", "excluded"])}
            if rnd.random() < 0.25:
                # (not names that lead back to this hook)
                row["acts"] = [{"a": rnd.choice(("import_module",) * 3 + (
                    "import_package", "add_module")), "from": "self", "name": rnd.choice(
                    ["hk1", "hk2.s", "sys"] + self.wg.names)}]
            if rnd.random() < self.p.get("hook_raise_p", 0.0) * 0.5:
                row["ret"] = {"t": "raise"}
            table[n] = row
        return {"op": "missing_hook", "g": g, "id": hid, "table": table}

    def lazy_name(self):
        rnd = self.rnd
        x = rnd.random()
        if x < 0.65 and self.wg.names:
            return rnd.choice(self.wg.names)
        if x < 0.85 and self.wg.names:
            return rnd.choice(self.wg.names) + "." + rnd.choice(SUB)
        return rnd.choice(MISSING + ["vv1", "vv2", "vv1.s"])

    def implies_op(self, g):
        rnd = self.rnd
        m = {}
        if rnd.random() < 0.25 and self.wg.names:
            # aliases of aliases
            n = rnd.choice(self.wg.names)
            for _ in range(rnd.randint(1, 3)):
                nxt = rnd.choice(self.wg.names)
                m[n] = {"alias": nxt}
                n = nxt
            if rnd.random() < 0.1:
                m[n] = {"alias": rnd.choice(list(m))}
        for _ in range(rnd.randint(1, 3)):
            n = self.lazy_name()
            x = rnd.random()
            if x < 0.55:
                m[n] = [self.lazy_name() for _ in range(rnd.randint(0, 3))]
            elif x < 0.8:
                m[n] = {"alias": self.lazy_name()}
            elif x < 0.95:
                m[n] = {"virtual": self.lazy_name()}
            else:
                m[n] = None
        return {"op": "implies", "g": g, "map": m, "how": rnd.choice(["tuple", "list"])}

    def excludes_op(self, g):
        rnd = self.rnd
        return {"op": "excludes", "g": g,
                "names": [self.lazy_name() for _ in range(rnd.randint(1, 3))],
                "how": rnd.choice(["list", "iter", "set"])}

    def reject_op(self, g):
        rnd, wg = self.rnd, self.wg
        x = rnd.randrange(6)
        if x == 0:
            return {"op": "add_script", "g": g, "path": "/simdisk/s/absent.py"}
        if x == 1:
            path = f"/simdisk/s/bad{rnd.randrange(3)}.py"
            body = [s for s in (wg.stmt(None, False) for _ in range(rnd.randint(0, 3))) if s]
            wg.files.setdefault(path, {"k": "py", "body": body, "bad": rnd.choice(
                ["syntax", "return", "cookie", "utf8", "utf8early", "null"])})
            return {"op": "add_script", "g": g, "path": path}
        if x == 2:
            op = self.source_op(g)
            op["bad"] = True
            return op
        if x == 3:
            return {"op": "add_dist", "g": g, "name": "nodist", "as": rnd.choice(["name"])}
        if x == 4:
            return {"op": "excludes_str", "g": g, "name": self.lazy_name()}
        return self.script_op(g)

    def build(self):
        rnd, p = self.rnd, self.p
        ng = p["n_graphs"]
        gs = range(ng)
        for g in gs:
            if has_ns(self.wg.files):
                self.ops.append({"op": "excludes", "g": g, "names": ["pkgutil"],
                                 "keep": True})
            for _ in range(rnd.randint(1, 3)):
                if rnd.random() < p["implies_p"]:
                    self.ops.append(self.implies_op(g))
                if rnd.random() < p["excludes_p"]:
                    self.ops.append(self.excludes_op(g))
                if rnd.random() < p["post_p"]:
                    self.ops.append(self.post_hook(g, f"P{len(self.ops)}"))
                if rnd.random() < p["missing_hook_p"]:
                    self.ops.append(self.missing_hook(g, f"M{len(self.ops)}"))
            rnd.shuffle(self.ops)
        n = rnd.randint(*p["n_ops"])
        for _ in range(n):
            g = rnd.choice(gs)
            self.ops.append(self.build_op(g))
            if rnd.random() < p["implies_p"] * 0.4:
                self.ops.append(self.implies_op(g))
            if rnd.random() < p["excludes_p"] * 0.4:
                self.ops.append(self.excludes_op(g))
            if rnd.random() < p["post_p"] * 0.15:
                self.ops.append(self.post_hook(g, f"P{len(self.ops)}"))
            if rnd.random() < p["missing_hook_p"] * 0.15:
                self.ops.append(self.missing_hook(g, f"M{len(self.ops)}"))
            if rnd.random() < p["reject_p"]:
                lo = max((i + 1 for i, o in enumerate(self.ops) if o.get("keep")), default=0)
                self.ops.insert(rnd.randint(lo, len(self.ops)), self.reject_op(g))
            if rnd.random() < p["query_p"]:
                self.ops.append(rnd.choice([{"op": "report", "g": g},
                                            {"op": "report", "g": g, "format": "html"},
                                            {"op": "report", "g": g, "format": "dot"},
                                            {"op": "dists", "g": g, "reachable": True},
                                            {"op": "dists", "g": g},
                                            {"op": "dists", "g": g, "reachable": False}]))
        return self.ops


def swarm(rnd, p):
    """Switch features on and off per run."""
    p = dict(p)
    for k in ("ctx_p", "star_p", "missing_p", "raise_p", "zip_p", "data_p", "as_p", "set_p",
              "from_p", "rel_p"):
        x = rnd.random()
        if x < 0.2:
            p[k] = p[k] * 0.2
        elif x > 0.85:
            p[k] = min(0.9, p[k] * 2)
    if rnd.random() < 0.3:
        p["kinds"] = {"py": 1}
        p["pkg_init"] = {"py": 1}
    if rnd.random() < 0.15:
        p["shapes"] = {"mod": 2, "pkg": 6, "ns": 1}
    if rnd.random() < 0.1:
        p["n_top"] = (5, 10)
        p["n_stmts"] = (1, 6)
    if rnd.random() < 0.15:
        p["n_ops"] = (1, 1)
    return p


def base_case(profile, seed, rnd):
    return {"v": 1, "profile": profile, "seed": seed,
            "hashseed": HASHSEEDS[seed % N_HASH],
            "dirseed": rnd.randrange(1 << 30), "t0": rnd.randrange(10 ** 12),
            "tick": rnd.choice([1000, 1_000_000, 700_000_000])}


def generate(profile, seed):
    from . import profiles

    rnd = random.Random(f"{profile}:{seed}")
    return profiles.PROFILES[profile]["gen"](profile, seed, rnd)


def standard(profile, seed, rnd, **over):
    p = dict(DEFAULTS)
    p.update(over)
    p = swarm(rnd, p)
    case = base_case(profile, seed, rnd)
    wg = WorldGen(rnd, p)
    wg.build()
    og = OpGen(rnd, p, wg)
    case["path"] = wg.path
    case["dirs"] = wg.dirs
    std_p = 0.7 if wg.std else p["stdlib_implies_p"]
    case["graphs"] = [{"stdlib_implies": rnd.random() < std_p,
                       "builtin_hooks": rnd.random() < 0.7,
                       "explicit": rnd.random() < 0.5} for _ in range(p["n_graphs"])]
    case["host"] = []
    if p.get("before_ops"):
        p["before_ops"](rnd, p, wg, og, case)
    case["ops"] = og.build()
    case["files"] = wg.files
    case["faults"] = []
    case["actors"] = []
    if p.get("after"):
        p["after"](rnd, p, wg, og, case)
    if rnd.random() < p["evolve_p"] and case["ops"]:
        from . import gen2
        gen2.evolve(rnd, p, wg, og, case)
    if rnd.random() < p["spell_p"]:
        respell(rnd, case)
    if rnd.random() < p["uni_p"]:
        case = international(rnd, case)
    return case


INTERNATIONAL = {"mab": "m\xe4b", "pab": "p\xe4b", "xy": "x\xffn", "pc": "\u043c\u0438\u0440",
                 "md": "\u5b57", "z": "\xe9", "na": "n\u0101"}


def international(rnd, case):
    """Names that are not ASCII, and a locale that is not UTF-8."""
    pick = {k: v for k, v in INTERNATIONAL.items() if rnd.random() < 0.4}
    if pick:
        word = re.compile(r"(?<![A-Za-z0-9_])(%s)(?![A-Za-z0-9_])" % "|".join(sorted(pick)))
        case = json.loads(word.sub(lambda m: pick[m[1]], json.dumps(case)))
    if rnd.random() < 0.5:
        case["locale"] = rnd.choice(["ascii", "latin-1", "cp1252", "cp1251"])
    return case


def respell(rnd, case):
    """Relative and unusual spellings of search path entries and files."""
    paths = list(case["path"])
    for op in case["ops"]:
        paths += op.get("extra", ())
        if op.get("out"):
            paths.append(op["out"])
    case["cwd"] = rnd.choice(["/simdisk"] + list(case["path"]))
    if case["cwd"] in case["files"]:
        case["cwd"] = "/simdisk"    # (an archive)
    case["spell"] = {}
    for e in sorted(set(paths)):
        rel = posixpath.relpath(e, case["cwd"])
        base, _, last = e.rpartition("/")
        forms = [e, rel, "./" + rel, f"{base}//{last}", f"{base}/./{last}",
                 posixpath.join(case["cwd"], rel)]
        if e not in case["files"] and "." not in last:
            forms.append(e + "/")
        if rel == ".":
            forms += ["", ""]
        case["spell"][e] = rnd.choice(forms)
