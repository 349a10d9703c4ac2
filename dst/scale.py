"""C19: programs of a size and shape that stress termination and recursion."""

import sys

from . import gen, simfs
from .execute import Run
from .world import CTX_COND, CTX_FUNC, CTX_NONE, CTX_TRY

CTX_ALL = CTX_FUNC + CTX_COND + CTX_TRY + CTX_NONE


def imp(n, ctx=(), as_=None):
    return {"k": "import", "n": n, "as": as_, "ctx": list(ctx)}


def frm(m, names, lvl=0, ctx=()):
    return {"k": "from", "m": m, "lvl": lvl, "names": [[n, None] for n in names],
            "ctx": list(ctx)}


VAR = {"k": "set", "n": "VAR", "ctx": []}


def py(*body):
    return {"k": "py", "body": list(body)}


def link(rnd, name, style):
    """One statement importing the top-level module *name*."""
    if style == "mixed":
        style = rnd.choice(["import", "from", "star", "def", "try", "if", "missingname"])
    if style == "from":
        return frm(name, ["VAR"])
    if style == "star":
        return frm(name, ["*"])
    if style == "missingname":
        return frm(name, ["nothere"])
    if style in ("def", "try", "if"):
        return imp(name, [style])
    return imp(name)


def chain(rnd, n):
    st = rnd.choice(["import", "from", "star", "mixed"])
    files = {}
    for i in range(n):
        body = [VAR]
        if i + 1 < n:
            body.append(link(rnd, f"m{i + 1}", st))
        elif rnd.random() < 0.5:
            body.append(link(rnd, "m0", st))
        if rnd.random() < 0.05:
            body.append(link(rnd, f"m{rnd.randrange(n)}", "mixed"))
        files[f"m{i}.py"] = py(*body)
    return files, ["m0"]


def fan(rnd, n):
    files = {f"m{i}.py": py(VAR, link(rnd, "hub", "mixed")) for i in range(n)}
    files["hub.py"] = py(*([VAR] + [link(rnd, f"m{i}", "mixed") for i in range(n)]))
    return files, [rnd.choice(["hub", "m0"])]


def pkgchain(rnd, n):
    """Packages; finding a submodule really imports the packages."""
    files = {}
    for i in range(n):
        nxt = (i + 1) if i + 1 < n else (0 if rnd.random() < 0.5 else None)
        body = [VAR]
        if nxt is not None:
            x = rnd.randrange(3)
            body.append([imp(f"p{nxt}.s"), frm(f"p{nxt}", ["s"]), frm(f"p{nxt}.s", ["VAR"])][x])
        if rnd.random() < 0.1:
            body.append({"k": "raise", "e": "ValueError('boom')"})
        files[f"p{i}/__init__.py"] = py(*body)
        files[f"p{i}/s.py"] = py(VAR, rnd.choice([frm("", ["t"], 1), frm("", ["VAR"], 1),
                                                  imp(f"p{i}")]))
        files[f"p{i}/t.py"] = py(VAR)
    return files, ["p0"]


def relchain(rnd, n):
    files = {"pa/__init__.py": py(VAR, frm("", ["m0"], 1)) if rnd.random() < 0.5 else py(VAR)}
    for i in range(n):
        body = [VAR]
        if i + 1 < n or rnd.random() < 0.5:
            j = (i + 1) % n
            body.append(rnd.choice([frm("", [f"m{j}"], 1), frm(f"m{j}", ["VAR"], 1),
                                    imp(f"pa.m{j}")]))
        files[f"pa/m{i}.py"] = py(*body)
    return files, ["pa.m0"]


def deep(rnd, n):
    """A package nested *n* levels deep."""
    files, names = {}, []
    path, mod = "", ""
    for i in range(n):
        path += f"d{i}/"
        mod += ("." if mod else "") + f"d{i}"
        names.append(mod)
        body = [VAR]
        if rnd.random() < 0.2:
            body.append({"k": "raise", "e": "ValueError('boom')"})
        files[path + "__init__.py"] = py(*body)
        files[path + "s.py"] = py(VAR, frm("", ["VAR"], rnd.randint(1, i + 1)))
    files[path + "x.py"] = py(VAR, frm("", ["s"], rnd.randint(1, n)))
    return files, [mod + ".x"]


def dense(rnd, n):
    files = {}
    for i in range(n):
        files[f"m{i}.py"] = py(VAR, *[link(rnd, f"m{rnd.randrange(n)}", "mixed")
                                      for _ in range(12)])
    return files, ["m0"]


def densepkg(rnd, n):
    files = {"pa/__init__.py": py(VAR, *[frm("", [f"m{rnd.randrange(n)}"], 1)
                                         for _ in range(5)])}
    for i in range(n):
        body = [VAR]
        for _ in range(6):
            j = rnd.randrange(n)
            body.append(rnd.choice([frm("", [f"m{j}"], 1), frm("pa", [f"m{j}"]),
                                    frm(f"m{j}", ["VAR"], 1), imp("pa"), imp(f"pa.m{j}")]))
        if rnd.random() < 0.3:
            files[f"pa/m{i}/__init__.py"] = py(*[dict(s, lvl=2) if s.get("lvl") else s
                                                 for s in body])
        else:
            files[f"pa/m{i}.py"] = py(*body)
    return files, [rnd.choice(["pa", "pa.m0"])]


def bigmodule(rnd, n):
    body = []
    targets = [f"t{i}" for i in range(10)]
    for i in range(n):
        x = rnd.random()
        if x < 0.3:
            ctx = [rnd.choice(CTX_ALL) for _ in range(rnd.randint(0, 8))]
            body.append(imp(rnd.choice(targets), ctx))
        elif x < 0.4:
            # functions in functions (at most 100 indents, 20 blocks)
            body.append(imp(rnd.choice(targets), ["def"] * rnd.randint(5, 60)))
        else:
            body.append({"k": "set", "n": f"v{i}", "ctx": []})
    if rnd.random() < 0.6:
        body.append({"k": "deep", "n": rnd.choice([300, 1500, 4000])})
    if rnd.random() < 0.4:
        body.insert(0, {"k": "bulk", "n": 600})
    files = {f"{t}.py": py(VAR) for t in targets}
    files["big.py"] = py(*body)
    if rnd.random() < 0.3:
        files["big.py"] = dict(files["big.py"], k="pyc")
        files["big.pyc"] = files.pop("big.py")
    return files, ["big"]


def toocomplex(rnd, n):
    """Source that Python itself cannot compile."""
    files = {"m0.py": py(imp("cx"), imp("pc"), imp("pc.s"), imp("m1")), "m1.py": py(VAR)}
    files["cx.py"] = dict(py({"k": "deep", "n": 30000}, imp("m1")), bad="deep")
    files["pc/__init__.py"] = dict(py({"k": "deep", "n": 30000}), bad="deep")
    files["pc/s.py"] = py(VAR, imp("errno"))
    return files, ["m0"]


SHAPES = {"chain": (chain, 400, 1600), "fan": (fan, 200, 900), "pkgchain": (pkgchain, 60, 350),
          "relchain": (relchain, 300, 1200), "deep": (deep, 15, 45), "dense": (dense, 20, 150),
          "densepkg": (densepkg, 10, 90), "bigmodule": (bigmodule, 100, 1500),
          "toocomplex": (toocomplex, 1, 1)}


def gen_scale(profile, seed, rnd):
    case = gen.base_case(profile, seed, rnd)
    weights = {"chain": 4, "relchain": 3, "fan": 2, "pkgchain": 3, "deep": 2, "dense": 2,
               "densepkg": 3, "bigmodule": 2, "toocomplex": 0.3, "lazychain": 3, "hooks": 5,
               "packages": 2, "mypyc": 1.2}
    shape = gen.pick(rnd, weights)
    case.update(path=["/simdisk/r0"], dirs=["/simdisk/r0"], host=[], faults=[], actors=[],
                files={}, ops=[], shape=shape,
                graphs=[{"stdlib_implies": False, "builtin_hooks": rnd.random() < 0.5}])
    if shape in ("chain", "fan", "relchain", "dense", "bigmodule", "hooks",
                 "mypyc") and rnd.random() < 0.5:
        case["stack"] = rnd.choice([200, 300])
    ops = case["ops"]
    hook = rnd.random() < 0.4
    if shape == "lazychain":
        # aliases, virtual modules and implied references in chains and cycles
        n = rnd.randint(2, 60)
        files = {f"m{i}.py": py(VAR, *([imp(f"m{rnd.randrange(n)}")] if rnd.random() < 0.3
                                       else [])) for i in range(n)}
        kind = rnd.choice(["alias", "virtual", "list", "mixed"])
        m = {}
        pre = rnd.choice(["m", "m", "w"])
        for i in range(n):
            t = f"{pre}{(i + 1) % n}" if i + 1 < n or rnd.random() < 0.5 else "errno"
            k = rnd.choice(["alias", "virtual", "list"]) if kind == "mixed" else kind
            m[f"{pre}{i}"] = ([t] + [f"{pre}{rnd.randrange(n)}" for _ in range(rnd.randint(0, 2))]
                              if k == "list" else {k: t})
        ops.append({"op": "implies", "g": 0, "map": m, "how": "tuple"})
        roots = [f"{pre}{rnd.randrange(n)}", f"{pre}0"]
    elif shape == "hooks":
        # hooks that request modules for which the hooks run again
        n = rnd.randint(50, 900)
        files = {f"m{i}.py": py(VAR) for i in range(n)}
        kinds = rnd.choice([["import_module"], ["add_module"], ["import_package"],
                            ["import_module", "add_module", "import_package"]])
        acts = {f"m{i}": [{"a": rnd.choice(kinds), "from": "self", "name": f"m{(i + 1) % n}"}]
                for i in range(n - (rnd.random() < 0.5))}
        ops.append({"op": "post_hook", "g": 0, "id": "P", "acts": acts})
        if rnd.random() < 0.5:
            k = rnd.randint(2, 20)
            ops.append({"op": "missing_hook", "g": 0, "id": "M", "table": {
                f"zq{i}": {"acts": [{"a": rnd.choice(kinds), "from": "self",
                                     "name": f"zq{i + 1}"}],
                           "ret": {"t": "virtual"}} for i in range(k)}})
            files["m0.py"] = py(VAR, imp("zq0"))
        roots = ["m0"]
        hook = False
    elif shape == "mypyc":
        # a distribution with modules compiled by mypyc that import each other
        n = rnd.randint(30, 400)
        files = {"1a__mypyc.so": {"k": "ext"}}
        for i in range(n):
            files[f"m{i}.so"] = {"k": "ext"}
            files[f"m{i}.py"] = py(VAR, link(rnd, f"m{(i + 1) % n}", "mixed"))
        files["dd-1.0.dist-info/RECORD"] = {"k": "text", "text": "".join(
            f"{f},,\n" for f in [*files, "dd-1.0.dist-info/METADATA",
                                 "dd-1.0.dist-info/RECORD"])}
        files["dd-1.0.dist-info/METADATA"] = {
            "k": "text", "text": "Metadata-Version: 2.1\nName: dd\nVersion: 1.0\n"}
        case["graphs"][0]["builtin_hooks"] = True
        roots = ["m0"]
    elif shape == "packages":
        n = rnd.randint(5, 60)
        files = {}
        dirs = ["pa"]
        for i in range(n):
            d = rnd.choice(dirs)
            if len(d.split("/")) < 8:
                dirs.append(f"{d}/q{i}")
        for d in dirs:
            files[d + "/__init__.py"] = py(VAR)
            for j in range(rnd.randint(0, 4)):
                files[f"{d}/s{j}.py"] = py(VAR, imp("pa"))
        acts = [{"a": "import_package", "from": "start", "name": "pa"}]
        if rnd.random() < 0.5:
            ops.append({"op": "post_hook", "g": 0, "id": "P", "acts": {
                d.replace("/", "."): [{"a": "import_package", "from": "self", "name": "pa"}]
                for d in rnd.sample(dirs, min(3, len(dirs)))}})
        files["start.py"] = py(VAR)
        ops += [{"op": "add_module", "g": 0, "name": "start"},
                {"op": "context", "g": 0, "acts": acts}]
        roots = []
        hook = False
    else:
        fn, lo, hi = SHAPES[shape]
        n = int(lo + (hi - lo) * rnd.random() ** 2)
        files, roots = fn(rnd, n)
    if hook:
        ops.append({"op": "post_hook", "g": 0, "id": "P", "acts": {}})
    if roots and rnd.random() < 0.25:
        case["files"]["/simdisk/s/run.py"] = py(*[imp(r) for r in roots])
        ops.append({"op": "add_script", "g": 0, "path": "/simdisk/s/run.py"})
    elif roots and rnd.random() < 0.2:
        ops.append({"op": "add_source", "g": 0, "body": [imp(r) for r in roots]})
    else:
        ops += [{"op": "add_module", "g": 0, "name": r} for r in roots]
    if roots and rnd.random() < 0.3:
        ops.append({"op": "add_module", "g": 0, "name": "m0" if "m0.py" in files else roots[0]})
    for f, s in files.items():
        case["files"]["/simdisk/r0/" + f] = s
    if rnd.random() < 0.15 and shape not in ("packages", "toocomplex", "mypyc"):
        case["files"] = {"/simdisk/r0.zip": {"k": "zip", "members": files},
                         **{f: s for f, s in case["files"].items() if "/s/" in f}}
        case["path"] = ["/simdisk/r0.zip"]
    return case


def importing():
    """Whether Python itself is loading a module (packages are imported in
    order to find what they contain; a failing one at every lookup)."""
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_name == "_load_unlocked":
            return True
        f = f.f_back
    return False


class ScaleRun(Run):
    """Bounded work: file accesses per file and steps per call."""

    OPENS = 4

    def setup(self):
        super().setup()
        self.opens = {}
        real = self.sim.io
        # the program must be analysed with the stack that a small program needs
        self.limit = self.case.get("stack")

        def io(op, path):
            if op == "open" and self.sim.armed and not importing():
                self.opens[path] = self.opens.get(path, 0) + 1
            return real(op, path)

        self.sim.io = io

    def run(self):
        try:
            return super().run()
        except simfs.SimCrash as exc:
            if str(exc) != "step limit":
                raise
            self.sim.armed = False
            self.sim.max_steps = 1 << 60
            self.bad("no-progress", "the building calls did not end within "
                     f"{self.sim.steps} I/O steps")
            return self.result()

    def call(self, g, op):
        old = sys.getrecursionlimit()
        if self.limit:
            depth = 0
            f = sys._getframe()
            while f is not None:
                depth += 1
                f = f.f_back
            sys.setrecursionlimit(depth + self.limit)
        try:
            return super().call(g, op)
        finally:
            sys.setrecursionlimit(old)

    def finish(self):
        worst = max(self.opens.values(), default=0)
        self.stats["most_opens"] = worst
        for p, n in sorted(self.opens.items()):
            if n > self.OPENS and p.endswith((".py", ".pyc")):
                self.bad("reread", f"{p} was opened {n} times")
        return super().finish()
