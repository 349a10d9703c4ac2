"""Check profiles: how the cases of each kind of simulation are generated."""

from . import gen, gen2, scale

LITTLE = dict(post_p=0.06, missing_hook_p=0.05, implies_p=0.08, excludes_p=0.08, context_p=0.04)


def some_faults(p_run, n=2, retry=True):
    def after(rnd, p, wg, og, case):
        if rnd.random() < p_run:
            gen2.add_faults(rnd, case, rnd.randint(1, n), retry)

    return after


def chain(*fns):
    def f(*a):
        for fn in fns:
            if fn:
                fn(*a)

    return f


def with_host(prob, n=(1, 4)):
    def before(rnd, p, wg, og, case):
        if rnd.random() < prob:
            case["host"] = gen2.gen_host(rnd, p, wg, n)

    return before


def with_dists(prob, **kw):
    def before(rnd, p, wg, og, case):
        if rnd.random() < prob:
            og.dist_names = gen2.gen_dists(rnd, p, wg, **kw)

    return before


def pycache(prob):
    def before(rnd, p, wg, og, case):
        if rnd.random() < prob:
            case["pycache"] = True

    return before


def std(before=None, after=None, **over):
    def g(profile, seed, rnd):
        return gen.standard(profile, seed, rnd, before_ops=before, after=after, **over)

    return g


def faults_for(p_run, n, retry_p):
    def after(rnd, p, wg, og, case):
        if rnd.random() < p_run:
            gen2.add_faults(rnd, case, rnd.randint(*n), rnd.random() < retry_p)

    return after


def reject_extras(rnd, p, wg, og, case):
    """Rejections through faults, and the same request again when it is valid."""
    ops = case["ops"]
    tail = []
    for i, op in enumerate(ops):
        if op["op"] == "add_script" and op["path"] in case["files"] and \
                not case["files"][op["path"]].get("bad") and rnd.random() < 0.4:
            first = not any(o["op"] == "add_script" and o["path"] == op["path"]
                            and o["g"] == op["g"] for o in ops[:i])
            if first:
                what = rnd.choice(["file", "file", "open", "read"])
                case["faults"].append({
                    "opidx": i, "op": what, "path": op["path"],
                    "nth": rnd.choice([1, 1, 2] if what == "file" else [1]),
                    "span": rnd.choice([1, 1, 2]),
                    "err": rnd.choice([e for e in gen2.ERR_FILE if e != "SHORT"])})
                op["rej"] = True
                tail.append(op)
        elif rejected_op(op, case):
            op["rej"] = True
            tail.append(op)
    for op in list(tail):
        if rnd.random() < 0.6:
            if op["op"] == "add_script" and case["files"].get(op["path"], {}).get("bad") or \
                    op["op"] == "add_script" and op["path"].endswith("absent.py"):
                body = case["files"].get(op["path"], {}).get("body", [])
                ops.append({"op": "fs", "changes": [{"do": "put", "path": op["path"],
                            "spec": {"k": "py", "body": body}}]})
                ops.append({"op": "add_script", "g": op["g"], "path": op["path"]})
            elif op["op"] == "add_script":
                ops.append({"op": "add_script", "g": op["g"], "path": op["path"]})
            elif op["op"] == "excludes_str":
                # (its characters, should they have been excluded)
                name = rnd.choice([c for c in op["name"] if c != "."] + [op["name"]])
                ops.append({"op": "add_module", "g": op["g"], "name": name})
            elif op["op"] == "add_source":
                ops.append(dict({k: v for k, v in op.items() if k not in ("bad", "rej")}))


def rejected_op(op, case):
    if op["op"] == "add_script":
        s = case["files"].get(op["path"])
        return s is None or s.get("bad") not in (None, "latin", "bom")
    return (op["op"] == "excludes_str" or op["op"] == "add_source" and op.get("bad")
            or op["op"] == "add_dist" and op["name"] == "nodist")


def without_rejected(case, v):
    case["ops"] = [{"op": "noop", "g": o.get("g", 0)} if o.get("rej") else o
                   for o in case["ops"]]
    return case


def cli_ops(rnd, p, wg, og, case):
    """Replaces the history by command line runs."""
    extra = []
    cand = [e for e in case["path"] if e != wg.zip]
    if len(case["path"]) > 1 and rnd.random() < 0.45:
        pool = case["path"] if rnd.random() < 0.3 else cand or case["path"]
        extra = rnd.sample(pool, min(len(pool), rnd.choice([1, 1, 2, 2, 3])))
        case["path"] = [e for e in case["path"] if e not in extra]
    case["ops"] = [gen2.gen_cli(rnd, p, wg, og, case, extra)
                   for _ in range(rnd.choice([1, 1, 2, 3]))]
    gen2.add_out_faults(rnd, case, 0.6)
    if rnd.random() < 0.12:
        for f in case["faults"]:
            f["span"] = 1
        case["faults"].append({"opidx": 0, "op": "any", "err": "KeyboardInterrupt",
                               "nth": 1 + int(rnd.expovariate(1 / 60))})


def some_cli(prob):
    def after(rnd, p, wg, og, case):
        for _ in range(2):
            if rnd.random() < prob:
                op = gen2.gen_cli(rnd, p, wg, og, case,
                                  ["/simdisk/absent"] if rnd.random() < 0.5 else [])
                case["ops"].insert(rnd.randint(0, len(case["ops"])), op)

    return after


def vary(case, v):
    """The same program and calls in other circumstances."""
    case["dirseed"] = case["dirseed"] * 31 + 7 * v
    case["t0"] = case["t0"] + v * 86_400_000_000_000
    case["tick"] = [1000, 700_000_000, 1_000_000][v % 3]
    if v == 1:
        case["locale"] = "utf-8" if case.get("locale") else "cp1252"
    if v == 2:
        case["pycache"] = not case.get("pycache")
    return case


PROFILES = {
    "basic": {"gen": std()},
    # C01, C02, C04
    "graph": {"gen": std(chain(pycache(0.1), with_host(0.15)), some_faults(0.15), **LITTLE)},
    "cycles": {"gen": std(pycache(0.1), some_faults(0.1), n_top=(3, 7), n_stmts=(2, 5),
                          from_p=0.75, missing_p=0.03, builtin_p=0.01, n_ops=(2, 6),
                          kinds={"py": 10, "pyc": 1}, pkg_init={"py": 10, "pyc": 1},
                          shapes={"mod": 3, "pkg": 6, "ns": 0.3}, script_p=0.3, raise_p=0.03)},
    # C03
    "kinds": {"gen": std(chain(pycache(0.3), with_host(0.35)), some_faults(0.15),
                         evolve_p=0.15, spell_p=0.15, uni_p=0.12,
                         kinds={"py": 6, "pyc": 2.5, "ext": 2, "bad": 2, "badpyc": 1},
                         pkg_init={"py": 8, "pyc": 2, "ext": 1, "bad": 1.5},
                         shapes={"mod": 4, "pkg": 5, "ns": 2}, n_roots=(1, 3), zip_p=0.35,
                         data_p=0.5, nspkg_p=0.12, raise_p=0.15, n_stmts=(0, 3), n_ops=(1, 5),
                         n_graphs=2, **LITTLE)},
    # C06
    "post": {"gen": std(with_host(0.15), some_faults(0.15), late_p=0.12, post_p=0.85, missing_hook_p=0.15, context_p=0.2,
                        implies_p=0.15, excludes_p=0.1, hook_raise_p=0.15, n_ops=(1, 5), zip_p=0.25,
                        kinds={"py": 8, "pyc": 1, "ext": 1, "bad": 2, "badpyc": 0.5})},
    # C07
    "missing": {"gen": std(with_host(0.1), some_faults(0.12), late_p=0.15, missing_p=0.35, missing_hook_p=0.95,
                           post_p=0.15, context_p=0.1, implies_p=0.2, excludes_p=0.2,
                           hook_raise_p=0.1, n_ops=(1, 5))},
    # C08, C09
    "excludes": {"gen": std(with_host(0.2), some_faults(0.1), late_p=0.3, excludes_p=0.9, implies_p=0.5, post_p=0.15,
                            missing_hook_p=0.1, context_p=0.15, n_ops=(1, 6))},
    "implies": {"gen": std(with_host(0.2), some_faults(0.1), late_p=0.3, excludes_p=0.25, implies_p=0.95, post_p=0.15,
                           missing_hook_p=0.1, context_p=0.15, n_ops=(1, 6),
                           stdlib_implies_p=0.2)},
    # C10
    "iofault": {"gen": std(pycache(0.2), faults_for(0.9, (1, 3), 0.3), zip_p=0.3, n_ops=(1, 3),
                           kinds={"py": 8, "pyc": 2, "ext": 1, "bad": 1.5, "badpyc": 0.7},
                           pkg_init={"py": 10, "pyc": 1, "ext": 0.5, "bad": 1}, raise_p=0.15,
                           **LITTLE)},
    # C11
    "resume": {"gen": std(chain(pycache(0.1), with_dists(0.3), with_host(0.1)), faults_for(0.85, (1, 3), 1.0), n_ops=(1, 4),
                          late_p=0.1, post_p=0.45, missing_hook_p=0.2, context_p=0.2, hook_raise_p=0.3,
                          implies_p=0.2, excludes_p=0.1, missing_p=0.2, dist_p=0.15)},
    # C05
    "variants": {"gen": std(chain(pycache(0.3), with_dists(0.3), with_host(0.1)), None,
                            n_roots=(1, 3), n_ops=(1, 4), dist_p=0.1, raise_p=0.15, zip_p=0.25,
                            uni_p=0.15,
                            n_stmts=(1, 5), data_p=0.4, from_p=0.65, nspkg_p=0.12,
                            late_p=0.1, n_graphs=1, post_p=0.2, missing_hook_p=0.15, implies_p=0.2,
                            excludes_p=0.15, context_p=0.3,
                            context_kinds=("import_package", "import_package", "import_module")),
                 "variants": 3, "variant": vary, "runner": "runners:ObsRun"},
    # C16
    "cli": {"gen": std(with_dists(0.5), cli_ops, n_roots=(1, 3), n_top=(1, 5), n_ops=(1, 1),
                       evolve_p=0, spell_p=0.25, uni_p=0.15),
            "runner": "runners:CliRun"},
    # C12
    "host": {"runner": "runners:CliRun", "gen": std(
        chain(with_host(0.85, (1, 6)), with_dists(0.2)), chain(some_cli(0.3), some_faults(0.5, 3)),
                        n_ops=(1, 4), raise_p=0.25, n_graphs=2, dist_p=0.1, query_p=0.2,
                        zip_p=0.3, **LITTLE)},
    # C13
    "threads": {"gen": std(chain(with_host(0.3), with_dists(0.35)), gen2.threads,
                           evolve_p=0, n_graphs=2, n_ops=(1, 4), raise_p=0.25, zip_p=0.25, n_roots=(1, 3),
                           n_top=(1, 5), n_stmts=(0, 3), dist_p=0.12, query_p=0.1,
                           **dict(LITTLE, hook_raise_p=0.1, reject_p=0.05)),
                "runner": "threads:ThreadRun"},
    "race": {"gen": std(chain(with_host(0.5, (1, 3)), with_dists(0.3)), gen2.threads,
                        evolve_p=0, n_graphs=2, n_ops=(1, 3), raise_p=0.6, zip_p=0.15, n_roots=(1, 2),
                        n_top=(1, 3), n_stmts=(1, 3), n_sub=(1, 4), missing_p=0.05,
                        shapes={"mod": 1, "pkg": 6, "ns": 1}, dist_p=0.1, script_p=0.4,
                        kinds={"py": 8, "pyc": 1, "ext": 0.5, "bad": 0.5},
                        pkg_init={"py": 8, "bad": 1, "ext": 0.5}),
             "runner": "threads:ThreadRun"},
    # C14
    "index": {"gen": lambda pr, seed, rnd: gen2.gen_install(rnd, pr, seed, False),
              "runner": "runners:InstallRun"},
    "install": {"gen": lambda pr, seed, rnd: gen2.gen_install(rnd, pr, seed, True),
                "runner": "runners:InstallRun"},
    # C19
    "scale": {"gen": scale.gen_scale, "runner": "scale:ScaleRun"},
    # C15
    "dists": {"gen": std(chain(with_dists(1.0), pycache(0.1)), some_faults(0.25, 2), dist_p=0.45,
                         evolve_p=0.15, spell_p=0.25, uni_p=0.2,
                         n_roots=(1, 3), n_ops=(1, 5), query_p=0.4, shapes={"mod": 4, "pkg": 5,
                         "ns": 1}, kinds={"py": 10, "pyc": 1.5, "ext": 2, "bad": 1}, **LITTLE)},
    # C23
    "compiled": {"gen": std(chain(with_dists(0.75), with_host(0.2)), some_faults(0.3, 2),
                            swig_p=0.6, mypyc_p=0.75, dist_p=0.15, n_roots=(1, 2), n_ops=(1, 5),
                            query_p=0.1, shapes={"mod": 4, "pkg": 6, "ns": 1}, raise_p=0.15,
                            kinds={"py": 8, "pyc": 1, "ext": 3, "bad": 1},
                            pkg_init={"py": 8, "pyc": 1, "ext": 2, "bad": 1}, missing_p=0.03,
                            **dict(LITTLE, post_p=0.15, excludes_p=0.12, context_p=0.1))},
    # C17
    "packages": {"gen": std(pycache(0.4), some_faults(0.12), zip_p=0.3, context_p=0.55, n_roots=(1, 3),
                            context_kinds=("import_package", "import_package", "import_module"),
                            post_p=0.35, post_kinds=("import_package", "import_package",
                                                     "import_module", "add_module"),
                            shapes={"mod": 3, "pkg": 8, "ns": 1}, nspkg_p=0.2, n_sub=(1, 4),
                            data_p=0.35, n_ops=(2, 5), implies_p=0.08, excludes_p=0.08,
                            missing_hook_p=0.05)},
    # C18
    "rejects": {"gen": std(with_dists(0.3), reject_extras, reject_p=0.75, n_ops=(1, 4),
                           dist_p=0.15, script_p=0.4, query_p=0.1, **LITTLE),
                "variants": 2, "variant": without_rejected, "cmp_cls": "reject-later"},
    # C20
    "roots": {"gen": std(with_dists(0.4), some_faults(0.2), n_ops=(2, 7), query_p=0.5,
                         context_p=0.25, script_p=0.25, source_p=0.2, dist_p=0.1, reject_p=0.15,
                         context_kinds=("import_module", "import_package", "add_module"),
                         post_p=0.15, missing_hook_p=0.1, implies_p=0.15, excludes_p=0.1)},
}
