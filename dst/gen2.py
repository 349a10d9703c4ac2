"""Further case ingredients: faults, distributions, host state, installers."""

from .gen import DEFAULTS, EXC, MISSING, OpGen, SUB, TOP, WorldGen, base_case, has_ns, pick  # noqa: F401

ERR_FILE = ["EIO", "EIO", "EACCES", "EMFILE", "ENOMEM", "ESTALE", "ETIMEDOUT", "MemoryError",
            "KeyboardInterrupt", "SHORT"]
ERR_ANY = ["KeyboardInterrupt", "MemoryError"]


# ---------------------------------------------------------------- faults
def add_faults(rnd, case, n, retry=True, opidx=None):
    """n transient faults inside operations; failed operations are retried."""
    build = [i for i, o in enumerate(case["ops"])
             if o["op"] in ("add_module", "add_script", "add_source", "add_dist", "context", "cli")]
    if not build:
        return
    files = sorted(p for p, s in case["files"].items() if s["k"] in ("py", "pyc", "zip")
                   and not s.get("ns"))
    packages = sorted({p.rpartition("/")[0] for p in files if "/__init__." in p})
    for _ in range(n):
        f = {"opidx": rnd.choice(build) if opidx is None else opidx}
        x = rnd.random()
        if x < 0.1 and packages and not has_ns(case["files"]):
            f.update(op="list", nth=rnd.choice([1, 1, 1, 2, 2, 3, 4]),
                     err=rnd.choice([e for e in ERR_FILE if e != "SHORT"] + ["EACCES"] * 4))
            if rnd.random() < 0.7:
                f["path"] = rnd.choice(packages)
            if f["err"] == "EACCES":
                f["span"] = 50
        elif x < 0.5 and files:
            f.update(op="file", path=rnd.choice(files), nth=rnd.choice([1, 1, 1, 2, 2, 3, 4, 5]),
                     err=rnd.choice(ERR_FILE))
        elif x < 0.8:
            f.update(op="file", nth=1 + int(rnd.expovariate(1 / 12)), err=rnd.choice(ERR_FILE))
        else:
            f.update(op="any", nth=1 + int(rnd.expovariate(1 / 60)), err=rnd.choice(ERR_ANY))
            if has_ns(case["files"]):
                # (an error while a package is imported to find its search
                # path looks like a package that raises)
                f["err"] = "KeyboardInterrupt"
        if rnd.random() < 0.2 and "span" not in f:
            f["span"] = rnd.choice([2, 3, 10])
        if f["err"] == "SHORT":
            f["span"] = rnd.choice([1, 3, 50])
            f["op"] = "read" if f["op"] == "any" else f["op"]
        case["faults"].append(f)
    if not retry:
        return
    # faults carry the identity of the operation: retries come later
    retries = []
    for i in sorted({f["opidx"] for f in case["faults"]}):
        if rnd.random() < 0.8:
            op = dict(case["ops"][i])
            if op["op"] == "context":
                op = {k: v for k, v in op.items() if k != "raise"}
            op["retry"] = True
            retries.append(op)
    if rnd.random() < 0.3:
        rnd.shuffle(retries)
    case["ops"] += retries


# ---------------------------------------------------------------- distributions
DIST_NAMES = ["alpha", "beta-lib", "Gamma", "delta.ext", "epsilon"]


def record_line(rnd, rel):
    hash_ = rnd.choice(["", "sha256=47DEQpj8HBSa", "sha256=abc_-="])
    size = rnd.choice(["", "0", "1234"]) if hash_ else ""
    if "," in rel or rnd.random() < 0.08:
        rel = '"' + rel.replace('"', '""') + '"'
    return f"{rel},{hash_},{size}"


def dist_files(rnd, wg, entry, name, version, members, style=None):
    """RECORD and METADATA specs for one distribution in *entry*."""
    info = f"{name.replace('-', '_')}-{version}.dist-info"
    lines = list(members)
    for m in members:
        if m.endswith(".py") and rnd.random() < 0.6:
            d, _, fn = m.rpartition("/")
            lines.append((d + "/" if d else "") + f"__pycache__/{fn[:-3]}.cpython-312.pyc")
    if rnd.random() < 0.3:
        lines.append(f"../../bin/{name}")
        if rnd.random() < 0.5:
            lines.append("../../bin/tool.py")
    if rnd.random() < 0.1:
        lines.append("/simdisk/elsewhere/abs.py")
    lines += [f"{info}/{x}" for x in ("METADATA", "RECORD", "WHEEL", "INSTALLER")]
    rnd.shuffle(lines)
    record = "\n".join(record_line(rnd, x) for x in lines) + ("\n" if rnd.random() < 0.9 else "")
    head = ["Metadata-Version: 2.1", f"Name: {name}", f"Version: {version}", "Summary: s"]
    if rnd.random() < 0.3:
        head = [head[0], head[2], head[1], head[3]]
    body = rnd.choice(["", "\nName: wrong\nVersion: 9\n", "\ndescription\n"])
    meta = "\n".join(head) + "\n" + body
    return info, meta, record


def mypyc(rnd, wg, entry, rels):
    """Compile some modules of a distribution with mypyc."""
    done = 0
    for rel in rnd.sample(rels, len(rels)):
        f = f"{entry}/{rel}"
        spec = wg.files.get(f)
        base = f.rpartition("/")[2].split(".")[0]
        src = f"{f.rpartition('/')[0]}/{base}.py"
        if spec is None or not base.isidentifier() or done > 3:
            continue
        if spec["k"] == "py" and not spec.get("ns") and spec.get("bad") in (
                None, "syntax", "null", "cookie", "utf8", "utf8early", "deep"):
            ext = src[:-3] + rnd.choice([".so", ".cpython-312-x86_64-linux-gnu.so"])
            if ext not in wg.files:
                wg.files[ext] = {"k": "ext"}
                rels.append(ext[len(entry) + 1:])
                done += 1
        elif spec["k"] == "ext" and src not in wg.files and wg.owner.get(f):
            name, ispkg = wg.owner[f]
            body = [wg.stmt(name, ispkg) for _ in range(rnd.randint(1, 3))]
            wg.files[src] = {"k": "py", "body": [b for b in body if b]}
            rels.append(src[len(entry) + 1:])
            done += 1
    if done and rnd.random() < 0.9:
        d = entry
        if rnd.random() < 0.2:
            d = rnd.choice([f"{entry}/{r}".rpartition("/")[0] for r in rels])
        for _ in range(rnd.choice([1, 1, 1, 2, 3])):
            helper = f"{d}/{rnd.choice(['a1b2', 'f00d', '3c'])}__mypyc.so"
            wg.files.setdefault(helper, {"k": "ext"})
            rels.append(helper[len(entry) + 1:])
    wg.w = type(wg.w)(wg.case)
    wg.names = wg.known()


def gen_dists(rnd, p, wg, n=(1, 4), bad_p=0.25):
    """Partition the files of each directory entry over distributions."""
    names, members_of = [], {}
    for entry in wg.path:
        if entry == wg.zip:
            continue
        tops = {}
        for f in sorted(wg.files):
            if f.startswith(entry + "/"):
                rel = f[len(entry) + 1:]
                if ".dist-info/" not in rel:
                    tops.setdefault(rel.split("/")[0], []).append(rel)
        groups = {}
        for t in sorted(tops):
            if rnd.random() < 0.8:
                groups.setdefault(rnd.choice(DIST_NAMES[: rnd.randint(1, 5)]), []).extend(tops[t])
        k = rnd.randint(*n)
        for name in sorted(groups)[:k]:
            version = rnd.choice(["1.0", "2.3.1", "0.1.dev0"])
            rels = list(groups[name])
            if rnd.random() < 0.15 and len(rels) > 1:
                rels.pop(rnd.randrange(len(rels)))
            if rnd.random() < p.get("mypyc_p", 0.15):
                mypyc(rnd, wg, entry, rels)
            if rnd.random() < 0.2:
                rels.append(rnd.choice(["ghost.py", "ma/ghost.py", "ghostpkg/__init__.py",
                                        "ma/.hidden/x.py", "ma.d/x.py", "x.y.py",
                                        "_o.cpython-311-x86_64-linux-gnu.so"]))
            info, meta, record = dist_files(rnd, wg, entry, name, version, rels)
            base = f"{entry}/{info}"
            if base + "/METADATA" in wg.files:
                continue
            wg.files[base + "/METADATA"] = {"k": "text", "text": meta}
            wg.files[base + "/RECORD"] = {"k": "text", "text": record}
            names.append(name)
            members_of[base] = rels
            while rels and rnd.random() < 0.2:
                # what an interrupted upgrade leaves, or a file that several
                # distributions install
                other = name if rnd.random() < 0.5 else rnd.choice(DIST_NAMES)
                also = [r for r in rels if rnd.random() < 0.7]
                info, meta, record = dist_files(rnd, wg, entry, other, rnd.choice(
                    ["1.0", "1.1", "0.9", "10.0"]), also)
                base = f"{entry}/{info}"
                if also and base + "/METADATA" not in wg.files:
                    wg.files[base + "/METADATA"] = {"k": "text", "text": meta}
                    wg.files[base + "/RECORD"] = {"k": "text", "text": record}
                    names.append(other)
                    members_of[base] = also
        # broken ones
        while rnd.random() < bad_p:
            info = rnd.choice(["aaa", "mmm", "zzz"]) + f"-{rnd.randrange(9)}.dist-info"
            base = f"{entry}/{info}"
            if base in wg.files:
                continue
            kind = rnd.randrange(6)
            mod = rnd.choice(["ma.py", "pa/__init__.py", "x.py"])
            rec = {"k": "text", "text": f"{mod},,\n"}
            if kind == 0:
                wg.files[base + "/METADATA"] = {"k": "text", "text": "Name: broken\nVersion: 1\n"}
            elif kind == 1:
                wg.files[base + "/RECORD"] = rec
            elif kind == 2:
                wg.dirs.append(base)
            elif kind == 3:
                wg.files[base + "/METADATA"] = {"k": "text", "text": "Metadata-Version: 2.1\n"}
                wg.files[base + "/RECORD"] = rec
            elif kind == 4:
                wg.files[base + "/METADATA"] = {"k": "text", "text": "Name: half\n"}
                wg.files[base + "/RECORD"] = rec
            elif base not in wg.dirs and not any(f.startswith(base + "/") for f in wg.files):
                wg.files[base] = {"k": "data"}
    return sorted(set(names))


def evolve(rnd, p, wg, og, case):
    """The program changes on disk after the first builds; a new graph of the
    same process describes the new program."""
    changes, packages, mods = [], [], []
    for f in sorted(wg.files):
        spec = wg.files[f]
        if spec["k"] == "py" and not spec.get("ns") and not spec.get("bad") and wg.owner.get(f):
            mods.append(f)
        if f.rpartition("/")[2].startswith("__init__.") and wg.owner.get(f):
            packages.append((f.rpartition("/")[0], wg.owner[f][0]))
    new = []
    real = [e for e in wg.path if e != wg.zip]
    for _ in range(rnd.randint(1, 3)):
        if rnd.random() < 0.5 and packages and "zz1" not in new:
            base, name = rnd.choice(packages)
            full = f"{name}.late"
        elif real:
            base, full = rnd.choice(real), "zz1"
        else:
            continue
        if full in new or wg.w.resolve(full) is not None:
            continue
        new.append(full)
        case["dirs"].append(base)
        path = f"{base}/{full.rpartition('.')[2]}.py"
        body = [s for s in (wg.stmt(full, False) for _ in range(rnd.randint(0, 3))) if s]
        changes.append({"do": "put", "path": path, "spec": {"k": "py", "body": body}})
    wg.names = wg.names + new
    for f in rnd.sample(mods, min(len(mods), rnd.randint(0, 3))):
        body = [s for s in (wg.stmt(*wg.owner[f]) for _ in range(rnd.randint(0, 3)))
                if s and s["k"] != "raise"]
        changes.append({"do": "put", "path": f, "spec": dict(wg.files[f], body=body)})
    for base, _ in packages:
        x = rnd.random()
        if x < 0.25:
            changes.append({"do": "put", "path": f"{base}/late.dat", "spec": {"k": "data"}})
        elif x < 0.4:
            changes += [{"do": "remove", "path": f} for f in sorted(wg.files)
                        if f.startswith(base + "/") and wg.files[f]["k"] == "data"]
    if real and rnd.random() < 0.5:
        entry = rnd.choice(real)
        listed = "".join(s["text"] for f, s in wg.files.items() if f.endswith("/RECORD"))
        rels = sorted({f[len(entry) + 1:] for f in [*wg.files, *(c["path"] for c in changes)]
                       if f.startswith(entry + "/") and ".dist-info" not in f
                       and f[len(entry) + 1:] not in listed})
        if rels:
            rels = rnd.sample(rels, rnd.randint(1, len(rels)))
            info, meta, record = dist_files(rnd, wg, entry, "late-dist", "3.1", rels)
            for n, text in (("METADATA", meta), ("RECORD", record)):
                changes.append({"do": "put", "path": f"{entry}/{info}/{n}",
                                "spec": {"k": "text", "text": text}})
    if not changes:
        return
    g = len(case["graphs"])
    case["graphs"].append(dict(rnd.choice(case["graphs"])))
    again = [dict(o, g=g) for o in case["ops"] if o.get("g") == 0 and (
        o.get("keep") or rnd.random() < 0.7)]
    case["ops"] += [o for o in again if o.get("keep")]
    case["ops"].append({"op": "fs", "g": g, "changes": changes})
    case["ops"] += [o for o in again if not o.get("keep")]
    case["ops"] += [{"op": "add_module", "g": g, "name": n}
                    for n in new + [rnd.choice(wg.names)] if rnd.random() < 0.7]


# ---------------------------------------------------------------- host state
def gen_host(rnd, p, wg, n=(1, 4)):
    out, used = [], set()
    aliased = set()
    for _ in range(rnd.randint(*n)):
        kind = rnd.choice(["import", "import", "none", "specless", "nonespec", "alias"])
        if kind == "import":
            pool = wg.names
        elif kind == "alias":
            pool = ["hal1", "hal2"]
        else:
            pool = wg.names + ["zz1", "hx"]
            if wg.swig_names and rnd.random() < 0.4:
                pool = wg.swig_names
        pool = [x for x in pool if x not in used]
        if not pool:
            continue
        name = rnd.choice(pool)
        if name == "pkg_resources" and kind != "none":
            continue
        h = {"do": kind, "name": name}
        if kind in ("specless", "nonespec"):
            # an object that stands in for a package needs its search path
            r = wg.w.resolve(name)
            if r is not None and r.kind in ("pkg", "ns"):
                if r.kind == "ns" or r.ns_type or wg.files.get(r.file, {}).get("ns"):
                    continue
                h["path"] = list(r.search)
            if any(x in used for x in wg.names if x.startswith(name + ".")):
                continue
            if any(name.startswith(u + ".") for u in used):
                continue
        if kind == "none":
            if any(x == name or x.startswith(name + ".") for x in aliased):
                continue
            if any(o["name"].startswith(name + ".") for o in out
                   if o["do"] in ("specless", "nonespec")):
                continue
        if kind == "alias":
            tgt = [x for x in wg.names if plain(wg, x) and x not in used
                   and not any(x.startswith(u + ".") for u in used)]
            if not tgt:
                continue
            h["to"] = rnd.choice(tgt)
            aliased.add(h["to"])
            for i in range(h["to"].count(".") + 1):
                used.add(h["to"].rsplit(".", i)[0])
        used.add(name)
        out.append(h)
    # entries that stand in come before real imports would create the name
    out.sort(key=lambda h: h["do"] == "import")
    for h in out:
        if h["do"] == "alias":
            use_alias(rnd, wg, h["name"], h["to"], aliased)
    return out


def plain(wg, name):
    """Can the host program import this module without side effects?"""
    for i in range(name.count(".") + 1):
        n = name.rsplit(".", i)[0]
        r = wg.w.resolve(n)
        if r.kind == "ns" and i:
            continue
        if r.kind not in ("mod", "pkg") or r.zip or r.file is None:
            return False
        s = wg.files[r.file]
        if s["k"] != "py" or s.get("ns") or s.get("bad"):
            return False
        if any(b["k"] != "set" for b in s.get("body", ())):
            return False
    return True


def use_alias(rnd, wg, name, to, keep):
    """Lets the program refer to the alias."""
    wg.alias_names += [name] + [name + n[len(to):] for n in wg.names if n.startswith(to + ".")]
    wg.vars[name] = wg.vars.get(to, [])
    owners = sorted(f for f, (n, _) in wg.owner.items() if f in wg.files
                    and wg.files[f]["k"] == "py" and not wg.files[f].get("ns")
                    and not any(k == n or k.startswith(n + ".") for k in keep))
    for _ in range(rnd.choice([0, 1, 1, 2])):
        if owners:
            f = rnd.choice(owners)
            n = rnd.choice(wg.alias_names)
            if rnd.random() < 0.5:
                st = {"k": "import", "n": n, "as": rnd.choice([None, None, "al"]),
                      "ctx": wg.ctx()}
            else:
                ctx = wg.ctx()
                st = {"k": "from", "m": n, "lvl": 0, "names": wg.namelist(n, ctx), "ctx": ctx}
            body = wg.files[f].setdefault("body", [])
            body.insert(rnd.randint(0, len(body)), st)


# ---------------------------------------------------------------- installers
def installer(rnd, entry, info, meta, record, extra, at, gap):
    """Steps of an installing process: directory, files, METADATA in pieces,
    RECORD last and complete."""
    base = f"{entry}/{info}"
    steps = [("mkdir", base, None)]
    for path, data in extra:
        steps.append(("put", f"{entry}/{path}", data))
    order = rnd.random()
    cuts = {rnd.randrange(len(meta)) for _ in range(rnd.choice([0, 1, 1, 2]))}
    for key in ("Name: ", "Version: "):
        if rnd.random() < 0.3:
            # inside the value
            i = meta.index(key) + len(key)
            cuts.add(rnd.randint(i, meta.index("\n", i)))
    cuts = sorted(cuts)
    for c in cuts:
        steps.append(("put", base + "/METADATA", meta[:c]))
    steps.append(("put", base + "/METADATA", meta))
    if order < 0.4:
        steps.append(("put", base + "/INSTALLER", "pip\n"))
    steps.append(("put", base + "/RECORD", record))
    out, t = [], at
    burst = rnd.choice([0, 0.4, 0.8])
    wait = rnd.random() < 0.5
    for i, (do, path, data) in enumerate(steps):
        out.append({"at": t, "do": do, "path": path, "data": data})
        if wait and i and steps[i - 1][1] == base + "/METADATA" and rnd.random() < 0.6:
            # go on when a reader gets to these files
            out[-1]["on"] = [rnd.choice(["open", "read", "close"]),
                             base + rnd.choice(["/METADATA", "/METADATA", "/RECORD"])]
        # bursts: several steps may happen between two steps of the reader
        t += 0 if rnd.random() < burst else 1 + int(rnd.expovariate(1 / gap))
    return out


def uninstaller(rnd, base, names, at, gap):
    steps = [("remove", f"{base}/{n}", None) for n in names]
    rnd.shuffle(steps)
    steps.append(("remove", base, None))
    out, t = [], at
    for do, path, _ in steps:
        out.append({"at": t, "do": do, "path": path, "data": None})
        t += 1 + int(rnd.expovariate(1 / gap))
    return out


# ---------------------------------------------------------------- command line
ERR_OUT = ["ENOSPC", "ENOSPC", "EIO", "EDQUOT", "EPIPE", "MemoryError", "KeyboardInterrupt",
           "SHORT"]


def gen_cli(rnd, p, wg, og, case, extra_path=()):
    """One command line run."""
    op = {"op": "cli", "excludes": [], "extra": list(extra_path), "names": [], "kind": "m"}
    argv = []
    x = rnd.random()
    if x < 0.5:
        op["names"] = [og.anyname() for _ in range(rnd.randint(1, 3))]
        if rnd.random() < 0.4:
            argv.append(rnd.choice(["-m", "--module"]))
    elif x < 0.8 or not getattr(og, "dist_names", None):
        op["kind"] = "s"
        argv.append(rnd.choice(["-s", "--script"]))
        for _ in range(rnd.randint(1, 2)):
            y = rnd.random()
            if y < 0.08:
                op["names"].append("/simdisk/s/absent.py")
            elif y < 0.16:
                path = f"/simdisk/s/bad{rnd.randrange(3)}.py"
                wg.files.setdefault(path, {"k": "py", "body": [], "bad": rnd.choice(
                    ["syntax", "return", "cookie", "utf8", "null"])})
                op["names"].append(path)
            else:
                op["names"].append(og.script_op(0)["path"])
        if rnd.random() < 0.4:
            path = f"/simdisk/s/long{rnd.randrange(3)}.py"
            tail = "_with_a_long_name" * rnd.randint(1, 4)
            wg.files[path] = {"k": "py", "body": [
                {"k": "import", "n": f"zz{i}{tail}", "as": None, "ctx": []}
                for i in range(rnd.choice([20, 60, 120]))]}
            op["names"].append(path)
        bad = [n for n in op["names"] if n.endswith("absent.py") or
               wg.files[n].get("bad") not in (None, "latin", "bom")]
        if bad or len(set(op["names"])) < len(op["names"]):
            op["invalid"] = True
    else:
        op["kind"] = "d"
        argv.append(rnd.choice(["-d", "--distribution"]))
        op["names"] = [rnd.choice(og.dist_names) for _ in range(rnd.randint(1, 2))]
        if rnd.random() < 0.08:
            op["names"].append("nodist")
            op["invalid"] = True
    op["format"] = "html"
    y = rnd.random()
    if y < 0.55:
        op["format"] = "dot" if y < 0.4 else "html"
        argv += rnd.choice([["-f", op["format"]], ["--format", op["format"]],
                            ["--format=" + op["format"]]])
    if has_ns(wg.files):
        op["excludes"].append("pkgutil")
    for _ in range(rnd.choice([0, 0, 1, 2])):
        op["excludes"].append(og.lazy_name())
    for n in op["excludes"]:
        argv += rnd.choice([["-x", n], ["--exclude", n]])
    if rnd.random() < 0.1:
        op["exclude_stdlib"] = True
        argv.append("--exclude-stdlib")
    for e in op["extra"]:
        argv += rnd.choice([["-p", e], ["--path", e]])
    if rnd.random() < 0.7:
        op["out"] = f"/simdisk/out/report.{rnd.choice(['html', 'dot', 'txt'])}"
        argv += rnd.choice([["-o", op["out"]], ["--output", op["out"]]])
        if rnd.random() < 0.4:
            case.setdefault("stale", {})[op["out"]] = "old contents\n" * rnd.randint(1, 3000)
    if rnd.random() < 0.05:
        argv += ["-f", "xml"]
        op["invalid"] = True
    op["argv"] = argv + op["names"]
    return op


def add_out_faults(rnd, case, prob):
    for i, op in enumerate(case["ops"]):
        if op["op"] != "cli" or rnd.random() >= prob:
            continue
        path = op.get("out") or "/simdisk/out/stdout"
        x = rnd.random()
        if x < 0.65:
            f = {"opidx": i, "op": "write", "path": path, "nth": rnd.choice([1, 1, 1, 2, 2, 3]),
                 "err": rnd.choice(ERR_OUT), "span": rnd.choice([1, 1, 2, 1000])}
        elif x < 0.8:
            f = {"opidx": i, "op": "open", "path": path, "nth": 1, "span": 1,
                 "err": rnd.choice(["EACCES", "EROFS", "ENOSPC", "EIO", "EMFILE",
                                    "KeyboardInterrupt"])}
        else:
            f = {"opidx": i, "op": "close", "path": path, "nth": 1, "span": 1,
                 "err": rnd.choice(["EIO", "ENOSPC", "EDQUOT", "KeyboardInterrupt"])}
        case["faults"].append(f)


# ---------------------------------------------------------------- C14
def gen_install(rnd, profile, seed, moving):
    """Lookups over directories of distributions, some of them changing."""
    case = base_case(profile, seed, rnd)
    entries = [f"/simdisk/r{i}" for i in range(rnd.randint(1, 3))]
    case.update(path=list(entries), dirs=list(entries), files={}, host=[], graphs=[{}],
                faults=[], actors=[])
    files = case["files"]

    class W:
        pass

    names, mods, bases = [], [], []
    for e in entries:
        for _ in range(rnd.randint(0, 4)):
            name = rnd.choice(DIST_NAMES)
            version = rnd.choice(["1.0", "2.3.1", "0.1.dev0", "10.4"])
            rels = rnd.sample(["ma.py", "pa/__init__.py", "pa/x.py", "mb.pyc", "pa/d/data.txt",
                               "ext.cpython-312-x86_64-linux-gnu.so", "we,ird.py", 'q"uote.py',
                               "x y.txt", "sub/mod.py"], rnd.randint(0, 4))
            info, meta, record = dist_files(rnd, W, e, name, version, rels)
            if f"{e}/{info}/METADATA" in files:
                continue
            files[f"{e}/{info}/METADATA"] = {"k": "text", "text": meta}
            files[f"{e}/{info}/RECORD"] = {"k": "text", "text": record}
            names.append(name)
            bases.append(f"{e}/{info}")
            mods += [f"{e}/{r}" for r in rels]
        for j in range(rnd.choice([0, 0, 1, 2])):
            info = f"{rnd.choice(['aaa', 'mmm', 'zzz'])}{j}-1.dist-info"
            b = f"{e}/{info}"
            kind = rnd.randrange(8)
            ok = {"k": "text", "text": "Metadata-Version: 2.1\nName: broken\nVersion: 1\n"}
            rec = {"k": "text", "text": "ma.py,,\npa/x.py,,\n"}
            if kind == 0:
                files[b + "/METADATA"] = ok
            elif kind == 1:
                files[b + "/RECORD"] = rec
            elif kind == 2:
                case["dirs"].append(b)
            elif kind == 3:
                files[b + "/METADATA"] = {"k": "text", "text": ""}
                files[b + "/RECORD"] = rec
            elif kind == 4:
                files[b + "/METADATA"] = {"k": "text", "text": "Name: half\n"}
                files[b + "/RECORD"] = rec
            elif kind == 5:
                files[b] = {"k": "data"}
            elif kind == 6:
                files[b + "/METADATA"] = ok
                files[b + "/RECORD"] = {"k": "raw", "hex": "6d612e70792c2c0aff fe80".replace(
                    " ", "")}
            else:
                files[b + "/METADATA/x"] = {"k": "data"}
                files[b + "/RECORD"] = rec
            names.append("broken")
    if moving:
        n = 0
        for _ in range(rnd.randint(1, 4)):
            e = rnd.choice(entries)
            if rnd.random() < 0.75 or not bases:
                n += 1
                name = rnd.choice(DIST_NAMES + [f"new{n}"])
                version = rnd.choice(["1.10.12", "2.0", "3.14.15.post2"])
                rels = rnd.sample(["ma.py", "na/__init__.py", "na/x.py", "nb.py"],
                                  rnd.randint(1, 3))
                info, meta, record = dist_files(rnd, W, e, name, version, rels)
                info = f"{name.replace('-', '_')}_{n}-{version}.dist-info"
                case["actors"] += installer(rnd, e, info, meta, record, [(r, "") for r in rels],
                                            rnd.randrange(150), rnd.choice([1, 3, 8]))
                names.append(name)
                mods += [f"{e}/{r}" for r in rels]
            else:
                b = bases.pop(rnd.randrange(len(bases)))
                case["actors"] += uninstaller(rnd, b, ["METADATA", "RECORD"],
                                              rnd.randrange(150), rnd.choice([1, 3, 8]))
    ops = []
    for _ in range(rnd.randint(2, 7)):
        if ops and rnd.random() < 0.2:
            # the same question again
            ops.append(dict(rnd.choice(ops)))
            continue
        x = rnd.random()
        op = {"op": "lookup"}
        if x < 0.5:
            op["what"] = "all"
        elif x < 0.75:
            op.update(what="named", name=rnd.choice(names + ["nodist", "new1"]))
        else:
            op.update(what="file", file=rnd.choice(mods + ["/simdisk/r0/ma.py"]))
        if rnd.random() < (0.5 if op["what"] == "file" else 0.3):
            pth = entries[:]
            rnd.shuffle(pth)
            op["path"] = pth[:rnd.randint(1, len(pth))]
            if rnd.random() < 0.2:
                op["path"].insert(0, "/simdisk/absent")
        ops.append(op)
    k = len(ops)
    ops += [{"op": "settle"}]
    if rnd.random() < 0.7:
        ops += [dict(o) for o in rnd.sample(ops[:k], min(k, rnd.randint(1, 3)))]
    ops += [{"op": "lookup", "what": "all"},
            {"op": "lookup", "what": "named", "name": rnd.choice(names + ["new1"])}]
    case["ops"] = ops
    infos = sorted(p for p in files if ".dist-info/" in p) + sorted(
        {a["path"] for a in case["actors"] if a["path"].endswith(("METADATA", "RECORD"))})
    if infos and rnd.random() < 0.5:
        for _ in range(rnd.randint(1, 3)):
            f = {"opidx": rnd.randrange(k), "op": rnd.choice(["open", "read"]),
                 "path": rnd.choice(infos), "nth": rnd.choice([1, 1, 2]),
                 "span": rnd.choice([1, 1, 2]), "err": rnd.choice(
                     ["EIO", "EACCES", "EMFILE", "ESTALE", "SHORT", "MemoryError",
                      "KeyboardInterrupt"])}
            case["faults"].append(f)
    return case


# ---------------------------------------------------------------- C13
def threads(rnd, p, wg, og, case):
    """Several graphs with similar histories and the points of preemption."""
    n = rnd.choice([2, 2, 2, 3])
    case["graphs"] = [dict(case["graphs"][i % len(case["graphs"])]) for i in range(n)]
    ops = [o for o in case["ops"] if o["op"] != "fs"]
    mine = [o for o in ops if o.get("g", 0) == 0]
    out = [dict(o, g=0) for o in mine]
    other = [o for o in ops if o.get("g", 0) != 0]
    for t in range(1, n):
        src = mine if rnd.random() < 0.6 else (other or mine)
        for o in src:
            if o.get("keep") or rnd.random() < 0.85:
                out.append(dict(o, g=t))
        if rnd.random() < 0.3:
            tail = [o for o in out if o["g"] == t and not o.get("keep")]
            rest = [o for o in out if o["g"] != t or o.get("keep")]
            rnd.shuffle(tail)
            out = rest + tail
    names = getattr(og, "dist_names", None)
    if names:
        for _ in range(rnd.choice([0, 1, 2])):
            for t in range(n):
                at = max((i + 1 for i, o in enumerate(out) if o.get("keep")), default=0)
                op = {"op": "lookup", "g": t, "what": "all"}
                if rnd.random() < 0.5:
                    op.update(what="named", name=rnd.choice(names))
                out.insert(rnd.randint(at, len(out)), op)
    case["ops"] = out
    case["fine"] = rnd.random() < 0.12
    k = rnd.choice([1, 2, 3, 5, 8, 15, 40, 80, 150])
    mix = rnd.choice([[5, 3, 1, 1, 3], [0, 1, 0, 0, 0], [0, 3, 2, 0, 0], [0, 1, 3, 0, 0],
                      [0, 0, 0, 1, 0], [0, 1, 0, 0, 0], [0, 1, 0, 0, 3]])
    pre = []
    for _ in range(k):
        t = rnd.randrange(n)
        pre.append({"t": t, "kind": rnd.choices(["line", "io", "lock", "op", "hot"],
                                                   mix)[0],
                    "f": round(rnd.random() ** rnd.choice([1, 1, 2]), 6),
                    "to": rnd.choice([x for x in range(n) if x != t])})
    case["preempt"] = pre
