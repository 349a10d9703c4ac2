"""Minimises a failing case: fewer operations, files, statements, faults,
actors and preemptions, as long as the same kind of violation remains."""

import copy
import json
import time


def containers(case):
    """All lists that can be shortened, as (getter) closures on a copy."""
    out = []
    for key in ("preempt", "faults", "actors", "ops", "host", "dirs"):
        if case.get(key):
            out.append(lambda c, key=key: c[key])
    for i, op in enumerate(case.get("ops", ())):
        for key in ("acts", "names", "body", "changes", "raise_at"):
            if isinstance(op.get(key), list) and op["op"] != "cli":
                out.append(lambda c, i=i, key=key: c["ops"][i].get(key, [])
                           if i < len(c["ops"]) else [])
    return out


def bodies(case):
    for p, s in case["files"].items():
        if s["k"] == "zip":
            for m, ms in s["members"].items():
                if ms.get("body") and not ms.get("ns"):
                    yield lambda c, p=p, m=m: (c["files"].get(p, {}).get("members", {})
                                               .get(m, {}).get("body", []))
        elif s.get("body") and not s.get("ns"):
            yield lambda c, p=p: c["files"].get(p, {}).get("body", [])


def shrink(case, test, max_runs=500, max_s=60.0):
    """*test(case)* -> True when the case still fails in the same way."""
    end = time.monotonic() + max_s
    state = {"runs": 0}
    best = copy.deepcopy(case)
    keep = [o for o in case.get("ops", ()) if o.get("keep")]

    def attempt(c):
        if state["runs"] >= max_runs or time.monotonic() > end:
            return False
        if [o for o in c.get("ops", ()) if o.get("keep")] != keep:
            return False
        state["runs"] += 1
        try:
            return test(json.loads(json.dumps(c)))
        except Exception:
            return False

    def spent():
        return state["runs"] >= max_runs or time.monotonic() > end

    def cut_list(get):
        nonlocal best
        lst = get(best)
        n = len(lst)
        size = n
        while size >= 1 and not spent():
            i = 0
            while i < len(get(best)):
                c = copy.deepcopy(best)
                del get(c)[i:i + size]
                if attempt(c):
                    best = c
                else:
                    i += size
            size //= 2

    def cut_dict(get):
        nonlocal best
        keys = sorted(get(best))
        size = max(1, len(keys) // 2)
        while size >= 1 and not spent():
            i = 0
            keys = sorted(get(best))
            while i < len(keys):
                c = copy.deepcopy(best)
                for k in keys[i:i + size]:
                    get(c).pop(k, None)
                if attempt(c):
                    best = c
                    keys = sorted(get(best))
                else:
                    i += size
            size //= 2

    def simplify():
        """Field level reductions."""
        nonlocal best

        def tries():
            for get in list(bodies(best)):
                for j, s in enumerate(get(best)):
                    if s.get("ctx"):
                        yield lambda c, get=get, j=j: get(c)[j].update(ctx=get(c)[j]["ctx"][:-1])
                        yield lambda c, get=get, j=j: get(c)[j].update(ctx=get(c)[j]["ctx"][1:])
                    if s["k"] == "from" and len(s["names"]) > 1:
                        for q in range(len(s["names"])):
                            yield lambda c, get=get, j=j, q=q: get(c)[j]["names"].pop(q)
                    if s["k"] == "from":
                        for q, nm in enumerate(s["names"]):
                            if nm[1]:
                                yield lambda c, get=get, j=j, q=q: get(c)[j]["names"].__setitem__(
                                    q, [get(c)[j]["names"][q][0], None])
                    if s.get("as"):
                        yield lambda c, get=get, j=j: get(c)[j].update({"as": None})
            for i, op in enumerate(best.get("ops", ())):
                for key in ("acts", "map", "table"):
                    if isinstance(op.get(key), dict):
                        for k in sorted(op[key]):
                            yield lambda c, i=i, key=key, k=k: c["ops"][i][key].pop(k)
                            if isinstance(op[key][k], list) and len(op[key][k]) > 1:
                                for q in range(len(op[key][k])):
                                    yield lambda c, i=i, key=key, k=k, q=q: (
                                        c["ops"][i][key][k].pop(q))
                if op.get("argv"):
                    pass
            for gi, g in enumerate(best.get("graphs", ())):
                for k in ("stdlib_implies", "builtin_hooks"):
                    if g.get(k):
                        yield lambda c, gi=gi, k=k: c["graphs"][gi].update({k: False})
            for i, f in enumerate(best.get("faults", ())):
                if f.get("span", 1) > 1:
                    yield lambda c, i=i: c["faults"][i].update(span=1)
            for p, s in best["files"].items():
                for k in ("bad",):
                    if s.get(k):
                        yield lambda c, p=p, k=k: c["files"][p].pop(k)
            if best.get("pycache"):
                yield lambda c: c.pop("pycache")
            if best.get("spell"):
                yield lambda c: (c.pop("spell"), c.pop("cwd"))
                for e in best["spell"]:
                    yield lambda c, e=e: c["spell"].pop(e)
            for k in ("dirseed", "t0"):
                if best.get(k):
                    yield lambda c, k=k: c.__setitem__(k, 0)

        progress = True
        while progress and not spent():
            progress = False
            for fn in list(tries()):
                if spent():
                    break
                c = copy.deepcopy(best)
                try:
                    fn(c)
                except (KeyError, IndexError, TypeError):
                    continue
                if c != best and attempt(c):
                    best = c
                    progress = True

    before = None
    rounds = 0
    while before != best and not spent() and rounds < 4:
        before = copy.deepcopy(best)
        rounds += 1
        for get in containers(best):
            cut_list(get)
        cut_dict(lambda c: c["files"])
        for p, s in list(best["files"].items()):
            if s["k"] == "zip":
                cut_dict(lambda c, p=p: c["files"][p]["members"])
        for get in list(bodies(best)):
            cut_list(get)
        simplify()
    return best, state["runs"]
