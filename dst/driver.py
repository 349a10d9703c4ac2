"""Entry points executed inside the forked child."""

import hashlib
import importlib
import json
import sys


def preload():
    """Import everything a run needs, before the first fork."""
    from . import sched

    sched.patch_threading()
    # bytecode caches of the library under test could be stale
    old = sys.pycache_prefix
    sys.pycache_prefix = "/nonexistent/pycache"
    try:
        import modulegraph2  # noqa: F401
        import modulegraph2.__main__  # noqa: F401
    finally:
        sys.pycache_prefix = old
        sched.unpatch_threading()
    from . import execute, gen, gen2, model, profiles, runners, scale  # noqa: F401
    from . import simfs, threads, world  # noqa: F401


def run_payload(payload):
    from . import execute, gen, profiles

    if "run" in payload:
        case = payload["run"]
    else:
        profile, seed = payload["gen"]
        case = json.loads(json.dumps(gen.generate(profile, seed)))
    if payload.get("trace"):
        case["keep_trace"] = True
    if payload.get("only_case"):
        return {"case": case}
    prof = profiles.PROFILES[case["profile"]]
    given = case
    if payload.get("variant") and "variant" in prof:
        case = prof["variant"](json.loads(json.dumps(case)), payload["variant"])
    cls = prof.get("runner", execute.Run)
    if isinstance(cls, str):
        mod, _, name = cls.partition(":")
        cls = getattr(importlib.import_module("dst." + mod), name)
    res = cls(case).run()
    res["gh"] = hashlib.sha256("|".join(res["graphs"]).encode(
        "utf-8", "backslashreplace")).hexdigest()[:16]
    if not payload.get("want_graphs"):
        del res["graphs"]
    if "gen" in payload and (res["viol"] or payload.get("want_case")):
        res["case"] = given
    return res
