"""What each property's check runs, and which violations belong to it."""

import os

from . import profiles as _profiles

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

EDGE = {"edge-missing", "anno-missing"}
NODE = {"node-kind", "node-alias", "node-file", "node-path", "node-data", "node-code"}
GRAPH = EDGE | NODE | {"edge-extra", "anno-extra", "node-extra", "node-dist", "parent-missing",
                       "implied-missing", "hookedge-missing", "pkg-edge-missing",
                       "dist-edge-missing", "root-missing", "root-extra", "node-missing",
                       "op-raised", "no-return"}
POST = {"post-twice", "post-node", "post-missing", "post-order", "post-early"}
MISS = {"missing-needless", "missing-arg", "missing-order", "missing-again", "missing-skipped"}
DIST = {"dists-query", "dist-node", "op-no-exc", "op-wrong-exc", "reject-changed"}
HOST = {"host-path", "host-module"}
CLI = {"cli-output", "cli-failed", "cli-success", "cli-silent", "cli-api", "no-return"}
END = {"op-raised", "no-return"}

REAL = [
    "all of modulegraph2 from /repo's working tree, unmodified",
    "objectgraph (installed dependency)",
    "CPython's import system (importlib, zipimport), compiler, email and zipfile modules",
]
STUB = [
    "file system below /simdisk: in-memory tree behind os/io/open (all import entries, scripts, "
    "distributions and outputs of a run live there)",
    "clock of the simulated disk (file timestamps) and directory enumeration order: seeded",
]
ASSUME = [
    "seeded sampling: a pass says nothing about runs that were not generated",
    "the reference model (dst/model.py) and the simulated disk (dst/simfs.py) are correct",
    "CPython 3.12 on Linux; extension modules are never executed",
]


def profile(name):
    return _profiles.PROFILES[name]


def any_graph(res):
    return res["nodes"] >= 3


def has(*names):
    return lambda res: any(res["probes"].get(n) for n in names)


RULE = ("One run = one seeded world (modules, packages, archives, distributions, scripts), one "
        "seeded history of calls, hooks, faults and other actors, executed in a forked process "
        "under the simulator and judged against the reference model after every call. ")

PROPS = {
    "C01": {"parts": [("graph", 2600, EDGE | {"node-missing", "edge-extra", "anno-extra"} | END),
                      ("cycles", 2400, EDGE | {"node-missing"} | END)],
            "rule": RULE + "Non-trivial: at least 3 nodes were built.", "nontrivial": any_graph},
    "C02": {"parts": [("graph", 2600, {"edge-extra", "anno-extra", "node-extra", "root-extra",
                                       "no-return"}),
                      ("cycles", 2400, {"edge-extra", "anno-extra", "node-extra", "root-extra",
                                        "no-return"})],
            "rule": RULE + "Non-trivial: at least 3 nodes were built.", "nontrivial": any_graph},
    "C03": {"parts": [("kinds", 5000, NODE | END)],
            "rule": RULE + "Non-trivial: at least 3 nodes were built.", "nontrivial": any_graph},
    "C04": {"parts": [("graph", 2600, {"parent-missing"} | END),
                      ("implies", 2400, {"parent-missing"} | END)],
            "rule": RULE + "Non-trivial: at least 3 nodes were built.", "nontrivial": any_graph},
    "C06": {"parts": [("post", 5000, GRAPH | POST)],
            "rule": RULE + "Non-trivial: a hook acted on the graph or raised.",
            "nontrivial": has("act_import_module", "act_import_package", "act_add_module",
                              "act_add_edge", "hook_raised")},
    "C07": {"parts": [("missing", 5000, GRAPH | MISS)],
            "rule": RULE + "Non-trivial: a missing-module hook supplied a node or raised.",
            "nontrivial": has("missing_supplied", "hook_raised")},
    "C08": {"parts": [("excludes", 5000, GRAPH)],
            "rule": RULE + "Non-trivial: names were excluded and a graph of 3 or more nodes built.",
            "nontrivial": lambda r: r["probes"].get("op_excludes") and r["nodes"] >= 3},
    "C09": {"parts": [("implies", 5000, GRAPH)],
            "rule": RULE + "Non-trivial: implied actions were registered and a graph of 3 or more "
            "nodes built.",
            "nontrivial": lambda r: r["probes"].get("op_implies") and r["nodes"] >= 3},
    "C10": {"parts": [("iofault", 5000, GRAPH)],
            "rule": RULE + "Non-trivial: an injected I/O fault or cancellation fired, or broken "
            "modules were analysed.",
            "nontrivial": lambda r: r["fired"] or r["nodes"] >= 5},
    "C11": {"parts": [("resume", 5000, GRAPH | POST | MISS)],
            "rule": RULE + "Non-trivial: a call failed through an injected fault or a hook.",
            "nontrivial": lambda r: r["fired"] or r["probes"].get("hook_raised")},
    "C12": {"parts": [("host", 5000, HOST)],
            "rule": RULE + "Non-trivial: at least 3 nodes were built.", "nontrivial": any_graph},
    "C05": {"parts": [("variants", 1700, {"nondet"} | END)],
            "rule": RULE + "Every run is executed three times, in interpreters with different "
            "string hash seeds, and with different directory orders, timestamps and cached "
            "bytecode; all graphs and outputs are compared. Non-trivial: at least 3 nodes.",
            "nontrivial": any_graph},
    "C16": {"parts": [("cli", 4000, CLI)],
            "rule": RULE + "Command lines run with a simulated output file or standard output. "
            "Non-trivial: a report was compared with the graph built through the API, or an "
            "output fault fired.",
            "nontrivial": lambda r: r["fired"] or r["stats"].get("cli_nodes", 0) >= 3},
    "C13": {"parts": [("race", 1100, {"concurrent", "deadlock"} | HOST | END),
                      ("threads", 900, {"concurrent", "deadlock"} | HOST | END)],
            "rule": RULE + "Two or three threads build graphs of their own; a seeded list of "
            "preemption points (lines of library code, I/O steps, lock operations, calls) decides "
            "the interleaving; the result of each thread is compared with the same calls alone. "
            "Non-trivial: threads were really interleaved and at least 3 nodes built.",
            "stubs": ["locks of threading and of the import system: same semantics, scheduled "
                      "by the simulator"],
            "nontrivial": lambda r: r["probes"].get("interleaved") and r["nodes"] >= 3},
    "C14": {"parts": [("index", 2000, {"dist-index", "dist-torn", "dist-identity"} | END),
                      ("install", 4000, {"dist-index", "dist-torn", "dist-identity"} | END),
                      ("threads", 400, {"dist-identity"})],
            "rule": RULE + "Other processes install (METADATA in pieces, RECORD last) and remove "
            "distributions between the I/O steps of the lookups. Non-trivial: a distribution was "
            "found.", "nontrivial": has("dist_found")},
    "C15": {"parts": [("dists", 5000, GRAPH | DIST)],
            "rule": RULE + "Non-trivial: a distribution was added.",
            "nontrivial": has("op_add_dist")},
    "C17": {"parts": [("packages", 5000, GRAPH)],
            "rule": RULE + "Non-trivial: a whole package was imported.",
            "nontrivial": has("act_import_package")},
    "C18": {"parts": [("rejects", 2600, {"reject-changed", "reject-later", "op-wrong-exc",
                                         "op-no-exc", "root-extra", "root-missing"} | END)],
            "rule": RULE + "Non-trivial: at least one call was rejected. Every run is repeated "
            "without the rejected calls and both results are compared.",
            "nontrivial": has("rejected")},
    "C19": {"parts": [("scale", 320, GRAPH | POST | {"reread", "no-progress"}),
                      ("cycles", 1500, END | {"no-progress"})],
            "rule": RULE + "Programs of up to 1600 modules in chains, cycles, fans and dense "
            "graphs, deep packages, chains of aliases and of hooks, modules of thousands of "
            "statements; partly with a stack of 200 frames. Non-trivial: at least 3 nodes.",
            "nontrivial": any_graph},
    "C23": {"parts": [("compiled", 5000, GRAPH | POST | MISS | HOST)],
            "rule": RULE + "Non-trivial: a module compiled by mypyc was analysed, or an extension "
            "was found for a SWIG module.", "nontrivial": has("mypyc", "swig")},
    "C20": {"parts": [("roots", 5000, GRAPH | {"report", "dists-query"})],
            "rule": RULE + "Non-trivial: at least two successful requests, or a report.",
            "nontrivial": lambda r: r["nodes"] >= 3},
}


# ------------------------------------------------------------ known findings
def known_findings(prop):
    """Findings recorded in known_findings.txt: lines
    ``finding: property=<id> class=<class> match=<substring> :: <what fails>``."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return out
    with open(path) as fp:
        for ln in fp:
            if not ln.startswith("finding: "):
                continue
            head, _, what = ln[len("finding: "):].strip().partition(" :: ")
            f = dict(x.split("=", 1) for x in head.split(" ", 2))
            if f["property"] == prop:
                out.append({"cls": f["class"], "match": f["match"], "what": what})
    return out


def match_known(known, detail):
    """Text of the finding that explains all violations of a run, or None."""
    for k in known:
        if all(v["cls"] == k["cls"] and k["match"] in v["detail"] for v in detail):
            return k["what"]
    return None
