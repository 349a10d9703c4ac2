"""Warm interpreter that forks one child per simulated run.

Speaks JSON lines on stdin/stdout:
  {"run": case}                      -> result
  {"gen": [profile, seed]}           -> result with "case" when it has violations
"""

import json
import os
import resource
import select
import signal
import sys
import time
import traceback

import importlib.util  # noqa: F401
import importlib.metadata  # noqa: F401
import importlib.resources  # noqa: F401
import csv  # noqa: F401
import glob  # noqa: F401
import pkgutil  # noqa: F401
import shutil  # noqa: F401
import tempfile  # noqa: F401
import threading  # noqa: F401
import tokenize  # noqa: F401
import zipimport  # noqa: F401
import heapq  # noqa: F401
import concurrent.futures  # noqa: F401
import email.parser  # noqa: F401
import argparse  # noqa: F401
import linecache  # noqa: F401


def child(payload, wfd):
    out = {}
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        from dst import driver

        out = driver.run_payload(payload)
    except BaseException as exc:  # noqa: B036
        out = {"harness_error": f"{type(exc).__name__}: {exc}",
               "tb": traceback.format_exc()[-3000:]}
    try:
        data = json.dumps(out).encode()
    except BaseException as exc:  # noqa: B036
        data = json.dumps({"harness_error": f"encode: {exc!r}"}).encode()
    off = 0
    while off < len(data):
        off += os.write(wfd, data[off:off + 65536])
    os._exit(0)


def run_forked(payload, limit):
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        child(payload, wfd)
        os._exit(1)
    os.close(wfd)
    chunks = []
    end = time.monotonic() + limit
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        r, _, _ = select.select([rfd], [], [], left)
        if not r:
            timed_out = True
            break
        b = os.read(rfd, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(rfd)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return {"timeout": limit}
    if not chunks:
        return {"crash": status}
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return {"crash": status}


def main():
    sys.setrecursionlimit(1000)
    sys.path.insert(0, "/verif" if False else os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    from dst import driver

    driver.preload()
    for line in sys.stdin:
        req = json.loads(line)
        res = run_forked(req, req.get("limit", 30))
        sys.stdout.write(json.dumps(res) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
