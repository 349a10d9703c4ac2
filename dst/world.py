"""Case format: rendering of file specs to bytes.

A *case* is a JSON document that completely determines one simulated run.
``files`` maps virtual paths to file specs; this module turns file specs into
file contents.  It is shared by the executor only; the reference model works on
the specs themselves.
"""

import importlib.util
import io
import marshal
import zipfile

CTX_FUNC = ("def", "adef")
CTX_COND = ("if", "elif", "else")
CTX_TRY = ("try", "except", "tryelse", "trystar", "exceptstar")
CTX_NONE = ("finally", "for", "while", "with", "class", "match")
ALL_CTX = CTX_FUNC + CTX_COND + CTX_TRY + CTX_NONE


def stmt_line(s):
    k = s["k"]
    if k == "import":
        return f"import {s['n']}" + (f" as {s['as']}" if s.get("as") else "")
    if k == "from":
        names = ", ".join(n + (f" as {a}" if a else "") for n, a in s["names"])
        return f"from {'.' * s.get('lvl', 0)}{s.get('m', '')} import {names}"
    if k == "set":
        return f"{s['n']} = 1"
    if k == "raise":
        return f"raise {s['e']}"
    if k == "expr":
        return s["t"]
    raise ValueError(k)


def render_ctx(lines, ctx, uid):
    """Wrap *lines* in the contexts of *ctx*, innermost last."""
    for depth in range(len(ctx) - 1, -1, -1):
        c = ctx[depth]
        ind = ["    " + x for x in lines]
        n = f"{uid}_{depth}"
        if c == "def":
            lines = [f"def _f{n}():"] + ind
        elif c == "adef":
            lines = [f"async def _f{n}():"] + ind
        elif c == "class":
            lines = [f"class _C{n}:"] + ind
        elif c == "if":
            lines = ["if len('x'):"] + ind
        elif c == "elif":
            lines = ["if len(''):", "    pass", "elif len('x'):"] + ind
        elif c == "else":
            lines = ["if len(''):", "    pass", "else:"] + ind
        elif c == "try":
            lines = ["try:"] + ind + ["except ImportError:", "    pass"]
        elif c == "except":
            lines = ["try:", "    raise ImportError", "except ImportError:"] + ind
        elif c == "trystar":
            lines = ["try:"] + ind + ["except* ImportError:", "    pass"]
        elif c == "exceptstar":
            lines = ["try:", "    raise ImportError", "except* ImportError:"] + ind
        elif c == "tryelse":
            lines = ["try:", "    pass", "except ImportError:", "    pass", "else:"] + ind
        elif c == "finally":
            lines = ["try:", "    pass", "finally:"] + ind
        elif c == "for":
            lines = [f"for _v{n} in (1,):"] + ind
        elif c == "while":
            lines = ["while True:"] + ind + ["    break"]
        elif c == "with":
            lines = ["with memoryview(b''):"] + ind
        elif c == "match":
            lines = ["match 1:", "    case 1:"] + ["    " + x for x in ind]
        else:
            raise ValueError(c)
    return lines


def render_body(body):
    out = []
    if any(s["k"] == "raise" for s in body):
        # The compiler keeps the first constant even when it is not used, and
        # that could be the code of a function after the raise statement.
        out.append('"doc"')
    for i, s in enumerate(body):
        if s["k"] == "bulk":
            # push constant and name indexes of everything after it above 255
            out.append("def _bulk():")
            out.append("    pass")
            for j in range(s["n"]):
                out.append(f"_bulk.a{j} = {1000 + j}")
            continue
        if s["k"] == "deep":
            # deeply nested blocks are limited by the compiler; a long
            # expression chain is not
            out.append("_deep = 0" + " + 1" * s["n"])
            continue
        if s["k"] == "swig":
            out.append("def swig_import_helper():")
            out.append("    # generated by SWIG")
            out.append("    return None")
            continue
        lines = [stmt_line(s)]
        if s["k"] == "set" and s.get("glob"):
            lines = [f"global {s['n']}"] + lines
        out += render_ctx(lines, s.get("ctx", ()), i)
    return "\n".join(out) + "\n"


PYC_HEADER = importlib.util.MAGIC_NUMBER + b"\0" * 12


def file_bytes(path, spec):
    k = spec["k"]
    if k == "py":
        bad = spec.get("bad")
        text = render_body(spec.get("body", ()))
        if bad == "syntax":
            text += "def broken(:\n"
        elif bad == "return":
            text += "return 5\n"
        elif bad == "deep":
            # too complex for the compiler
            text += "x = a" + ".b" * 20000 + "\n"
        data = text.encode("utf-8")
        if bad == "cookie":
            data = b"# -*- coding: no-such-codec -*-\n" + data
        elif bad == "utf8":
            data = b"\n\n\n_s = '\xff\xfe'\n" + data
        elif bad == "utf8early":
            data = b"_s = '\xff\xfe'\n" + data
        elif bad == "null":
            data = data + b"x = '\0'\n"
        elif bad == "latin":
            # not broken: declares its encoding
            text = "_s = '\xe9'\n" + text
            try:
                data = b"# -*- coding: latin-1 -*-\n" + text.encode("latin-1")
            except UnicodeEncodeError:
                data = b"# -*- coding: utf-8 -*-\n" + text.encode("utf-8")
        elif bad == "bom":
            data = b"\xef\xbb\xbf" + data
        return data
    if k == "pyc":
        bad = spec.get("bad")
        code = compile(render_body(spec.get("body", ())), path, "exec", dont_inherit=True)
        data = PYC_HEADER + marshal.dumps(code)
        if bad == "magic":
            data = b"\x03\xf3\r\n" + data[4:]
        elif bad == "trunc":
            data = data[: len(data) // 2]
        elif bad == "short":
            data = data[:7]
        elif bad == "empty":
            data = b""
        elif bad == "notcode":
            data = PYC_HEADER + marshal.dumps(42)
        return data
    if k == "ext":
        return b"\x7fELF simulated extension module"
    if k == "data":
        return b"data\n"
    if k == "raw":
        return bytes.fromhex(spec["hex"])
    if k == "text":
        return spec["text"].encode("utf-8", "surrogateescape")
    if k == "zip":
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, "w") as zf:
            seen = set()
            for rel in sorted(spec["members"]):
                if spec.get("dirs"):
                    parts = rel.split("/")[:-1]
                    for j in range(1, len(parts) + 1):
                        d = "/".join(parts[:j]) + "/"
                        if d not in seen:
                            seen.add(d)
                            zf.writestr(zipfile.ZipInfo(d), b"")
                zf.writestr(
                    zipfile.ZipInfo(rel),
                    file_bytes(path + "/" + rel, spec["members"][rel]),
                    compress_type=zipfile.ZIP_STORED if spec.get("stored") else zipfile.ZIP_DEFLATED,
                )
        data = buf.getvalue()
        if spec.get("bad") == "trunc":
            data = data[: len(data) // 2]
        return data
    raise ValueError(k)


def populate(disk, case):
    for d in case.get("dirs", ()):
        disk.mkdirs(d)
    for path in sorted(case["files"]):
        disk.put(path, file_bytes(path, case["files"][path]))
    if case.get("pycache"):
        put_caches(disk, case)


def put_caches(disk, case):
    """Valid bytecode caches for all well-formed source files, as an earlier
    run of the program would have left them."""
    for path in sorted(case["files"]):
        spec = case["files"][path]
        if spec["k"] != "py" or spec.get("bad"):
            continue
        node = disk.lookup(path)
        data = bytes(node.data)
        try:
            code = compile(data, path, "exec", dont_inherit=True)
        except SyntaxError:
            continue
        head = importlib.util.MAGIC_NUMBER + (0).to_bytes(4, "little")
        head += (int(node.mtime / 1e9) & 0xFFFFFFFF).to_bytes(4, "little")
        head += (len(data) & 0xFFFFFFFF).to_bytes(4, "little")
        base, _, fn = path.rpartition("/")
        if fn.startswith("."):
            continue
        disk.put(f"{base}/__pycache__/{fn[:-3]}.cpython-312.pyc", head + marshal.dumps(code))
