"""Command lines, run in process: with stand-in streams and files (symbolic)
or with real ones below a scratch directory (native)."""
from __future__ import annotations

import io
import json
import os
import shutil
import sys
import tempfile

from .texts import JsonText

ROOT = "/se-files/"


class Result:
    """What a command did.  kind: "exit" (code) or "traceback" (exc)."""

    def __init__(self, kind, code, exc, out, err, files):
        self.kind = kind
        self.code = code
        self.exc = exc
        self.out = out
        self.err = err
        self.files = files


# -- symbolic ----------------------------------------------------------------


class Dump:
    """The text json.dump writes for a value."""

    __slots__ = ("v", "kw")

    def __init__(self, v, kw):
        self.v = v
        self.kw = kw


class OutFile:
    def __init__(self, name="<stdout>"):
        self.name = name
        self.chunks = []
        self.encoding = "utf-8"
        self.closed = False

    @property
    def __class__(self):
        return io.TextIOWrapper

    def write(self, s):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        self.chunks.append(s)
        return 1

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        pass

    def isatty(self):
        return False

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class InFile:
    def __init__(self, content, mode, name):
        self.content = content
        self.mode = mode
        self.name = name
        self.done = False
        self.closed = False

    @property
    def __class__(self):
        return io.BufferedReader if "b" in self.mode else io.TextIOWrapper

    @property
    def buffer(self):
        return InFile(self.content, "rb", self.name)

    def isatty(self):
        return False

    def read(self, *a):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if self.done:
            return b"" if "b" in self.mode else ""
        self.done = True
        kind, v = self.content
        if kind == "json":
            return JsonText(v)
        if kind == "bytes":
            return v if "b" in self.mode else v.decode("utf-8")
        if type(v) is str and "b" in self.mode:
            return v.encode("utf-8")
        return v

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


FS = None  # the files of the running command


def sym_open(path, mode="r", *a, **k):
    if FS is None or type(path) is not str or not path.startswith(ROOT):
        return open(path, mode, *a, **k)
    if "w" in mode:
        f = FS[path] = OutFile(path)
        return f
    c = FS.get(path)
    if c is None:
        raise FileNotFoundError(2, "No such file or directory", path)
    return InFile(c, mode, path)


def dump(obj, fp, **kw):
    if isinstance(fp, OutFile) or type(fp) is OutFile:
        fp.write(Dump(obj, kw))
    else:
        json.dump(obj, fp, **kw)


def run_symbolic(main, argv, stdin, files):
    global FS
    saved = sys.argv, sys.stdin, sys.stdout, sys.stderr
    out, err = OutFile("<stdout>"), OutFile("<stderr>")
    FS = {ROOT + k: v for k, v in files.items()}
    kind, code, exc = "exit", 0, None
    try:
        sys.argv = ["json"] + [a.at(ROOT) if type(a) is Path else a for a in argv]
        sys.stdin = InFile(stdin, "r", "<stdin>")
        sys.stdout, sys.stderr = out, err
        try:
            main()
        except SystemExit as e:
            code = e.code
        except Exception as e:
            kind, code, exc = "traceback", 1, e
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = saved
        fs, FS = FS, None
    code = _code(code, err.write)
    return Result(kind, code, exc, out.chunks, err.chunks,
                  {k[len(ROOT):]: v.chunks for k, v in fs.items() if type(v) is OutFile})


def _code(code, write):
    if code is None:
        return 0
    if isinstance(code, int):
        return code
    write(code)
    write("\n")
    return 1


# -- native ------------------------------------------------------------------


class Path:
    """A file name on a command line."""

    def __init__(self, name):
        self.name = name

    def at(self, root):
        return os.path.join(root, self.name)


def _bytes(c):
    kind, v = c
    if kind == "json":
        return json.dumps(v).encode()
    if kind == "bytes":
        return v
    return v.encode("utf-8", "surrogatepass")


def run_native(main, argv, stdin, files):
    saved = sys.argv, sys.stdin, sys.stdout, sys.stderr
    limit = sys.getrecursionlimit()
    d = tempfile.mkdtemp(prefix="se-cli-")
    kind, code, exc = "exit", 0, None
    try:
        for k, v in files.items():
            with open(os.path.join(d, k), "wb") as f:
                f.write(_bytes(v))
        bout, berr = io.BytesIO(), io.BytesIO()
        sys.argv = ["json"] + [a.at(d) if type(a) is Path else a for a in argv]
        sys.stdin = io.TextIOWrapper(io.BytesIO(_bytes(stdin)), "utf-8")
        sys.stdout = io.TextIOWrapper(bout, "utf-8")
        sys.stderr = io.TextIOWrapper(berr, "utf-8", errors="backslashreplace")
        try:
            # what a new process has; checks run with a higher limit
            depth, f = 0, sys._getframe()
            while f is not None:
                depth, f = depth + 1, f.f_back
            sys.setrecursionlimit(depth + 1000)
            main()
        except SystemExit as e:
            code = e.code
        except Exception as e:
            kind, code, exc = "traceback", 1, e
            e.__traceback__ = None  # drops the frames, which hold open files
            e.__context__ = e.__cause__ = None
        code = _code(code, sys.stderr.write)
        sys.stdout.flush()
        sys.stderr.flush()
        sys.setrecursionlimit(limit)
        made = {}
        for k in os.listdir(d):
            with open(os.path.join(d, k), "rb") as f:
                b = f.read()
            if k not in files or b != _bytes(files[k]):
                made[k] = b.decode("utf-8")
        return Result(kind, code, exc, bout.getvalue().decode("utf-8"), berr.getvalue().decode("utf-8"), made)
    finally:
        sys.setrecursionlimit(limit)
        sys.argv, sys.stdin, sys.stdout, sys.stderr = saved
        shutil.rmtree(d, ignore_errors=True)
