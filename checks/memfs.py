"""Files whose numbers are symbolic: an in-memory file system behind open(), pd.read_csv, DataFrame.to_csv and
os.path.exists in symbolic runs; a real scratch directory in concrete runs."""
import builtins
import contextlib
import csv
import io
import json
import os
import pathlib
import shutil
import tempfile

import pandas as pd

from symex import core

STORE = {}
ROOT = "/memfs"
_open = builtins.open


def _key(p):
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = p.decode()
    if not isinstance(p, str):
        return None
    if p.startswith(ROOT):
        return os.path.normpath(p)
    if not os.path.isabs(p):
        return ROOT + "/cwd/" + os.path.normpath(p)
    return None


def raw(key):
    v = STORE[key]
    return v if isinstance(v, bytes) else v.encode("utf-8")


def text_of(key, encoding=None):
    v = STORE[key]
    return v.decode(encoding or "utf-8") if isinstance(v, bytes) else v


class MemFile(io.StringIO):
    def __init__(self, key, mode, newline=None, encoding=None):
        self.key, self.mode = key, mode
        if "w" in mode:
            init = ""
            STORE[key] = ""
        else:
            if key not in STORE and "r" in mode:
                raise FileNotFoundError(key)
            init = text_of(key, encoding) if key in STORE else ""
        super().__init__(init, newline="" if newline == "" else "\n")
        if "a" in mode:
            self.seek(0, 2)

    def flush(self):
        if not self.closed and ("w" in self.mode or "a" in self.mode or "+" in self.mode):
            STORE[self.key] = self.getvalue()

    def close(self):
        if not self.closed:
            self.flush()
        super().close()

    def __exit__(self, *a):
        self.close()


class MemBytes(io.BytesIO):
    """binary output"""
    def __init__(self, key):
        self.key = key
        STORE[key] = ""
        super().__init__()

    def close(self):
        if not self.closed:
            STORE[self.key] = self.getvalue()
        super().close()

    def __exit__(self, *a):
        self.close()


def mem_open(path, mode="r", *a, **k):
    key = _key(path)
    if key is None:
        return _open(path, mode, *a, **k)
    if not os.path.isabs(os.fspath(path)) and "r" in mode and key not in STORE:
        return _open(path, mode, *a, **k)
    if "b" in mode:
        if "r" in mode and key in STORE:
            return io.BytesIO(raw(key))
        if "w" in mode:
            return MemBytes(key)
        raise core.Unsupported("binary file in a symbolic run")
    return MemFile(key, mode, k.get("newline"), k.get("encoding"))


def cell(x):
    """number of a text cell (symbolic when it holds a token)"""
    if core.CTX is not None and core.CTX.symbolic and isinstance(x, str):
        try:
            v = core.CTX.untoken(x)
        except core.Unsupported:
            return None
        if v is not None:
            return v
    return None


def has_token(text):
    return core.CTX is not None and core.CTX.symbolic and any(ch in core.CTX.tokens for ch in set(text))


def make_read_csv(orig):
    def read_csv(f, *a, **k):
        text = None
        key = _key(f)
        if key is not None and key in STORE:
            text = text_of(key, k.get("encoding"))
        elif hasattr(f, "read"):
            pos = f.tell() if hasattr(f, "tell") else None
            text = f.read()
            if isinstance(text, bytes):
                f.seek(pos)
                return orig(f, *a, **k)
        elif core.CTX is not None and core.CTX.symbolic and core.CTX.tokens and isinstance(f, (str, os.PathLike)) and "verif_" in str(f):
            with _open(f, encoding="utf-8", errors="surrogateescape", newline="") as g:       # a scratch file on disk
                t = g.read()
            if has_token(t):
                text = t
        if text is None:
            return orig(f, *a, **k)
        k.pop("encoding", None)
        if not has_token(text):
            return orig(io.StringIO(text), *a, **k)
        df = orig(io.StringIO(text), *a, **dict(k, dtype=None))

        def conv(s):
            if s.dtype != object:
                return s
            got = [cell(x) for x in s]
            if all(g is None for g in got):
                return s
            out = []
            for x, g in zip(s, got):
                if g is None and isinstance(x, str):
                    try:
                        g = float(x)
                    except ValueError:
                        return s                    # a text column with numbers inside
                out.append(x if g is None else g)
            return pd.Series(out, index=s.index, name=s.name, dtype=object)
        for i in range(df.shape[1]):
            s = df.iloc[:, i]
            n = conv(s)
            if n is not s:
                df.isetitem(i, n)
        if df.index.dtype == object:
            df.index = pd.Index(list(conv(pd.Series(list(df.index), dtype=object))), name=df.index.name)
        return df
    return read_csv


def make_to_csv(orig):
    def to_csv(self, path_or_buf=None, *a, **k):
        key = _key(path_or_buf) if path_or_buf is not None else None
        if key is None:
            return orig(self, path_or_buf, *a, **k)
        k.pop("encoding", None)
        text = orig(self, None, *a, **k)
        if "a" in str(k.get("mode", "w")):
            text = STORE.get(key, "") + text
        STORE[key] = text
        return None
    return to_csv


def make_exists(orig):
    def exists(p, *a, **k):
        key = _key(p)
        return (key is not None and key in STORE) or orig(p, *a, **k)
    return exists


def make_remove(orig):
    def remove(p, *a, **k):
        key = _key(p)
        if key is not None and key in STORE:
            del STORE[key]
            return None
        return orig(p, *a, **k)
    return remove


def make_makedirs(orig):
    def makedirs(p, *a, **k):
        key = _key(p)
        if key is not None and os.path.isabs(os.fspath(p)):
            return None
        return orig(p, *a, **k)
    return makedirs


def _enc(o):
    o = core.pyval(o)
    if core.symbolic(o):
        return str(o)
    if isinstance(o, dict):
        return {k: _enc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_enc(v) for v in o]
    return o


def _dec(o):
    if isinstance(o, str):
        v = cell(o)
        return o if v is None else v
    if isinstance(o, dict):
        return {k: _dec(v) for k, v in o.items()}
    if isinstance(o, list):
        return [_dec(v) for v in o]
    return o


def mem_patches():
    STORE.clear()
    dumps, loads, dump, load = json.dumps, json.loads, json.dump, json.load
    return [(json, "dumps", lambda o, *a, **k: dumps(_enc(o), *a, **k)),
            (json, "loads", lambda t, *a, **k: _dec(loads(t, *a, **k))),
            (json, "dump", lambda o, f, *a, **k: dump(_enc(o), f, *a, **k)),
            (json, "load", lambda f, *a, **k: _dec(load(f, *a, **k))),
(builtins, "open", mem_open), (pd, "read_csv", make_read_csv(pd.read_csv)),
            (pd.DataFrame, "to_csv", make_to_csv(pd.DataFrame.to_csv)),
            (pd.Series, "to_csv", make_to_csv(pd.Series.to_csv)),
            (os.path, "exists", make_exists(os.path.exists)),
            (os.path, "isfile", make_exists(os.path.isfile)),
            (io, "open", mem_open), (pathlib.Path, "exists", make_exists(pathlib.Path.exists)),
            (pathlib.Path, "is_file", make_exists(pathlib.Path.is_file)),
            (os, "remove", make_remove(os.remove)), (os, "unlink", make_remove(os.unlink)),
            (os, "makedirs", make_makedirs(os.makedirs))]


class Dir:
    def __init__(self, c):
        self.c = c
        self.tmp = tempfile.mkdtemp(prefix="verif_")
        self.root = ROOT + "/d" if c.symbolic else self.tmp

    def path(self, name):
        return self.root + "/" + name

    def write(self, name, text, encoding="utf-8"):
        p = self.path(name)
        if self.c.symbolic:
            try:
                STORE[p] = text if encoding == "utf-8" else text.encode(encoding)
            except UnicodeEncodeError:
                if not has_token(text):
                    raise
                STORE[p] = text                     # tokens outside the encoding: kept as text
        else:
            with _open(p, "w", encoding=encoding, newline="") as f:
                f.write(text)
        return p

    def read(self, p, encoding="utf-8"):
        if self.c.symbolic:
            return text_of(_key(p), encoding)
        with _open(p, encoding=encoding, newline="") as f:
            return f.read()


@contextlib.contextmanager
def scratch(c):
    if c.symbolic:
        STORE.clear()
    d = Dir(c)
    cwd = os.getcwd()
    try:
        os.chdir(d.tmp)
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d.tmp, ignore_errors=True)
        if c.symbolic:
            STORE.clear()


def txt(v):
    """text of a number"""
    v = core.pyval(v)
    if core.symbolic(v):
        return str(v)
    if isinstance(v, float):
        return repr(v)
    return str(v)


def table(cols, rows, sep=",", head=""):
    return head + sep.join(cols) + "\n" + "".join(sep.join(r if isinstance(r, str) else txt(r) for r in row) + "\n"
                                                  for row in rows)


def monty_patches():
    """MSON decoding of texts that hold symbolic numbers"""
    from monty.json import MontyDecoder, MontyEncoder
    orig = MontyDecoder.process_decoded
    default = MontyEncoder.default
    return [(MontyEncoder, "default", lambda self, o: str(o) if core.symbolic(o) else _enc(default(self, o))),
            (MontyDecoder, "process_decoded", lambda self, d: orig(self, _dec(d)))]


def to_json_patches():
    """DataFrame.to_json of a table of symbolic numbers (pandas' default layout)"""
    orig = pd.DataFrame.to_json

    def to_json(self, path_or_buf=None, *a, **k):
        from symex import patches
        if a or k or not patches.has_sym(self.values.ravel().tolist()):
            return orig(self, path_or_buf, *a, **k)
        text = json.dumps({str(col): {str(i): v for i, v in zip(self.index, self[col])} for col in self.columns})
        if path_or_buf is None:
            return text
        with open(path_or_buf, "w", encoding="utf-8") as f:
            f.write(text)
    return [(pd.DataFrame, "to_json", to_json)]
