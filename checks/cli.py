"""Shared by the command line checks: a scratch world of files, invocations of the real click commands."""
import contextlib
import gzip
import hashlib
import io
import json
import os
import shutil
import tempfile

import click

from .common import *
from . import memfs
from .memfs import cell, txt, mem_patches, monty_patches
from symex import core

FAULTS = [ValueError, KeyError, SystemExit, AssertionError]


class World:
    """one scratch directory with the working directory in it"""

    def __init__(self, c):
        self.c = c
        self.tmp = tempfile.mkdtemp(prefix="verif_")
        self.cwd = self.dir("cwd")
        self.status = self.path("status.json")

    def path(self, *p):
        return os.path.join(self.tmp, *p)

    def dir(self, *p):
        os.makedirs(self.path(*p), exist_ok=True)
        return self.path(*p)

    def write(self, name, text):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with memfs._open(p, "w") as f:
            f.write(text)
        return p

    def files(self):
        out = set()
        for d, _, fs in os.walk(self.tmp):
            out |= {os.path.join(d, f) for f in fs}
        return out

    def status_json(self):
        if not os.path.isfile(self.status):
            return None
        with memfs._open(self.status, encoding="utf-8") as f:
            return json.loads(f.read())


@contextlib.contextmanager
def world(c):
    w = World(c)
    cwd = os.getcwd()
    try:
        os.chdir(w.cwd)
        yield w
    finally:
        os.chdir(cwd)
        shutil.rmtree(w.tmp, ignore_errors=True)


@contextlib.contextmanager
def stubs(items):
    """environment stand-ins, in symbolic and concrete runs alike: (object, name, value)"""
    saved = []
    try:
        for o, n, v in items:
            saved.append((o, n, vars(o).get(n, stubs)))
            setattr(o, n, v)
        yield
    finally:
        for o, n, v in reversed(saved):
            if v is stubs:
                delattr(o, n)
            else:
                setattr(o, n, v)


def md5(p):
    with memfs._open(p, "rb") as f:
        return hashlib.md5(f.read()).hexdigest()


def run(w, args, status=True, halt=False, run_id=None, tags=()):
    """(exit code, exception): what the process would end with"""
    from beep.cmd import cli
    a = []
    if status:
        a += ["--output-status-json", w.status]
    if halt:
        a.append("--halt-on-error")
    if run_id is not None:
        a += ["--run-id", txt(run_id)]
    for t in tags:
        a += ["--tags", t]
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err):
            cli.main(a + list(args), prog_name="beep", standalone_mode=True)
    except SystemExit as e:
        code = e.code
        return (0 if code is None else code), (None if not code else e)
    except core.PathAbort:
        raise
    except BaseException as e:
        return 1, e
    return 0, None


def cli_patches():
    """numbers on the command line may be symbolic"""
    from click.types import FloatParamType, IntParamType

    def conv(orig):
        def convert(self, value, param, ctx):
            v = value if core.symbolic(value) else cell(value)
            return v if v is not None else orig(self, value, param, ctx)
        return convert
    return mem_patches() + monty_patches() + [(k, "convert", conv(k.convert)) for k in (FloatParamType, IntParamType)]


def tb_ok(tb, text):
    return isinstance(tb, list) and len(tb) > 0 and text in "".join(map(str, tb))
