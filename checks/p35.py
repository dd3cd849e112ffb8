"""P35: a project transfer uploads whole files under their new names."""
import os
import shutil
import tempfile
from .common import *
from symex import core, patches

BOUNDS = {"quick": "1-3 objects in 1-2 pages, bodies of 0, 1 or 900 rows with symbolic readings, any one upload failing, dry run or not, "
                   "2 projects names, 0-2 excluded strings",
          "thorough": "the same with up to 4 objects"}
OUTSIDE = "S3 itself (a stand-in hands out and receives the files); downloads that fail"
ASSUMPTIONS = ["upload_file sends what is in the file on disk when it is called"]


class Client:
    def __init__(self, pages, texts, fail):
        self.pages, self.texts, self.fail = pages, texts, fail
        self.up, self.down, self.listed = [], [], []

    def get_paginator(self, what):
        me = self

        class P:
            def paginate(self, **k):
                me.listed.append((what, k))
                return [dict(Contents=[dict(Key=x) for x in p]) if p else {} for p in me.pages]
        return P()

    def download_file(self, bucket, key, path):
        self.down.append((bucket, key))
        with open(path, "w", newline="") as f:
            f.write(self.texts[key])

    def upload_file(self, path, bucket, key):
        with open(path, newline="") as f:
            self.up.append((bucket, key, f.read()))
        if self.fail == key:
            from botocore.exceptions import ClientError
            raise ClientError({"Error": {"Code": "503", "Message": "slow down"}}, "PutObject")


def in_scratch(c, f):
    cwd = os.getcwd()
    d = tempfile.mkdtemp(prefix="verif_")
    import boto3
    orig = boto3.client
    try:
        os.chdir(d)
        r = f()
        c.require("nothing is left behind", os.listdir(d) == [])
        return r
    finally:
        boto3.client = orig
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def transfer(c):
    import boto3
    from beep.utils.project_transfer import ProjectTransfer
    k = c.params["n"]
    a, b = c.choice("projects", [("PredictionDiagnostics", "PreDiag"), ("PreDiag", "PredictionDiagnostics"), ("Pre.Diag", "P")]
                    if k < 3 else [("Pre.Diag", "P")])
    folder = c.choice("folder", ["raw/maccor", f"raw/{a} copies"]) if k == 1 else f"raw/{a} copies"
    again = c.choice("name", ["", "_" + a]) if k == 1 else ""           # the project twice in the name
    head = [f"Today's Date\t11/21/2019\tFilename:\t{a}_{i}{again}.{i:03d}\tCell:\tPreXDiag\tProcedure:\t{a}_{i}.000\n" for i in range(k)]
    texts, names = {}, []
    for i in range(k):
        size = c.choice(f"rows{i}", [0, 1, 900]) if i == 0 else c.choice(f"rows{i}", [1, 0])
        x = c.real(f"x{i}", -10, 10)
        body = "".join(f"{j}\t{a}\t{x}\n" if j in (0, size - 1) else f"{j}\t0.5\t1.25\n" for j in range(size))
        if size == 1 and c.bool(f"no newline at the end {i}"):
            body = body[:-1]
        key = f"{folder}/{a}_{i}{again}.{i:03d}"
        texts[key] = head[i] + body
        names.append(key)
    fail = c.choice("fails", [None] + names[:2])
    dry = c.choice("dry run", [None, True, False])
    cl = Client([], texts, fail)

    def go():
        boto3.client = lambda name, *x, **y: cl
        t = ProjectTransfer(a, b, "bucket", folder) if dry is None else ProjectTransfer(a, b, "bucket", folder, dry_run=dry)
        t.download_and_modify(list(names))
    in_scratch(c, go)
    to = "bucket" if dry is False else "beep-sync-test-stage"
    c.require("each object is fetched once", cl.down == [("bucket", n) for n in names])
    c.require("each object is sent once, in order", [u[:2] for u in cl.up] == [(to, folder + "/" + os.path.basename(n).replace(a, b)) for n in names])
    if len(cl.up) == len(names):
        for i, n in enumerate(names):
            first, rest = texts[n].split("\n", 1)
            want = first.replace(a, b) + "\n" + rest
            got = cl.up[i][2]
            c.require(f"the whole file is sent {i}", same_text(c, got, want))
    c.cover("sent")


def same_text(c, a, b):
    """equal texts; numbers in place of numbers"""
    A, B = a.split("\t"), b.split("\t")
    if len(A) != len(B):
        return False
    out = []
    for x, y in zip(A, B):
        if x != y:
            u, v = number(x), number(y)
            if u is None or v is None or x.count("\n") != y.count("\n"):
                return False
            out.append(close(u, v, 1e-12))
    return all_of(out) if out else True


def number(x):
    try:
        return core.CTX.untoken(x.strip()) if core.CTX.symbolic else float(x)
    except Exception:
        return None


def listing(c):
    import boto3
    from beep.utils.project_transfer import ProjectTransfer
    pool = ["raw/m/PreDiag_1.001", "raw/m/PreDiag_000052.002", "raw/m/Other_1.001", "raw/m/PreDiag_2Logs.003"]
    pages = [[], []]
    for i, n in enumerate(pool):
        w = c.choice(f"page of {i}", [0, 1, None])
        if w is not None:
            pages[w].append(n)
    pages = pages[:c.choice("pages", [2, 1])] if not pages[1] else pages
    ex = c.choice("excluded", [[], ["_000052", "Logs"], ["Logs"], ["PreDiag"]])
    prefix = c.choice("prefix", ["raw/m", "raw/m/"])
    cl = Client(pages, {}, None)

    def go():
        boto3.client = lambda name, *x, **y: cl
        return ProjectTransfer("PreDiag", "P", "bucket", prefix).get_list_files(ex)
    got = in_scratch(c, go)
    want = [n for p in pages for n in p if n.startswith("raw/m/PreDiag") and not any(s in n for s in ex)]
    c.require("the project's objects, without the excluded", got == want)
    c.require("one folder of one bucket is listed", [dict(k) for _, k in cl.listed] == [dict(Bucket="bucket", Delimiter="/", Prefix="raw/m/")])
    c.require("nothing is moved", cl.up == [] and cl.down == [])
    c.cover("listed", bool(want))


def harnesses(tier):
    ns = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)
    return [dict(name=f"transfer_{n}", fn=transfer, params=dict(n=n), weight=n) for n in ns] + [dict(name="listing", fn=listing, params={}, weight=4)]
