"""Confirm planted bugs: python3 tools/plant.py SPEC.py...  (spec: PROPERTY, EDITS [(file, old, new)], NEEDS, BREAKS,
DEMO).  Each is applied to a scratch copy of /repo; the stable tests must pass and the demonstration must pass on the
clean copy and fail on the patched one; then it is written to /verif/seeded/<spec name>."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ENV = dict(os.environ, HOME="/root", PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", LANG="C.UTF-8", MPLBACKEND="Agg",
           BEEP_ENV="dev", TQDM_OFF="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1",
           OMP_NUM_THREADS="1", AWS_EC2_METADATA_DISABLED="true")
DEMO_SH = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 BEEP_ENV=dev TQDM_OFF=1 MPLBACKEND=Agg\n' \
          'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def plant(spec):
    ns = {}
    exec(open(spec).read(), ns)
    bid = os.path.splitext(os.path.basename(spec))[0]
    base = tempfile.mkdtemp(prefix="plant_")
    try:
        clean, bad, demo = base + "/clean", base + "/repo", base + "/demo"
        for d in (clean, bad):
            subprocess.run(["cp", "-a", "/repo", d], check=True)
        os.mkdir(demo)
        open(demo + "/demo.sh", "w").write(DEMO_SH)
        open(demo + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
        for f, old, new in ns["EDITS"]:
            t = open(bad + "/" + f).read()
            if t.count(old) != 1:
                return bid, "EDIT matches %d times: %r" % (t.count(old), old[:60])
            open(bad + "/" + f, "w").write(t.replace(old, new))
        diff = run(["git", "diff"], bad).stdout
        r0 = run(["bash", demo + "/demo.sh"], clean, timeout=300)
        r1 = run(["bash", demo + "/demo.sh"], bad, timeout=300)
        if r0.returncode or not r1.returncode:
            return bid, "DEMO clean=%d patched=%d\n%s\n----\n%s" % (r0.returncode, r1.returncode, r0.stdout[-1500:], r1.stdout[-800:])
        ENVB = dict(ENV, PYTHONPATH=bad)
        subprocess.run("timeout 840 python -m pytest beep -q -p no:cacheprovider --timeout=300 "
                       "--continue-on-collection-errors -n 4 --dist loadfile -o junit_family=xunit2 --junitxml=%s/junit.xml"
                       % base, shell=True, cwd=bad, env=ENVB, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        run(["/usr/bin/python3", "/opt/vp/results.py", base + "/out.json", "junit:%s/junit.xml" % base], bad)
        missing = sorted(STABLE - set(json.load(open(base + "/out.json"))["passed"]))
        if missing:
            return bid, "TESTS fail: %s" % missing
        out = "/verif/seeded/" + bid
        os.makedirs(out, exist_ok=True)
        for n in ("demo.sh", "demo.py"):
            shutil.copy(demo + "/" + n, out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]),
                  open(out + "/meta.json", "w"), indent=1)
        return bid, "OK  (patched demo: %s)" % r1.stdout.strip()[-100:]
    finally:
        shutil.rmtree(base)


with ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "3"))) as ex:
    for bid, res in ex.map(plant, sys.argv[1:]):
        print(bid, res, flush=True)
