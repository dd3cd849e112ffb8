"""P13: splicing two Maccor files of one run."""
from .common import *
from .memfs import scratch, mem_patches, table, txt

BOUNDS = {"all": "files of 1-3 rows; all readings and counters symbolic"}
OUTSIDE = "longer files"
ASSUMPTIONS = ["tab-separated text renders and reads back numbers exactly", "counters are not negative"]
COUNT = ["Rec#", "Cyc#", "Test (Sec)", "Loop1", "Loop2", "Loop3", "Loop4"]
OTHER = ["Step", "Amps", "Volts", "State"]


def build(c, tag, n, which):
    D = {}
    for k, m in enumerate(COUNT):
        if m in which:
            D[m] = [c.int(f"{tag}{k}_{r}", 0, 5000) for r in range(n)]
        else:
            D[m] = [3] * n
    D["Step"] = [c.int(f"{tag}st{r}", 1, 40) for r in range(n)]
    D["Amps"] = [c.real(f"{tag}i{r}", -5, 5) for r in range(n)]
    D["Volts"] = [c.real(f"{tag}v{r}", 2, 4.5) for r in range(n)]
    D["State"] = ["C"] * n
    return D


def splice(c):
    from beep.utils.splice import MaccorSplice
    n1, n2 = c.params["n"]
    which = c.params["which"]
    A, B = build(c, "a", n1, which), build(c, "b", n2, which)
    names = list(A)
    with scratch(c) as d:
        p1 = d.write("r1.042", table(names, zip(*A.values()), "\t", "Today's Date one\n"))
        p2 = d.write("r2.042", table(names, zip(*B.values()), "\t", "Today's Date two\n"))
        out = d.path("out.042")
        s = MaccorSplice(p1, p2, out)
        s.run_splice()
        head, data = s.read_maccor_file(out)
        t1, t2 = d.read(p1), d.read(p2)
        c.require("inputs are left as they were", t1.startswith("Today's Date one") and t2.startswith("Today's Date two"))
    c.require("metadata line of the first file", head.strip() == "Today's Date one")
    c.require("same columns", list(data.columns) == names)
    c.require("all rows of both files", len(data) == n1 + n2)
    if len(data) != n1 + n2:
        return
    for m in names:
        got = list(data[m])
        if m in COUNT:
            sh = ite(B[m][0] < A[m][-1], A[m][-1], 0)
            want = A[m] + [x + sh for x in B[m]]
            c.require(f"{m} never goes back at the seam", got[n1] >= got[n1 - 1])
        else:
            want = A[m] + B[m]
        if m == "State":
            c.require(m, got == want)
        else:
            c.require(m, all_of([close(a, b) for a, b in zip(got, want)]))
    c.cover("shifted", any_of([B[m][0] < A[m][-1] for m in which]))
    c.cover("not shifted", all_of([B[m][0] >= A[m][-1] for m in which]))


def harnesses(tier):
    hs = []
    for n in ([(1, 1), (2, 2), (3, 2)] if tier == "quick" else [(1, 1), (2, 2), (3, 2), (2, 4)]):
        for k, w in enumerate((COUNT[:3], COUNT[3:])):
            hs.append(dict(name=f"splice{n[0]}{n[1]}_{k}", fn=splice, params=dict(n=n, which=w), patches=mem_patches))
    return hs
