"""append 'fixed:' lines: commit subject -> property mapping kept here; rewrites known_findings.txt"""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 "align charge_duration": ("P01", "charge_duration was shifted or lost when cycle numbers do not start at 0 or are not contiguous"),
 "summarize_cycles leaves no scratch": ("P01", "summarize_cycles left time_since_cycle_start in raw_data"),
 "CV segment starting": ("P05", "a charge that is constant-voltage from its first row gave a one-row CV segment"),
 "get_cycle_life when": ("P08", "IndexError when the last capacity ratio equals the threshold exactly"),
 "step charge state": ("P03", "a two-row charge step was labelled discharge; NaN charge capacity with rising discharge capacity labelled charge"),
 "interpolate_cycles on raw data": ("P03", "interpolate_cycles failed on raw data without a default index"),
 "an unstructured datapath": ("P09", "an unstructured datapath became structured after as_dict/from_dict"),
 "record exclude_cycles": ("P09", "structuring_parameters did not record exclude_cycles"),
}
exec(open(os.path.join(V, "tools", "fixed_more.py")).read())
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
out = ["# Known findings (JSON lines with property/status/what/replay) and repaired defects.", "# A fixed entry suppresses nothing."]
out += KNOWN
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    m = [v for k, v in MAP.items() if s[5:].startswith(k)]
    assert m, s
    out.append(f"fixed: property={m[0][0]} {h} {m[0][1]}")
open(os.path.join(V, "known_findings.txt"), "w").write("\n".join(out) + "\n")
