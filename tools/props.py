"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "beep/structure/base.py"
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mech):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                      why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)))


UNPINNED = ("The repository's tests compare a few recorded files (and most structuring tests cannot run in this "
            "environment); the statement ranges over every run.")

P("P01", "The cycle summary reports each cycle's own values",
  "The regular summary has one row per regular cycle in increasing order (the last cycle only if it is complete: "
  "voltage passes the complete-cycle limits and discharge exceeds 97% of charge capacity); each row holds that "
  "cycle's maximum charge/discharge capacity and energy, temperature max/mean/min, last resistance, first "
  "timestamp, time-temperature integral, energy efficiency, running throughputs, time to reach the fast-charge "
  "level (missing if never reached) and longest pause over one hour. Energies above the error threshold are "
  "reported as missing. Summarising never alters the raw data.",
  ["inputs"], "all cycle numbers (not only contiguous from 0), all measured values, thresholds and rows per cycle",
  UNPINNED, [B], [("aggregation by cycle", B + ":summarize_cycles"), ("pause detection", B + ":get_max_paused_over_threshold")])
P("P02", "Interpolation is faithful to the measurements",
  "Interpolating a monotonic measurement table on a chosen axis gives exactly the requested number of rows on a "
  "uniform grid over the requested range, with every requested column equal to the straight line between the two "
  "neighbouring measurements. Below the measured range values are missing, above it they repeat the last "
  "measurement; the input table is unchanged and unrequested columns are absent.",
  ["inputs"], "all axis values, ranges, resolutions, rising and falling axes", UNPINNED, [B],
  [("merge, interpolate, filter", B + ":interpolate_df")])
P("P03", "Interpolated cycles use their own steps and the right label",
  "Every charge and discharge step with at least two rows of every regular, non-excluded cycle appears in the "
  "interpolated data exactly once, labelled with its own cycle number, step number and charge/discharge type, "
  "interpolated from its own rows only, on the requested axis and range (waveform steps along time). A step whose "
  "charge capacity grows more is a charge step, one whose discharge capacity grows more is a discharge step, "
  "undecidable steps follow the default. Diagnostic and excluded cycles are absent and the raw data is unchanged.",
  ["inputs", "configurations"], "all cycle numbers, step sequences, measured values, exclusions, diagnostic sets and axes",
  UNPINNED, [B], [("step classification", B + ":step_is_chg_state"), ("per-step interpolation", B + ":interpolate_step"),
                  ("cycle selection and axes", B + ":interpolate_cycles")])
P("P04", "Diagnostic cycles are summarised and interpolated visit by visit",
  "The diagnostic summary has exactly the configured diagnostic cycles that occur in the data, with their type, own "
  "maxima, temperatures, coulombic efficiency and pause; the regular summary has exactly the others. Diagnostic "
  "interpolation yields one group per visit of a step in a diagnostic cycle (repeated visits separate), with its "
  "own cycle number, type, step number, visit counter and step order, interpolated from that visit's rows only "
  "(along voltage, or along time when the voltage barely moves), and capacity slopes computed along that grid.",
  ["inputs", "configurations"], "all diagnostic configurations, step sequences and measurements", UNPINNED, [B],
  [("diagnostic summary", B + ":summarize_diagnostic"), ("diagnostic interpolation", B + ":interpolate_diagnostic_cycles")])
P("P05", "Constant-voltage metrics and pauses are those of the charge",
  "The constant-voltage segment of a charge runs from the sample just before the first interval with nearly "
  "constant voltage and changing current (within the tolerances) to the end of the charge; CV time, current and "
  "capacity are its duration, final current and capacity gain, and the summaries report them for each cycle's own "
  "charging data. The pause of a cycle is its longest gap between samples when it exceeds the threshold, else 0.",
  ["inputs"], "all sampled charges and tolerances", UNPINNED, [B],
  [("segment detection", B + ":get_CV_segment_from_charge"), ("pauses", B + ":get_max_paused_over_threshold")])
P("P06", "Validation accepts exactly the data the schema allows",
  "A table is valid exactly when every schema column satisfies its type, minimum, maximum, max-at-least, "
  "min-is-below and monotonic rules; an invalid verdict comes with a non-empty reason naming the column and a valid "
  "one with none. Column-name case is ignored, and validating never changes the table.",
  ["inputs", "configurations"], "all tables and all schema limits, including every shipped schema",
  "Tests validate a handful of files; the verdict must be right for every value and limit, including equality.",
  ["beep/structure/validate.py", "beep/validation_schemas"], [("rules", "beep/structure/validate.py:SimpleValidator.validate")])
P("P07", "A diagnostic configuration maps each cycle to one type",
  "Each cycle number has at most one diagnostic type (overlaps and empty configurations are refused), and the "
  "type lookup, the set of all diagnostic cycles and the HPPC/RPT/reset sets (by name, case-insensitive) agree with "
  "the definition and survive serialisation with their parameters. Building it from step numbers selects exactly "
  "the cycles that contain all steps of some pattern ('contains') or consist exactly of one ('exact').",
  ["inputs", "configurations"], "all type names, cycle sets, step sequences and patterns",
  "Tests use three or four hand-made configurations.", ["beep/structure/diagnostic.py"],
  [("constructor invariants", "beep/structure/diagnostic.py:DiagnosticConfig.__init__"),
   ("step matching", "beep/structure/diagnostic.py:DiagnosticConfig.from_step_numbers")])
P("P08", "Cycle life and capacity thresholds",
  "Cycle life is the first cycle whose discharge capacity is at or below the threshold fraction of the reference "
  "capacity (median of the first cycles when there are more than the cutoff, else 1.1) if the run ends at or below "
  "it, else one more than the number of cycles. Threshold tables report that life for each evenly spaced "
  "threshold, and capacity tables report the capacity at each evenly spaced cycle (0 beyond the end); all are "
  "refused before structuring.",
  ["inputs"], "all capacity fade curves, thresholds, cutoffs and grids", UNPINNED, [B],
  [("life", B + ":get_cycle_life"), ("tables", B + ":capacities_to_cycles, cycles_to_capacities")])
P("P09", "Structuring is reproducible and survives serialisation",
  "Structuring produces exactly the results of summarising and interpolating with the given parameters, records all "
  "of them, leaves the raw data unchanged, and can be undone and repeated with identical results. Saving a run as a "
  "dictionary or JSON file and loading it restores the structured tables, parameters, identity, paths, schema, "
  "diagnostic configuration and whether it was structured at all; without raw data the operations that need it "
  "are refused. A run has exactly the columns, absolute paths, metadata and schema it was given, and another "
  "identity when its state or origin differs.",
  ["inputs", "histories", "configurations"], "all structured runs, parameter choices and save/load routes", UNPINNED, [B],
  [("pipeline", B + ":structure"), ("serialisation", B + ":as_dict, from_dict, to_json_file, from_json_file")])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")).read())

TECH = "symbolic execution of the real Python code with z3 (bounded, all paths), counterexamples replayed"
NOTE = ("Bounded: within the sizes in the evidence file every value is covered by the solver's verdict on each "
        "feasible path. Floats are modelled as reals with a tolerance; numpy/pandas reductions, rounding and "
        "interpolation are replaced by equivalent terms, spot-checked by replaying path models on the unpatched code.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    na = {x["property"] for x in NOT_APPLICABLE}
    checks = [dict(property=p["id"], quick_cmd=f"bash run.sh {p['id']} quick",
                   thorough_cmd=f"bash run.sh {p['id']} thorough", evidence_file=f"evidence/{p['id']}.json",
                   technique=TECH, level="other", level_note=NOTE)
              for p in PROPS if p["id"] not in na]
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=NOT_APPLICABLE,
             notes="No hooks in /repo. See DESIGN.md.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)


main()
