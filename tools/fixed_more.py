KNOWN = []
MAP.update({
    "dangling Maccor step": ("P10", "an unfinished last step that starts a new cycle was offset by the previous cycle's total"),
    "Novonix discharge energy": ("P11", "discharge energy of a cycle without charge steps was computed from the capacity column"),
    "Battery Archive step time": ("P11", "step_time of a last record that starts a new step was relative to the previous step"),
    "keep Arbin timestamps": ("P11", "date_time_iso of Arbin records was off by up to a minute (epoch seconds stored as float32)"),
})
MAP.update({"Maccor step times": ("P14", "rest times and time limits of 24 h or more were written modulo 24 h")})
MAP.update({
    "waveform step value": ("P14", "a waveform file in a directory with a dot in its path gave the wrong step value"),
    "driving procedures use": ("P14", "discharge_rest_time, diagnostic_start_cycle and diagnostic_interval were ignored"),
})
MAP.update({
    "Biologic settings with several": ("P15", "a settings file with two techniques had the first one's entries repeated as metadata when written"),
    "Maccor to Arbin loops whose": ("P16", "a Loop whose Do is step 1 or 2 jumped to an earlier loop's Do, or crashed"),
    "Maccor to Arbin keeps a single": ("P16", "a step with one end entry lost it (or crashed); a report overwrote no limit or an arbitrary one"),
    "Maccor to Arbin conversion leaves": ("P16", "converting rewrote the Loop ends of the caller's procedure; a second conversion crashed"),
    "Maccor to Arbin keeps the voltage": ("P16", "C-rate discharge with a voltage limit became CCCV without a voltage"),
    "Maccor to Arbin step times": ("P16", "step times of 24 h or more, or ::30, crashed the conversion"),
    "Maccor to Arbin refuses": ("P16", "a Chg Func step became a constant-current step without a value"),
})
MAP.update({
    "Maccor to Biologic applies all": ("P17", "of several global ranges and sequence mappers only the last one was applied"),
    "Maccor to Biologic filters a single": ("P17", "a single end entry beyond the global limits was kept"),
    "Maccor to Biologic times": ("P17", "times were truncated to whole units"),
    "Maccor to Biologic cycle rules": ("P17", "an advance-cycle step at the start of a loop was not counted"),
    "Maccor to Biologic writes": ("P17", "the sequences did not carry the global voltage range"),
    "Maccor to Biologic keeps the limit": ("P17", "a step with a limit and no end entry lost the limit of its first part"),
})
import json as _json
KNOWN += [_json.dumps(d) for d in (
    {"property": "P18", "status": "known", "replay": "known/P18_direction.json",
     "what": "a sequence with charge/discharge = Charge becomes a Dischrge step (call site BiologicMbToMaccorProcedure._create_step compares with ' Charge '); an existing test pins the output"},
    {"property": "P18", "status": "known", "replay": "known/P18_loop.json",
     "what": "the loop count is written under StepValue of the Loop Cnt entry instead of Value, with the Do step as target and not counting the first pass (BiologicMbToMaccorProcedure._create_loop_step); an existing test pins the output"})]
MAP.update({
    "Biologic to Maccor goto": ("P18", "a goto the start of a loop went past its Do step"),
    "Biologic to Maccor refuses": ("P18", "two loops of which the later starts inside the earlier were accepted"),
})
MAP.update({
    "discharging energy statistics": ("P20", "CycleSummaryStats took discharging energy from the charge steps"),
    "summary statistics are the requested": ("P20", "statistics requested in another order were mislabelled; a subset crashed"),
    "nominal capacity uses": ("P20", "DeltaQFastCharge overwrote n_nominal_cycles (also in the class default) with 40"),
    "delta Q compares": ("P20", "init_pred_cycle was ignored (always the 10th cycle)"),
    "delta Q features are missing": ("P20", "without delta Q data its features were 0 instead of missing"),
    "featurizing leaves": ("P20", "creating diagnostic features removed rows from the datapath's diagnostic data"),
    "threshold targets use the chosen": ("P21", "threshold targets were computed from all cycle types and metrics mixed"),
    "a threshold not crossed": ("P21", "an uncrossed threshold without extrapolation was not an error"),
    "threshold targets work": ("P21", "a single interpolation axis crashed, a third was not checked"),
    "a cell with an undetermined": ("P21", "a run with too few cycles for a criterion was included"),
})
MAP.update({"exclusion criteria take one": ("P21", "with a last fraction above 1 and too few cycles the exclusion criteria had two rows")})
MAP.update({"HPPC voltage differences": ("P22", "get_v_diff with a diagnostic other than the second looked for the second one's steps"),
            "HPPC diffusion features": ("P22", "parameters_path was ignored for the diffusion features")})
KNOWN += [_json.dumps({"property": "P22", "status": "known", "replay": "known/P22_ocv.json",
     "what": "the open-circuit voltage of a rest is its tenth-last voltage instead of the mean of the last ten (get_hppc_ocv_helper: iloc[-10].mean()); an existing test compares recorded values"})]
MAP.update({"data splitter keeps its imputation": ("P23", "impute_strategy, exclusion_columns and drop_split_threshold were not written, so the splitter read back had other data"),
            "samples without an exclusion criterion": ("P23", "a sample without a value in an exclusion column crashed the splitter instead of being left out"),
            "linear model drops features": ("P24", "features were dropped by the threshold for samples"),
            "linear model prediction leaves": ("P24", "predict renamed the columns of the matrix it was given, so predicting twice failed"),
            "linear model drops prediction": ("P24", "the threshold for dropping a sample counted columns that are not trained features"),
            "linear model lists only": ("P24", "every sample was listed as dropped when one was"),
            "linear model keeps the scaling": ("P24", "the scaling was refitted on all samples when read from a file, so predictions changed")})
MAP.update({
    "interrupted or misdirected commands": ("P25", "an interrupt or an output of the wrong kind ended the command with exit code 0 (also featurize, train, predict: P26, P27)"),
    "auto_load picks the reader": ("P25", "the reader was picked by a match anywhere in the path, directories included"),
    "structure refuses to write two": ("P25", "inputs of one name in different directories overwrote each other's output"),
    "s3 objects neither replace": ("P25", "objects from S3 overwrote local inputs and came in another order than given"),
    "featurize writes the auto-named": ("P26", "without a name the matrix went to the working directory, not the output directory"),
    "featurize writes no matrix": ("P26", "without any features the command crashed instead of writing its status"),
    "featurize keeps its intermediate": ("P26", "intermediate files of inputs with one name overwrote each other"),
    "a file which does not load": ("P26", "one unreadable file ended the featurization of all"),
    "train passes its nan": ("P27", "thresholds and l1 ratios given on the command line were not used or crashed"),
    "train searches the grid": ("P27", "--alpha-lower/--alpha-upper/--n-alphas were ignored or crashed"),
    "train can be told to keep": ("P27", "--drop-nan-training-targets could not be switched off"),
    "predict accepts a sample": ("P27", "a threshold of 0 was taken for none"),
})
MAP.update({
    "writing a Maccor waveform leaves": ("P29", "generate_maccor_waveform_file scaled the caller's waveform in place"),
    "a driving waveform does not change": ("P29", "insert_driving_parametersv1 changed the default settings of later waveforms"),
    "charging windows that do not follow": ("P29", "windows out of order were accepted and their rates added up where they overlap"),
})
KNOWN += [_json.dumps({"property": "P29", "status": "known", "replay": "known/P29_clash.json",
     "what": "two driving rows of equal profile, repetitions and power but other limits share the waveform's file name, so the later one's limits replace the earlier one's (insert_driving_parametersv1); an existing test pins the names"})]
MAP.update({
    "protocol reports the rows": ("P28", "the command never reported the rows it could not generate"),
    "protocol ends with a nonzero": ("P28", "--halt-on-error and interrupts were ignored"),
    "rows with one project and": ("P28", "two rows with the same project and number were both reported as generated, the later one overwriting the earlier"),
})
MAP.update({
    "load_eis crashed": ("P31", "MaccorDatapath.load_eis raised AttributeError on tqdm.tqdm for every input"),
    "Maccor EIS could not": ("P31", "MaccorEIS.as_dict raised AttributeError because its metadata is a dictionary"),
})
MAP.update({
    "synthetic fitting uses the dQdV": ("P32", "a synthetic cell fitted by dQdV was fitted by dVdQ"),
    "dVdQ over voltage was": ("P33", "dVdQ over voltage was the derivative of capacity by voltage"),
    "voltage curves of a cell": ("P33", "the voltage curves of a cell raised AttributeError for every datapath"),
    "degradation matching v2": ("P33", "halfcell_degradation_matching_v2 raised AttributeError for every input"),
    "blend_electrodes_robust_v2 failed": ("P33", "blend_electrodes_robust_v2 raised InvalidIndexError for every blend"),
})
KNOWN += [_json.dumps({"property": "P33", "status": "known", "replay": "known/P33_lock.json",
     "what": "when the electrodes overlap below the lower voltage limit, the negative electrode shrinks about the start of the overlap instead of where the cell meets the limit (IntracellAnalysis._impose_degradation: argmin without abs); a test pins the resulting values"})]
MAP.update({"list a folder with an empty page": ("P35", "a folder page without objects raised KeyError"),
            "write the whole file before a project transfer": ("P35", "the uploaded file lacked the rows still in the write buffer (small files were uploaded empty)")})
KNOWN += ['{"property": "P25", "status": "known", "replay": "known/P25_automatic.json", "what": "beep structure --automatic fails for every file (and says so in the status): the datapaths no longer have the autostructure method it calls (beep/cmd.py structure); what replaced it, DiagnosticConfig, has no automatic choice of parameters"}']
MAP.update({"beep inspect names": ("P36", "inspecting a featurizer file printed a placeholder instead of its path")})
