FILES = "Tests read a few recorded files (most absent in this environment); the statement ranges over every file."
P("P10", "Maccor readings accumulate per cycle",
  "Maccor counters restart at every step. After ingestion, charge (discharge) capacity and energy of a record are its "
  "own reading in a charge (discharge) state - or the waveform reading where there is one - plus the final values of "
  "the finished steps of the same cycle; they start from zero in each new cycle, also when the last step is "
  "unfinished. A step ends where the end status is 128-255 and the step number changes. All other columns, the "
  "barcode, procedure and channel are those of the file, and timestamps are Pacific local time converted to UTC.",
  ["inputs"], "all state, status, step and cycle sequences and readings", FILES, ["beep/structure/maccor.py"],
  [("accumulation", "beep/structure/maccor.py:MaccorDatapath.quantity_sum"), ("file", "beep/structure/maccor.py:MaccorDatapath.from_file")])
P("P11", "Arbin, Neware, Battery Archive, Novonix and Indigo files are read faithfully",
  "Each record becomes one row with its own cycle, step, times and readings in A, V, Ah, Wh: Neware mA/mAh/mWh are "
  "divided by 1000, step times h:min:s become seconds and test time accumulates; Battery Archive steps are rest, "
  "charge, discharge by current and step time restarts at each change; Novonix readings go to charge or discharge by "
  "step type, discharge counting down from the cycle's charge maximum (or own maximum of that same quantity if it has "
  "no charge); Indigo half-cycles alternate charge (odd) and discharge (even). Timestamps are right to the second in UTC.",
  ["inputs"], "all readings and step sequences", FILES,
  ["beep/structure/arbin.py", "beep/structure/neware.py", "beep/structure/battery_archive.py", "beep/structure/novonix.py",
   "beep/structure/indigo.py", "beep/conversion_schemas"],
  [("readers", "beep/structure/*.py:from_file"), ("column maps", "beep/conversion_schemas/*.yaml")])
P("P12", "Biologic cycle numbers follow the transition rules",
  "With a rules file, a sample's cycle number is 1 plus the start advance plus one advance per loop change (the "
  "technique-loop count) or, otherwise, per listed sequence transition before it; without one it is the recorded cycle "
  "number. Readings are converted from mA/mAh to A/Ah, test time counts from the first sample, and rules survive "
  "serialisation unchanged.",
  ["inputs", "configurations"], "all sequence/loop histories and rules", FILES, ["beep/structure/biologic.py"],
  [("cycle numbering", "beep/structure/biologic.py:get_cycle_index"),
   ("rules format", "beep/structure/biologic.py:CycleTransitionRulesSerializer")])
P("P13", "Splicing two Maccor files continues the counters",
  "The spliced file has the first file's metadata line, all rows of the first file unchanged, then all rows of the "
  "second; record, cycle, time and loop counters of the second are raised by the first file's last value when they "
  "start below it (so they never go back at the seam), every other column is unchanged, and the inputs are not modified.",
  ["inputs"], "all counters and readings", "Tests splice one pair of files.", ["beep/utils/splice.py"],
  [("counter shift", "beep/utils/splice.py:MaccorSplice.column_increment")])
P("P14", "Maccor procedures carry the requested parameters",
  "A generated Maccor procedure is its template with exactly the requested parameters put in: currents are C-rate times "
  "nominal capacity (3 decimals, 4 in reset cycles), voltages, cut-offs, rests, step times (h:m:s, also beyond a day), cycle "
  "counts, waveform steps, initial rest and every diagnostic (reset, HPPC, RPT) each at its own steps, in both regular "
  "loops; every other entry and the parameters stay as they were. Charge cut-offs not above discharge cut-offs are "
  "refused. Writing and reading a procedure loses nothing.",
  ["inputs", "configurations"], "all parameter values on the shipped templates",
  "Tests compare a handful of parameter rows.", ["beep/protocol/maccor.py", "beep/protocol/procedure_templates"],
  [("generation", "beep/protocol/maccor.py:Procedure")])
P("P15", "Biologic settings and Arbin schedules carry the requested parameters",
  "A formation settings file is its template with exactly the requested currents (C-rate times nominal capacity), "
  "voltages, hold and rest times and repetitions (count minus one) at their steps; a fast-charge schedule is its template "
  "with the two currents and the capacity limit at the labelled steps; everything else is the template's. Labelled "
  "steps and limits are set on the first, or on all, steps of that label and nowhere else. Reading a settings file "
  "puts each entry under its technique, step and name, and writing then reading loses nothing.",
  ["inputs", "configurations"], "all parameter values; all settings files and labelled schedules within the bounds",
  "Tests compare a few recorded files.", ["beep/protocol/biologic.py", "beep/protocol/arbin.py"],
  [("formation", "beep/protocol/biologic.py:Settings.formation_protocol_bcs"), ("file format", "beep/protocol/biologic.py:Settings.mps_text_to_schedule_dict"),
   ("fast charge", "beep/protocol/arbin.py:Schedule.from_fast_charge")])
P("P16", "A Maccor procedure converted to an Arbin schedule does the same steps",
  "Each Maccor step becomes one Arbin step with the same control (current, C-rate, voltage or CCCV, discharge currents "
  "negative), every end condition as a stopping limit with the same quantity, comparison, value and target step, and every "
  "report as a logging limit, in order and all counted; times are in seconds whatever their form or length. Executing the schedule visits "
  "the steps in the order the procedure does for every loop nesting, position and count. The rest of the schedule is the "
  "shell's, safety limits are those given, unsupported steps are refused, and the procedure is not modified.",
  ["inputs", "configurations"], "all values, times, targets and loop counts within the bounds",
  "Tests convert three templates and look at a handful of entries.", ["beep/protocol/maccor_to_arbin.py"],
  [("step", "beep/protocol/maccor_to_arbin.py:ProcedureToSchedule.compile_to_arbin"),
   ("loops", "beep/protocol/maccor_to_arbin.py:ProcedureToSchedule.create_metadata")])
P("P17", "A Maccor procedure converted to Biologic does the same steps and cycles",
  "Each Maccor step becomes one Biologic sequence (two for a step with a limit: up to the limit, then holding it) with the same "
  "control, direction, value, end conditions with their targets, and reports, in order, counted, and with units that preserve "
  "the value. End conditions at or beyond the global limits are dropped; the ranges and every step and sequence "
  "mapper apply to all sequences. The techniques visit the measurements in the procedure's order for every loop "
  "nesting and count, and the cycle rules give the recorded data the procedure's cycle numbers. What cannot be "
  "expressed is refused.",
  ["inputs", "configurations"], "all values, time forms, targets, loop counts and advance-cycle placements within the bounds",
  "Tests convert a few procedures and compare recorded text.", ["beep/protocol/maccor_to_biologic_mb.py"],
  [("conversion", "beep/protocol/maccor_to_biologic_mb.py:MaccorToBiologicMb.convert"),
   ("cycle numbers", "beep/protocol/maccor_to_biologic_mb.py:add_cycle_nums_to_csvs")])
P("P18", "A Biologic protocol converted to Maccor does the same steps",
  "Each Modulo Bat sequence becomes one Maccor step with the same control mode, value (in A, V, W or Ohm whatever the unit), every limit as an end "
  "entry with its quantity, comparison, value and target, and every record as a report, in order. A loop becomes Do ... "
  "AdvCycle, Loop; an empty loop adds nothing and a loop back to it becomes AdvCycle; jumps go to the step of their "
  "sequence, to the Do of a loop entered from outside, to the next step or the end. Overlapping loops, jumps into a loop or back "
  "before a finished one, and quantities Maccor cannot express are refused.",
  ["inputs", "configurations"], "all values, units, targets and loop layouts within the bounds",
  "Tests convert one small protocol and compare recorded text.", ["beep/protocol/biologic_mb_to_maccor.py"],
  [("step", "beep/protocol/biologic_mb_to_maccor.py:BiologicMbToMaccorProcedure._create_step"),
   ("layout", "beep/protocol/biologic_mb_to_maccor.py:BiologicMbToMaccorProcedure._create_steps")])
P("P19", "The feature matrix holds every feature at its own file and column",
  "A feature matrix has one row per file and one column per feature, featurizer class and hyperparameter setting, and each "
  "cell is that featurizer's value for that file, or missing. Joining the same operation on the same file twice, vectors "
  "without features, without a structured file or not of one row is refused, and the featurizers are not modified. Vectors and matrices "
  "survive writing and reading with values, hyperparameters, metadata and paths; incomplete hyperparameters and "
  "unstructured datapaths are refused.",
  ["inputs", "configurations"], "all feature values, files, classes and hyperparameter settings within the bounds",
  "Tests join a few recorded vectors and check the shape.", ["beep/features/base.py"],
  [("matrix", "beep/features/base.py:BEEPFeatureMatrix.__init__"), ("vector", "beep/features/base.py:BEEPFeaturizer")])
P("P20", "Early-life features are the statistics of exactly the cycles they name",
  "Each summary or delta Q statistic is that statistic of the element-wise difference of the two compared cycles, "
  "diagnostics or curves: the requested quantities, statistics and test-time and cycle filters, in the requested order and "
  "names, regardless of row order; trajectory and fast-charge features come from the cycles they name. Missing data give "
  "missing features, never zeros; datapaths without the needed data are refused; the datapath and the class defaults "
  "stay as they were.",
  ["inputs", "configurations"], "all values, statistics, positions and run layouts within the bounds",
  "Tests compare recorded numbers of a few files.", ["beep/features/core.py", "beep/features/featurizer_helpers.py"],
  [("cycle statistics", "beep/features/core.py:CycleSummaryStats"), ("diagnostic statistics", "beep/features/core.py:DiagnosticSummaryStats"),
   ("delta Q", "beep/features/core.py:DeltaQFastCharge"), ("trajectory", "beep/features/core.py:TrajectoryFastCharge")])
P("P21", "Degradation targets are where the remaining fraction crosses the threshold",
  "The fraction remaining of a diagnostic is its capacity or energy over the first diagnostic's of that type, with the throughput, "
  "normalised throughput and time of the cycles before it. The target is the axis value where the piecewise linear "
  "fraction of the chosen type and metric falls to the threshold, for every requested axis; without extrapolation a threshold "
  "not reached is an error; diagnostics from an abrupt change on are ignored. Exclusion criteria say, per run, whether each "
  "criterion holds, and a run with an undetermined criterion is not included.",
  ["inputs", "configurations"], "all capacities, energies, fractions and layouts within the bounds",
  "Tests compare recorded numbers of a few files.", ["beep/features/featurizer_helpers.py", "beep/features/core.py"],
  [("fractions", "beep/features/featurizer_helpers.py:get_fractional_quantity_remaining_nx"), ("targets", "beep/features/core.py:DiagnosticProperties"),
   ("exclusion", "beep/features/core.py:ExclusionCriteria")])
P("P22", "HPPC features are computed from the pulses, rests and windows they name",
  "Diagnostic steps are recognised by current and duration, and steps that cannot be told apart are refused. Resistances are the "
  "voltage change over the current change from the end of a rest to 0 s, 3 s and the end of its pulse, open-circuit "
  "voltage, window voltage and diffusion features the named statistics or slopes between the first and the chosen diagnostic, "
  "each in the column of its window and kind, or missing where the window was not reached; row order, final diagnostics and "
  "other cycle types do not matter and the datapath is unchanged.",
  ["inputs", "configurations"], "all voltages, currents and durations within the bounds",
  "Tests compare recorded numbers of a few files.", ["beep/features/featurizer_helpers.py", "beep/features/core.py"],
  [("steps", "beep/features/featurizer_helpers.py:get_step_index"), ("resistance", "beep/features/featurizer_helpers.py:res_calc"),
   ("voltage differences", "beep/features/featurizer_helpers.py:get_v_diff"), ("diffusion", "beep/features/featurizer_helpers.py:get_diffusion_coeff")])
P("P23", "The data splitter keeps, imputes, excludes and splits what it is asked to",
  "Features and samples stay in when the given fraction of their values is present (infinite counts as missing); remaining gaps "
  "get the column's median or mean or stay; samples failing or lacking an exclusion criterion, and groups with too few included "
  "samples, are out; samples with a missing target are dropped or refused as asked, as is a set of under two samples. Every "
  "kept sample is tested in exactly one of the balanced folds and trained on in the others, no group is on both sides, "
  "features and targets stay together, and a splitter read back from its file has the same data and makes the same folds.",
  ["inputs", "configurations"], "all values, thresholds and patterns of missing values, exclusions and groups within the bounds",
  "Tests split one recorded matrix.", ["beep/prediction/beep_data_splitter.py"],
  [("cleaning", "beep/prediction/beep_data_splitter.py:BEEPDataSplitter.__init__"), ("folds", "beep/prediction/beep_data_splitter.py:BEEPDataSplitter.split"),
   ("file", "beep/prediction/beep_data_splitter.py:BEEPDataSplitter.as_dict")])
P("P24", "A linear model trains on what it keeps and predicts by what it learnt",
  "A linear experiment keeps features and samples by their own thresholds (infinite counts as missing), imputes the rest, refuses "
  "what leaves under two samples, and searches and fits on the standardised kept samples. A prediction applies the trained "
  "coefficients to the trained features by name, in any column order, with extra columns ignored and the training scaling, per "
  "sample name; samples with too few trained features are dropped and exactly they are listed; a missing trained feature is "
  "refused. Matrices passed in stay as they were, repeated predictions agree, and an experiment read from its file predicts the same.",
  ["inputs", "configurations", "histories"], "all training and prediction values, thresholds, coefficients and patterns of missing values within the bounds",
  "Tests train on four recorded samples and check shapes.", ["beep/model.py"],
  [("cleaning", "beep/model.py:BEEPLinearModelExperiment.__init__"), ("training", "beep/model.py:BEEPLinearModelExperiment.train"),
   ("prediction", "beep/model.py:BEEPLinearModelExperiment.predict"), ("file", "beep/model.py:BEEPLinearModelExperiment.from_dict")])
P("P25", "beep structure does to every file what it reports",
  "`beep structure` reads each file given once with the reader its name calls for, passes on every option, and structures, "
  "validates or autostructures it as asked; results go to the named, suffixed or automatic outputs, never two to one. A file that fails "
  "at loading, validating, structuring or writing is reported as failed at that stage with its error, leaves the other files alone "
  "and, with --halt-on-error, ends the command nonzero, as an interrupt does. The status file states for each file what happened, in "
  "input order. S3 files are fetched under their keys, never over a local input.",
  ["inputs", "configurations", "fault_sequences"], "all option values, names, orders and schedules of failures within the bounds",
  "The tests of the command line are skipped.", ["beep/cmd.py", "beep/structure/cli.py"],
  [("command", "beep/cmd.py:structure"), ("readers", "beep/structure/cli.py:auto_load"), ("S3", "beep/cmd.py:structure")])
P("P26", "beep featurize makes the matrix of the features it reports",
  "`beep featurize` loads every structured file, makes the named featurizers (with their hyperparameters, the sets and external "
  "ones included) for each valid file, and writes one matrix of all features made, the intermediate features if asked, each in "
  "its own file, and a status file saying for every file and featurizer whether it was made, invalid or failed and why. A file or "
  "featurizer that fails does not stop the others unless --halt-on-error is given; with nothing to write no matrix is "
  "written; an interrupt ends the command nonzero; unknown featurizers are refused before anything is written.",
  ["inputs", "configurations", "fault_sequences"], "all feature values, sets of featurizers and schedules of failures within the bounds",
  "The tests of the command line are skipped.", ["beep/cmd.py", "beep/features/core.py"],
  [("command", "beep/cmd.py:featurize"), ("matrix", "beep/features/base.py:BEEPFeatureMatrix")])
P("P27", "beep train and predict do what their options say",
  "`beep train` passes the features, targets, model and every option given (thresholds, imputation, drops, alphas, l1 ratios, "
  "fractions, folds, iterations, tolerance) on to the experiment and splits, with the documented default where it is not given; "
  "the model file holds that experiment and the status file its errors. `beep predict` loads the model, predicts the samples of the "
  "matrix with the threshold given (zero included) or the model's own, and writes the prediction of each target and kept sample. A "
  "failed load, training or prediction is reported in the status, with --halt-on-error ends the command nonzero, as an interrupt "
  "always does, and never leaves a model or prediction that was not made.",
  ["inputs", "configurations", "fault_sequences"], "all option values and schedules of failures within the bounds",
  "The tests of the command line are skipped.", ["beep/cmd.py", "beep/model.py"],
  [("train", "beep/cmd.py:train"), ("predict", "beep/cmd.py:predict")])
P("P29", "Maccor waveform files hold the waveform they are made from",
  "A Maccor waveform file, expanded by its durations, is the power or current given, sample by sample, scaled to the peak asked for, "
  "charging where positive and otherwise discharging, with the limits, ends and report asked for that direction. Velocity "
  "becomes power by the vehicle model in the given unit; driving rows repeat the profile at the power and limits asked for. A "
  "charging row applies each C-rate in its window, the smooth one within the C-rate limits; rates over the limit and "
  "windows out of order are refused. Inputs, default settings and later waveforms are unaffected.",
  ["inputs", "configurations", "histories"], "all waveforms, velocities, rates, windows and settings within the bounds",
  "Tests compare a few recorded waveforms.", ["beep/protocol/maccor.py", "beep/utils/waveform.py"],
  [("file", "beep/protocol/maccor.py:generate_maccor_waveform_file"), ("driving", "beep/protocol/maccor.py:insert_driving_parametersv1"),
   ("charging", "beep/protocol/maccor.py:insert_charging_parametersv1"), ("velocity", "beep/utils/waveform.py:convert_velocity_to_power_waveform"),
   ("rates", "beep/utils/waveform.py:RapidChargeWave")])
P("P28", "Every row of a protocol csv becomes its protocol or a reported failure",
  "Each row of a protocol csv whose template is supported becomes one file, named by project and six-digit number, that is its "
  "template with that row's parameters and its named diagnostic set - EXP, regular cycling, driving or charging with its own "
  "waveform, or Biologic formation - with the initial rest of its row number. Unsupported rows, and rows that would overwrite an "
  "earlier one's file, are listed as failures in order and do not disturb the others; the names file, result and counts agree. "
  "`beep protocol` reports both in its status, and ends nonzero when interrupted or told to halt on a failure.",
  ["inputs", "configurations", "fault_sequences"], "all parameter values, orders and combinations of rows within the bounds",
  "Tests generate a few recorded csv files and mostly count them.", ["beep/protocol/generate_protocol.py", "beep/cmd.py"],
  [("rows", "beep/protocol/generate_protocol.py:generate_protocol_files_from_csv"), ("command", "beep/cmd.py:protocol")])
P("P30", "A run's parameters come from its project's table",
  "A run's parameters are the row(s) of its project's parameter table with its sequence number, next to the whole table, or none "
  "when project or number is not listed; two tables for a project are refused. The structuring settings derived from them are the run's own nominal "
  "capacity, the project's widest voltage range, and for HPPC+RPT runs a diagnostic at every cycle with the steps of the first "
  "or second diagnostic's reset cycle, and at a final one recognised by its pattern of step counts; what the table lacks stays "
  "as given. Charging protocol features are the requested quantities of the run's row; raw image features hold "
  "each named diagnostic, type and step's readings, one column each; runs without diagnostics are refused. Nothing passed in is modified.",
  ["inputs", "configurations"], "all tables, sequence numbers and step patterns within the bounds",
  "Tests look up a few recorded runs in the shipped tables.",
  ["beep/deprecated/parameters_lookup.py", "beep/features/core.py"],
  [("lookup", "beep/deprecated/parameters_lookup.py:get_protocol_parameters"),
   ("structuring settings", "beep/deprecated/parameters_lookup.py:determine_structuring_parameters"),
   ("features", "beep/features/core.py:ChargingProtocol")])
P("P31", "Impedance spectra are read completely and belong to their run",
  "A Maccor impedance file becomes one row per frequency with every column's own readings, missing where the file has none, "
  "next to its sweep, method, file, start time and settings. Loading a run's spectra without naming them takes exactly the "
  "files next to it that share its name and extension, loading named files exactly those in that order, one spectrum per "
  "file, and leaves the run's data and other paths alone. A spectrum made again from its dictionary has the same class, "
  "readings and metadata.",
  ["inputs"], "all readings, directories and start times within the bounds",
  "Tests read one recorded spectrum without looking at it and never load a run's spectra.",
  ["beep/structure/maccor.py", "beep/structure/base_eis.py"],
  [("file", "beep/structure/maccor.py:MaccorDatapath.MaccorEIS.from_file"), ("run", "beep/structure/maccor.py:MaccorDatapath.load_eis"),
   ("serialisation", "beep/structure/base_eis.py:EIS.as_dict")])
P("P32", "Electrode analysis follows from the scaled, shifted electrodes",
  "The emulated cell of a set of parameters is the positive minus the (blended) negative electrode, each stretched to its capacity, the "
  "negative shifted by the lithium loss, kept within 2.7-4.2 V and zeroed at its lowest voltage together with the electrodes, on "
  "the measured charge's capacity range or its own. Derivatives and errors are those of these curves, of the chosen kind, with 100 "
  "for electrodes that make no cell; the electrode voltages and states of charge are those where the cell is nearest to each "
  "voltage, and each capacity is the range it spans. Features hold one row per diagnostic of the type with capacity (or its first "
  "two side by side), each value under its name. Curves passed in stay as they were.",
  ["inputs", "configurations"], "all voltages or capacities of the curves within the bounds, the listed parameters",
  "None of the electrode analysis tests pass here; they compare recorded optima.",
  ["beep/features/intracell_analysis_v2.py", "beep/features/intracell_losses_v2.py"],
  [("emulated cell", "beep/features/intracell_analysis_v2.py:IntracellAnalysisV2.halfcell_degradation_matching_ah"),
   ("values", "beep/features/intracell_analysis_v2.py:get_electrode_info_ah"),
   ("features", "beep/features/intracell_losses_v2.py:IntracellFeaturesV2")])
P("P33", "Degradation modes scale and shift the matched electrodes",
  "Matching scales and shifts the positive electrode against the negative one, and expresses both in the state of charge of the cell "
  "they make between its voltage limits. Degradation shrinks the positive electrode about where the cell meets its upper limit and the "
  "negative one about where it meets its lower limit, shifts the negative one by the lithium loss, and zeroes the cell with its "
  "electrodes. The real cell's profiles hold its charge within the limits as a share of the first diagnostic's capacity. Derivatives "
  "are dQ/dV or dV/dQ as named, errors those of these curves plus a weight per missing point, and the electrode voltages, states of "
  "charge and masses those where the cell is nearest its limits. Features hold one row per diagnostic of the type above the capacity "
  "threshold (or its first two side by side), each value under its name. Curves passed in stay as they were.",
  ["inputs", "configurations"], "all voltages or states of charge of the curves within the bounds, the listed parameters",
  "None of these tests pass here; they compare recorded optima.",
  ["beep/features/intracell_analysis.py", "beep/features/intracell_losses.py"],
  [("matching", "beep/features/intracell_analysis.py:IntracellAnalysis.halfcell_initial_matching_v2"),
   ("degradation", "beep/features/intracell_analysis.py:IntracellAnalysis._impose_degradation"),
   ("values", "beep/features/intracell_analysis.py:get_halfcell_voltages"),
   ("features", "beep/features/intracell_losses.py:IntracellFeatures")])
P("P34", "Principal components decompose and flag exactly the data given",
  "The table to decompose holds one row per file and chosen cycle, in the order of the files and cycles, with the discharge values of the "
  "quantity along the pivot column. New data are scaled and projected as the training data were and come back by the inverse. A sample is an "
  "outlier of the decomposition exactly when one of its whitened components lies outside the training quantiles, and of the reconstruction "
  "exactly when its mean absolute error exceeds the threshold times the worst training error; distances are to the training median. The "
  "minimum number of components is the smallest that explains more than the threshold. Data given are not modified.",
  ["inputs"], "all new samples, thresholds, explained variances and capacities within the bounds",
  "No test of this module runs here; the statement ranges over all samples.", ["beep/features/principal_components.py"],
  [("decomposition", "beep/features/principal_components.py:PrincipalComponents"), ("table", "beep/features/principal_components.py:pivot_data")])
P("P35", "A project transfer sends whole files under their new names",
  "Listing for a transfer names exactly the objects of the input project in the folder, page by page, without those holding an excluded "
  "string. A transfer sends every listed object once and in order, under its name with the output project in place of the input project, to the "
  "staging bucket or, when it is no dry run, to its own; the text is the whole original with the project renamed in the first line only. An upload "
  "that is refused does not stop the others, and nothing is left on the local disk.",
  ["inputs", "fault_sequences"], "all readings, file sizes, pages and refused uploads within the bounds",
  "No test covers this module.", ["beep/utils/project_transfer.py"],
  [("transfer", "beep/utils/project_transfer.py:ProjectTransfer.download_and_modify"), ("listing", "beep/utils/project_transfer.py:ProjectTransfer.get_list_files")])
P("P36", "beep inspect shows what is in the file, and changes nothing",
  "Inspecting a file names it by its kind and path and shows what it holds: for a run, structured or raw, its metadata, identity, paths, "
  "validation schema, structuring parameters and each of its tables under its own heading (with 'No object.' where there is none); for features "
  "their table, hyperparameters, paths and the run they belong to; for a feature matrix each of its featurizers in order and the matrix; for a model its "
  "targets, settings, coefficients, intercepts and matrices; for any other object of beep's its contents. What is no file of beep's and no "
  "readable raw file, or is not there, is refused. No file changes.",
  ["inputs", "configurations"], "all table values, parameters and coefficients within the bounds", "The tests only look at the exit code of a few files.",
  ["beep/cmd.py"], [("inspecting", "beep/cmd.py:inspect")])
P("P37", "Fits return the best parameters there are",
  "The electrode matching returns the degradation modes with the smallest distance to the measured curve within its limits, a trained linear "
  "model's coefficients and regularisation are the minimum of its objective, and principal components are the directions of largest variance.",
  ["inputs"], "all measured curves, training tables and samples",
  "Tests compare a few fits with recorded numbers.", ["beep/features/intracell_analysis.py", "beep/model.py", "beep/features/principal_components.py"],
  [("electrode matching", "beep/features/intracell_analysis.py:IntracellAnalysis.intracell_wrapper")])
NOT_APPLICABLE.append(dict(property="P37", reason=(
    "The optimisers are scipy's stochastic differential evolution and scikit-learn's compiled coordinate descent and SVD: not Python source the "
    "engine can execute symbolically, and beep itself contains no code that decides the optimum. What beep computes before and after "
    "them (objective, inputs, scaling, prediction, projection) is decided in P24, P32, P33 and P34 with the fitted values symbolic.")))
