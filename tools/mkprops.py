#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


CD = "src/collect_data.py"
DE = "src/decoding.py"
NO = "src/noise.py"
HC = "src/honeycomb_circuit.py"
HL = "src/honeycomb_layout.py"
MT = "src/measure_tracker.py"
PU = "src/probability_util.py"
PL = "src/plotting.py"
AG = "src/paper/aggregate_csv_data.py"
MC = "src/paper/main_collect_all.py"
LF = "src/paper/main_render_lambda_figure.py"
TF = "src/paper/main_render_threshold_figure.py"
DF = "src/paper/main_render_detection_fraction_figure.py"

prop("C01", "Every recorded CSV row lines up with the header and loses nothing",
     "Each row written by logical-error collection, by detection-fraction collection and by aggregation has exactly one field per header column, in header order, and each field is the plain text of that problem's own parameter or of that batch's own shot count, correct count and processing time, with no rounding or re-formatting. The row appended to the output file and the row echoed to standard output are the same row.",
     ["inputs", "configurations"], "for every problem description, every batch result and every output path",
     "Tests write four rows for one style and only check that plotting them does not crash; columns of the same type can be swapped, rounded or taken from the wrong place without any test noticing, and the aggregation script has no test at all.",
     [CD, AG],
     [("header constant", CD + ":CSV_HEADER"), ("record in collect_simulated_experiment_data", CD), ("record in collect_detection_fraction_data", CD), ("row printed by main", AG)],
     observe=["CSV file content", "stdout"])

prop("C02", "Reading recorded data conserves every row and never conflates problems",
     "Reading any sequence of recorded files gives, for each distinct combination of the nine identifying columns, totals of shots, correct shots and seconds that are exactly the sums over all rows of all files carrying that combination. No row is skipped, no column is taken for another one, and two rows that differ in any identifying column are never merged.",
     ["inputs", "histories"], "for every list of files and every sequence of rows in them",
     "The only test reads back one freshly written file with distinct keys and never looks at the totals.",
     [CD], [("accumulation loop of read_recorded_data", CD), ("nine-field problem key", CD + ":DecodingProblemDesc")],
     observe=["ProblemShotData returned"])

prop("C03", "Collection never destroys results already on disk",
     "An existing output file is truncated only if the caller asked to discard previous data; a file that is created or truncated gets exactly one header line before any row, and a file that is kept gets no second header. From then on the file is only appended to, and each finished batch is written to it and the file closed before the next batch is sampled, so an interruption at any point loses at most the batch in flight.",
     ["crash_points", "histories", "configurations"], "for every interruption point, every previous file state and both settings of the discard flag, in both collection functions",
     "Tests always use a fresh file with discarding on, never resume into an existing file and never interrupt a run.",
     [CD], [("truncation guard", CD + ":collect_simulated_experiment_data"), ("truncation guard", CD + ":collect_detection_fraction_data"), ("append inside the sampling loop", CD)],
     observe=["CSV file content after any prefix of the run"])

prop("C04", "Sampling honours its shot budget, batch limit and stopping rules",
     "For every problem the shots taken in total never exceed the maximum, no batch exceeds the batch limit, every batch asks for at least one shot, and the statistical stopping rules are not applied before the minimum number of shots (capped by the maximum) has been taken. Given that, sampling of a problem stops as soon as the maximum is reached, or both the error-count and standard-deviation targets are met, or at least 10 and at least 48% of the shots were errors, and not before. A limit that is not given does not restrict sampling. Counters start from zero for each problem and the shot count recorded for a batch is the number actually sampled.",
     ["inputs", "histories", "configurations"], "for every setting of the limits (with at least one shot allowed per batch and in total) and every sequence of batch outcomes",
     "The one collection test uses min_shots = max_shots = 10, so the loop body runs once and no limit, doubling step or stopping rule is ever exercised.",
     [CD], [("batch size choice and stop rules in the sampling loop", CD + ":collect_simulated_experiment_data")],
     observe=["shot counts requested from the sampler", "rows written"])

prop("C05", "Grouping, merging and filtering conserve shot data and leave input alone",
     "Grouping puts every entry into exactly the group of its key, merging gives per key the exact sums of shots, correct shots and seconds over its entries, filtering keeps exactly the entries satisfying the predicate, and group keys come out in ascending order. None of them changes the collection or any record it was called on.",
     ["inputs"], "for every collection of problems and every key function or predicate",
     "Grouping is exercised only through one plot, merging and filtering not at all, and no test looks at the source collection afterwards.",
     [CD], [("grouped_by / merged_by / filter", CD + ":ProblemShotData")], observe=["returned collections", "receiver after the call"])

prop("C06", "A decoding problem is identified by all nine of its parameters",
     "Two problem descriptions are equal, hash alike and order alike exactly when all nine parameters agree, and a description cannot be modified after construction. Deriving a changed copy replaces exactly the parameters that were passed (including falsy values such as zero noise) and keeps every other parameter.",
     ["inputs"], "for every description and every subset of changed parameters with any values",
     "Tests never call the copy operation with more than noise=0 (through plotting) and never compare descriptions.",
     [CD], [("frozen dataclass", CD + ":DecodingProblemDesc"), ("with_changes", CD + ":DecodingProblemDesc.with_changes")], observe=["resulting description"])

prop("C07", "The likelihood interval brackets the observed error rate",
     "For any shot data with at least one shot and any ratio in (0, 1], the reported interval satisfies 0 <= low <= observed error rate <= high <= 1. Its ends are the search results, on either side of the observed number of errors and at a resolution of a hundredth of an error, for the error rate whose binomial log likelihood equals the maximum log likelihood plus the logarithm of the ratio.",
     ["inputs"], "for every shot count, correct count and ratio",
     "Tests sample a handful of (shots, errors, ratio) triples, most of them at 50% errors, where the two sides are mirror images and swapped arguments go unnoticed.",
     [CD, PU], [("two bracketed searches", CD + ":ShotData.likely_error_rate_bounds"), ("integer bisection", PU + ":binary_search")], observe=["returned pair"])

prop("C08", "Progress accounting agrees with the shot counters",
     "The error count is shots minus correct shots and the error rate is errors over shots (1 when there are no shots). Work counts as finished exactly when the shot limit or the error limit is reached, or when the error rate is at or above the breaker threshold with at least 10 shots; finished work reports zero remaining shots, errors and time, and unfinished work reports the exact differences to the limits and the smaller of the two proportional time projections (infinite when nothing has been seen).",
     ["inputs"], "for every combination of counters, limits and threshold",
     "No test covers the remaining-work accounting at all.",
     [CD], [("RemainingWork properties", CD + ":RemainingWork"), ("ShotData properties", CD + ":ShotData")], observe=["property values"])

prop("C09", "The decoder that runs is the decoder that was named",
     "Each documented decoder name runs exactly that decoder with exactly its correlation setting, and any other name is rejected with an error before anything is sampled. The pymatching decoder refuses correlated decoding rather than silently running without it, and no decoder failure falls back to another decoder.",
     ["inputs", "configurations"], "for every decoder name string and every circuit",
     "Only the pymatching name can be exercised (the internal decoder binary is not available), so the other dispatch branches never run in tests.",
     [DE], [("decoder dispatch", DE + ":sample_decode_count_correct"), ("correlation guard", DE + ":decode_using_pymatching"), ("correlation flags on the command line", DE + ":decode_using_internal_decoder")], observe=["decoder invoked", "command line", "exception"])

prop("C10", "Decoders are judged blind, shot by shot, on all observables",
     "The decoder is given only the detector outcomes of the sampled shots and an error model, never the sampled observable values, and the model circuit (when given) is used only for the error model while the circuit itself is what is sampled. A shot counts as correct exactly when the prediction made from that shot's own detectors equals that shot's own sampled values on every observable, and the returned number is the number of such shots.",
     ["inputs"], "for every circuit, model circuit, shot count and number of observables including zero",
     "Tests only check that sampling runs; leaked truth, mixed-up shots or comparisons on a subset of observables would make every figure better and no test fail.",
     [DE], [("sample split, decode call and count", DE + ":sample_decode_count_correct"), ("per-shot loop", DE + ":decode_using_pymatching"), ("shot files and parsing", DE + ":decode_using_internal_decoder")], observe=["returned count", "decoder inputs"])

prop("C11", "External decoder exchange is exact and fails closed",
     "The external decoder is given the complete decomposed error model and, for every shot in order, a line naming exactly the detectors that fired; its output is parsed as one line of 0/1 characters per shot with one character per observable. A missing binary, a failing decoder process or output that is short, or has a wrong character at any of those positions, always ends in an exception, never in predictions.",
     ["inputs", "fault_sequences"], "for every circuit and sample set and every failure of the decoder process or its output",
     "The binary is not public, so no test runs this code.",
     [DE], [("file exchange, subprocess call and output parser", DE + ":decode_using_internal_decoder"), ("binary lookup", DE + ":internal_decoder_path")], observe=["files handed to the decoder", "exception or predictions"])

prop("C12", "Flattening an error model visits every mechanism at its absolute place",
     "Walking an error model reports every component of every error exactly once per execution, with that error's probability, with detector numbers shifted by all detector shifts executed so far and with its own observables; repeat blocks are executed as many times as they say, nested to any depth, and shifts made inside them persist. Detector coordinates are reported at the shifted detector number with the accumulated coordinate shift added, the lists reported for one component are never modified afterwards, and an unknown instruction is an error.",
     ["inputs", "programs"], "for every detector error model, including nested repeats, separators and coordinate shifts",
     "Tests only feed models generated by this repository's own circuits and look at connectivity, not at indices, probabilities or nested repeats.",
     [DE], [("recursive walk with shared offsets", DE + ":iter_flatten_model")], observe=["callback arguments in order"])

prop("C13", "The matching graph represents exactly the error mechanisms",
     "Every non-zero-probability error component with one symptom becomes an edge to the boundary node and with two symptoms an edge between them, weighted log((1-p)/p) and labelled with its observables; components with no symptoms are dropped and components with more than two are rejected. Repeated components with equal observables are combined as the probability that an odd number of them happens, and when observables conflict the first one is kept. Padding added for the matcher touches only the extra node numbered one past the boundary and never replaces an edge that stands for an error.",
     ["inputs"], "for every detector error model, in any order of its mechanisms",
     "Tests check node degrees and connectivity of a few generated graphs, never weights, merge results, conflicts or padding.",
     [DE], [("edge merge", DE + ":detector_error_model_to_nx_graph"), ("padding", DE + ":detector_error_model_to_pymatching_graph")], observe=["graph edges and attributes"])

prop("C14", "Adding noise never changes the ideal circuit",
     "Removing the noise channels from a noisy circuit gives back the original instructions, targets, arguments, time steps, annotations and repeat structure in the original order for every noise model; the only permitted rewrite is of a two-qubit parity measurement into an equivalent measurement through one extra qubit that no part of the whole circuit uses. Flipped results of such measurements stay flipped and instructions the model does not cover are rejected rather than passed through or dropped.",
     ["inputs", "programs"], "for every circuit, including nested repeat blocks, and every noise model",
     "Tests compare a few tiny circuits and one generated layout in which every repeat body happens to touch all qubits; nothing checks other circuits.",
     [NO], [("per-instruction pass", NO + ":NoiseModel.noisy_circuit"), ("instruction rewrite", NO + ":NoiseModel.noisy_op"), ("parity measurement gadget", NO + ":parity_measurement_with_correlated_measurement_noise")], observe=["noisy circuit with noise channels removed"])

prop("C15", "Every operation and idle period gets exactly its model's noise",
     "In each noise model every gate, reset and measurement gets the channel of its kind with the model's strength on exactly its own targets, after gates and resets and before measurements, and flipping the right basis. In every time step with operations, each qubit of the system that is not operated on gets the idle channel once, and each one not measured or reset in a step with measurements or resets gets the measure-reset idle channel once; nothing carries over from one step to the next, and steps are delimited by ticks, repeat boundaries and the end of the circuit.",
     ["inputs", "programs", "configurations"], "for every circuit, noise strength and noise model",
     "Tests check single-instruction circuits at one strength per model plus one layout per style; other gate kinds, mixed steps and repeat boundaries are not sampled.",
     [NO], [("model tables", NO + ":NoiseModel.SD6/PC3/EM3_v1/EM3_v2/SI1000"), ("channel choice", NO + ":NoiseModel.noisy_op"), ("idle rule and reset of the per-step state", NO + ":NoiseModel.noisy_circuit")], observe=["noise channels in the output circuit"])

prop("C16", "Measurement tracking resolves groups to the right records",
     "Looking up a set of keys gives the symmetric difference of the measurement times their most recent (or, for 'previous' keys, correspondingly older) entries stand for, and gives nothing at all as soon as one of them is an obstacle; asking for more history than exists is an error. Every tracked measurement gets the next consecutive time, groups and dummies take none, record references are relative to the current time (or to just after a named measurement), and a detector is appended exactly when its lookup gives something.",
     ["histories", "inputs"], "for every sequence of tracker operations and every set of keys",
     "Two small unit tests use single-element groups; nested groups, chained 'previous' references, obstacles inside groups and references relative to a named measurement are not covered.",
     [MT], [("history lists and time counter", MT + ":MeasurementTracker"), ("offset composition", MT + ":Prev")], observe=["time sets and record targets"])

prop("C17", "Exactly the requested sub-rounds are performed, once each and in order",
     "For every supported style and every positive number of sub-rounds, the generated circuit performs exactly that many edge-measurement sub-rounds, in order X, Y, Z repeating, whether or not the steady state is folded into a repeat block. The bookkeeping that annotates detectors records measurements in exactly the order in which the circuit performs them, and the folded body is a whole number of cycles taken only after all comparisons have settled.",
     ["inputs", "configurations"], "for every sub-round count, style, observable and grid size",
     "Tests generate at most 23 sub-rounds, apart from one exact circuit per style at 1003 or 900, and check only that the detectors are deterministic.",
     [HC], [("pipelines and loop folding", HC + ":generate_rounds_sd6/pc3/em3/SI1000"), ("per-sub-round measurement", HC + ":_sub_round_measurements_and_detectors")], observe=["measurement operations in the circuit, expanded"])

prop("C18", "Each sub-round measures its edges' parities without schedule conflicts",
     "In every style each edge ancilla is reset before it interacts, interacts once with each end of its edge between reset and measurement (or, where ancillae are never reset, once with each end between measurements), in the Pauli basis of that sub-round taking the accumulated rotation of the data qubits into account, and the rotations are undone before the data is read out. No qubit is used by two operations in the same time step.",
     ["inputs", "configurations"], "for every grid size, sub-round count, style and observable",
     "Exact schedules are tested for the smallest grid, one observable and one sub-round count per style; the in-code assertion against double use is commented out.",
     [HC, HL], [("pipelined gate layers", HC), ("checkerboard split of data qubits", HL + ":_data_qubit_parity"), ("edge end ordering", HL + ":Edge")], observe=["gate layers of the circuit"])

prop("C19", "Every stabilizer comparison and observable contribution is annotated",
     "In every sub-round each hexagon completed by that sub-round gets one detector comparing its value with its previous one as soon as a previous or known initial value exists, the first sub-round's edges get detectors when the data starts in the X basis, and the final data readout is compared with the last edge values or half-finished hexagons and with all hexagons of the readout basis. Every edge measurement on the observable's path and every final data measurement of the observable is included in the observable, under the index of the chosen observable, and detectors carry the coordinates of their hexagon or edge and of their sub-round.",
     ["inputs", "configurations"], "for every grid size, sub-round count, style and observable",
     "Determinism tests cannot see missing detectors, and exact annotations are pinned only for the smallest grid, one sub-round count per style and almost always the vertical observable.",
     [HC], [("detector and observable annotation", HC + ":_sub_round_measurements_and_detectors"), ("initialisation knowledge", HC + ":fault_tolerant_init"), ("final comparisons", HC + ":fault_tolerant_measurement"), ("observable of the unreset style", HC + ":generate_rounds_pc3")], observe=["DETECTOR and OBSERVABLE_INCLUDE instructions"])

prop("C20", "The layout is a consistent three-coloured honeycomb on a torus",
     "On every grid size the hexagon centres are distinct and three-coloured, the edges of each colour join hexagons of that colour and pair up all data qubits, and the two half-sets of edges around a hexagon are its six sides and belong to the next and next-but-one colour. Coordinates wrap with periods of four per pair of columns and six per six rows, every edge joins the two checkerboard classes of data qubits, and the observable paths, qubits and patterns repeat consistently along the whole torus.",
     ["inputs", "configurations"], "for every even width and every height divisible by six",
     "Tests pin two or three grid sizes.",
     [HL], [("centre and category formulas", HL + ":HoneycombLayout._hex_center_categories"), ("edge offset tables", HL + ":EDGE_TYPES, first/second_edges_around_hex"), ("wrap", HL + ":HoneycombLayout.wrap"), ("observable patterns", HL + ":obs_h/v_before_sub_round")], observe=["layout queries"])

prop("C21", "The recorded description matches the circuit that is sampled",
     "The description attached to a problem carries the width, height, noise, style, observable, qubit count, distance and number of rounds (sub-rounds over three, rounded up) of exactly the circuit its circuit maker builds, for honeycomb and surface code problems alike, no matter how many problems are created together. The circuit maker builds the noise model and generator of that very style, and the reported qubit count is the number of qubits the circuit uses (not counting the extra qubit the correlated parity measurement noise borrows).",
     ["inputs", "configurations"], "for every layout, surface code problem and list of problems built in one go",
     "No test compares a description with its circuit; the paper scripts that build hundreds of problems are not tested.",
     [HL, MC], [("as_decoder_problem_desc / as_decoder_problem / make_circuit / noise_model / num_qubits", HL), ("surface_code_problem and its closure", MC)], observe=["DecodingProblem.desc vs circuit_maker()"])

prop("C22", "Layouts are immutable values and their derived data are pure",
     "A layout cannot be modified, compares and hashes by all six of its parameters, and everything derived from it (including cached data) depends on those parameters only. No code path changes cached layout data, module-level tables or the arguments it was given, so generating one circuit never affects another.",
     ["histories", "programs"], "for every sequence of uses of any number of layouts in one process",
     "Tests build a fresh layout per case and never check cross-talk through the per-method caches.",
     [HL, HC, NO], [("frozen dataclass with cached properties and lru caches", HL + ":HoneycombLayout"), ("read-only use in the generators", HC)], observe=["repeated generation in one process"])

prop("C23", "Unsupported configurations are rejected, never approximated",
     "Widths that are not even, heights that are not multiples of six, unknown styles, unknown observables, zero or negative sub-rounds and sub-round counts the style cannot do are rejected with an error when the circuit is built, in every style. Every style that has a generator has its noise model and its qubit set, and no unknown value falls through to another style's or observable's behaviour.",
     ["inputs", "configurations"], "for every style and observable string and every grid size and sub-round count",
     "No test passes an unsupported configuration.",
     [HL, HC], [("constructor checks", HL + ":HoneycombLayout.__post_init__"), ("style and observable dispatch", HL + ", " + HC)], observe=["NotImplementedError"])

prop("C24", "The paper's collection suite and figures use one consistent vocabulary",
     "The suite is the honeycomb problems together with the surface code problems of the given (or the repository's) directory, none of them listed twice. Every problem of it names a decoder, style, observable and sub-round count the library supports, every surface code problem has its circuit file in the repository written only in operations its noise model accepts, and every style, observable and decoder a figure selects is produced by the suite (or, for the detection fraction figure, by the suite with EM3 added), with both observables of the code where a figure combines them. Both codes are run with the same decoders and noise values, for the same number of sizes (honeycomb distances 4u against surface code distances 4u-1), three rounds per unit of distance, each style with both observables at every combination of size and noise; SD6 and SI1000 are run for both codes. The example program names a supported decoder, style and observable and plots the file it collected.",
     ["configurations"], "for every problem of the suite and every selection made by a figure script",
     "The paper scripts are only imported by the tests, never run.",
     [MC, TF, LF, DF], [("problem lists", MC), ("figure selection tables", TF + ", " + LF + ", " + DF)], observe=["problem list", "figure series"])

prop("C25", "Total error rates convert to per-piece rates by the exact folding law",
     "The per-piece error rate q reported for a total rate p over k pieces satisfies 1 - 2p = (1 - 2q)^k for p up to one half and is mirrored, one minus the result for 1 - p, above one half; rates outside [0, 1] are rejected. Plots and fits convert every rate and interval end with the number of pieces given by rounds over code distance rounded up.",
     ["inputs"], "for every rate and piece count",
     "Tests check a few rates below one half; above one half and the use sites are never checked.",
     [PL, LF], [("total_error_to_per_piece_error", PL), ("uses in plot_data", PL), ("uses in LambdaGroup", LF)], observe=["returned rate", "plotted values"])

prop("C26", "Binomial log likelihoods are exact at the edges and follow the formula",
     "The log likelihood of h hits in n samples at rate p is h ln p + (n-h) ln(1-p) + ln C(n,h), with rates outside [0, 1] clamped, minus infinity exactly when p = 0 with hits or p = 1 with misses, and never a NaN from 0 ln 0. The log of n! is the exact sum of logarithms below 20 and Stirling's formula from 20 on. It broadcasts over arrays of rates and never modifies its argument.",
     ["inputs"], "for every n, h and rate or array of rates",
     "Tests sample about fifteen points.",
     [PU], [("log_binomial and log_factorial", PU)], observe=["returned array"])

prop("C27", "Projections combine both observables and extrapolate the fitted line",
     "Distance data of a noise level combine the two observables as the probability that either fails, using the other one's rate (with a warning) when one is missing and skipping distances with a zero rate; each record is filed under its observable and distance and never overwrites another. Projected error, distance, lambda and qubit counts follow the line fitted to log error against distance, with surface code counts growing as d^2 of the full square and honeycomb distances rounded up to multiples of four.",
     ["inputs"], "for every collection of records of one style and decoder",
     "The figure scripts have no tests.",
     [LF], [("LambdaGroup", LF)], observe=["values plotted in the lambda, line-fit and teraquop figures"])

prop("C28", "All detectors of every generated circuit are deterministic and graph-like",
     "For every supported configuration all detectors and the observable of the noiseless circuit are deterministic, and under the style's noise every error decomposes into components with at most two symptoms.",
     ["configurations"], "for every grid size, sub-round count, style and observable",
     "Tests cover up to 8x30 data qubits and 23 sub-rounds.",
     [HC, HL, NO], [("circuit generation", HC)], observe=["detector error model"])

prop("C29", "Circuits have the fault distance the description claims",
     "The smallest number of independent faults that flips the observable without firing a detector grows with the grid as the recorded code distance says.",
     ["configurations"], "for every configuration",
     "No test computes a distance.",
     [HL, HC], [("code_distance_1qdep", HL)], observe=["shortest undetectable logical error"])

prop("C30", "Least-squares ranges are found at the allowed cost increase",
     "The cost of a line is the sum of its squared residuals. A line constrained to a slope, or to pass through a point, minimises that cost under its constraint. The reported slope and output ranges are found by searching downwards and upwards from the unconstrained fit for the value whose constrained line costs the allowed amount more than the unconstrained fit, to 1e-5 in cost. The search doubles its step in the given direction until it has crossed the target, fails when the step overflows or vanishes, and then bisects the bracket until the value is within tolerance, for increasing and decreasing functions alike.",
     ["inputs"], "for every data set, target and cost increase",
     "Three tests check a handful of data sets, one of them misnamed so that it never runs.",
     [PU], [("binary_intercept, least_squares_*", PU)], observe=["returned ranges"])

prop("C31", "Plots draw every group's points and intervals once, on truthful axes",
     "A plot draws, for every group of problems differing only in noise, one curve and one shaded band, labelled with the group's rounds, width and height and using the next marker and colour from the marker offset: the band covers every recorded noise value, the curve those with at least one error, both in ascending noise. Both axes are logarithmic with positive, ordered limits, the ticks lie within them and each tick label spells its tick's value. The given title is set, a legend is drawn exactly when requested and after the curves, and the figure is saved to the given path and shown when requested, after everything is drawn. It draws into the given figure and axes, or else into new ones, which it returns; a figure without axes, or axes without a figure, is rejected.",
     ["inputs", "configurations"], "for every recorded data set and every combination of options",
     "The only test checks that plotting one data set does not crash; nothing looks at what is drawn.",
     [PL], [("plot_data", PL)], observe=["drawing calls on the axes"])

prop("C32", "The paper's figures draw every group in its panel and mark weak projections",
     "Each threshold panel plots exactly the recorded data of its noise model, code, observable and decoder, titled with the noise model, and each row says its code, observable and decoder. The detection fraction figure draws, for each style in its own titled panel and each noise value of that style, every record's rate against its distance. The line-fit figure shows, for every noise value of a panel's style and decoder, its combined distance data labelled with the noise value and, where errors appear suppressed, the fitted line in the data's colour. The lambda and teraquop figures draw, for every case that has data, labelled with its code and decoder, the projected value and its range against ascending noise for exactly the noise values at which errors appear suppressed, and mark exactly those of low confidence. The scripts reject an empty command line, read every given file and every CSV of a given directory, draw each figure from all of it, save each as PDF and PNG under its own name, and then show them; they do so exactly once when run as scripts, and nothing when imported.",
     ["inputs", "configurations"], "for every collection of recorded data and every list of files",
     "The figure scripts have no tests.",
     [LF, TF, DF], [("plot_* and main of the three figure scripts", LF)], observe=["drawing calls per panel", "saved files"])

prop("C33", "The collection script runs exactly the requested problems within their limits",
     "main_collect_all takes the options --surface_code_problems_directory and --out_file (text) and --problem_id, --case_reduction, --max_shots, --max_errors and --max_batch_size (integers), each of which may be left out. Its problems are all honeycomb problems followed by all surface code problems read from the given directory (the surface_code_circuits folder beside the script when none is given; no surface code problems when it is '-' or empty), or only the problem at the given index of that list. It makes exactly one collection of them, with at least 25 shots per problem, at most max_shots (else 10^8 divided by the case reduction, rounded down) shots, until max_errors (else 10^3 divided by the case reduction, rounded down) errors are seen, in batches of at most max_batch_size (else 2^15), into the given output file, never discarding data that are already there. This happens once when the script is run, and not when it is imported.",
     ["inputs", "configurations"], "for every command line",
     "The script has no tests; running it means hours of sampling.",
     [MC], [("main", MC)], observe=["the arguments of the collection call", "the declared options"])

prop("C34", "Everything the code refers to exists, on every path of every script",
     "In every module and script, on every path however rarely taken: each name that is read is defined in a scope that can be seen from there, and no local is read where no assignment to it can have happened; each import names a module, and a thing in it, that exists in the repository or the installed libraries, and a script in a sub-folder puts the source folder on the search path before it imports from it; each attribute read from a module, a class, an instance of a known class of the repository or a library object of known type exists; each call of a function, method, constructor or record of the repository (and of the libraries, where their signatures are known) passes every required argument, no unknown one and none twice; and each format specification is well formed for what it is applied to.",
     ["inputs", "configurations"], "for every path of every module, including error handling and scripts that no test runs",
     "The language reports such a mistake only when the line runs; scripts, figures, error paths and unusual configurations are run by no test.",
     [MC, HL, DE], [("every function of every module", HL), ("every script under src/paper", MC)], observe=["NameError, ImportError, AttributeError, TypeError or ValueError when the path is taken"])

out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
