"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

C = "src/python/zquantum/core/"
P = []


def prop(id, title, statement, over, text, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if "state" in kw:
        kw["state"] = [dict(name=kw["state"], meaning="persistent or shared state the property is about", where=mech[0][1])]
    if "observe_at" in kw:
        kw["observe_at"] = [x.strip() for x in kw["observe_at"].split(";")]
    d["anchors"].update(kw)
    P.append(d)


prop("C01", "An acknowledged artifact save survives and reads back equal",
     "When saving an artifact (circuit, circuit set, operator, operator set, Ising operator, interaction operator or RDM, graph, "
     "measurements, expectation values, parities, wavefunction, outcome distribution or distribution set, arrays, optimization results, "
     "value estimate, list, dictionary, noise model, timing, shot estimate, circuit layers, connectivity or qubit ordering) to a path returns "
     "without an error, loading that path later gives an object equal to the one saved, in the same process or after a crash and restart. "
     "This holds for every history of saves, overwrites, loads, failed saves to other paths and crashes by any number of interleaved clients: "
     "the last acknowledged save to a path wins whole, whatever was there before and however many bytes the device accepts per write. "
     "Saving does not change the object being saved, loading does not change the file, and later changes to an object do not reach the saved copy.",
     ["histories", "schedules", "crash_points", "fault_sequences", "inputs"],
     "every interleaved history of save/load/overwrite/mutate operations of several clients over a shared directory, for every artifact kind "
     "and generated content, with short writes, delayed flushes, failures on other paths and process crashes between and inside operations",
     "the tests save once to a fresh file and load it back; they never overwrite, interleave, crash, or write through a device that accepts partial writes",
     [C + "serialization.py", C + "utils.py", C + "measurement.py", C + "circuits/_serde.py", C + "circuits/layouts.py", C + "graph.py",
      C + "distribution/_measurement_outcome_distribution.py", C + "openfermion/zapata_utils/_io.py", C + "openfermion/utils/operator_utils.py"],
     [("file opening and stream ownership", C + "serialization.py: ensure_open"),
      ("JSON encoders/decoders", C + "serialization.py: OrquestraEncoder, OrquestraDecoder"),
      ("per-kind save_/load_ functions", C + "utils.py, measurement.py, circuits/_serde.py, circuits/layouts.py, graph.py, distribution, openfermion/zapata_utils/_io.py")],
     state="files in the working directory", observe_at="return of save/load calls; object returned by load")

prop("C02", "A torn or cut-off artifact is never loaded as something else",
     "If a save is cut short (crash at any point, lost or torn write, full disk) or the stored file has lost any part of its tail, a later load "
     "of that path either raises an error or returns an object equal to one that was actually saved there; it never returns partial, empty, "
     "mixed or otherwise different data. The same holds when loading from an open stream that ends early.",
     ["crash_points", "fault_sequences", "histories", "inputs"],
     "every artifact kind, every generated content, every byte position at which the write is cut, with and without an older complete file at the path",
     "no test loads a damaged file except one or two hand-written wrong-type inputs; the cut position and the previous content are unbounded",
     [C + "serialization.py", C + "utils.py", C + "measurement.py", C + "circuits/_serde.py", C + "circuits/layouts.py", C + "graph.py",
      C + "distribution/_measurement_outcome_distribution.py", C + "openfermion/zapata_utils/_io.py", C + "openfermion/utils/operator_utils.py"],
     [("whole-document parse on load", "all load_ functions"), ("dict-to-object conversion with no defaulting", "from_dict functions")],
     observe_at="exception or object returned by load")

prop("C03", "I/O failures surface, leak no handles and do not poison a retry",
     "If opening, writing, flushing, closing or reading the underlying file fails during a save or load, the call raises an error that reaches the caller: "
     "a save never reports success for data that is not in the file and a load never returns data it could not read. "
     "After success or failure every file the call opened is closed and no stream supplied by the caller has been closed; the object being saved is unchanged, "
     "and repeating the same call once the fault is gone succeeds in full.",
     ["fault_sequences", "inputs", "histories"],
     "every artifact kind given by path or by caller-supplied stream where supported, every position of an I/O error (open, n-th write, flush, close, n-th read), "
     "every error kind (no space, I/O error, permission, interrupted), followed by a fault-free retry",
     "tests never make the file system fail",
     [C + "serialization.py", C + "utils.py", C + "measurement.py", C + "circuits/_serde.py", C + "circuits/layouts.py", C + "graph.py",
      C + "distribution/_measurement_outcome_distribution.py", C + "openfermion/zapata_utils/_io.py", C + "openfermion/utils/operator_utils.py"],
     [("scoped opening of files", "with open(...) / ensure_open in every save_/load_ function")],
     observe_at="exceptions, open handles, file content")

prop("C04", "Saving a molecule never destroys the previously saved molecule",
     "Once molecule data has been saved to its file, every later save of it that is interrupted (crash at any point, or an I/O error on any write, rename or delete) "
     "leaves a file at the same name that loads completely, with either all the previous or all the new values; "
     "an uninterrupted save leaves exactly the new values, and loading or lazily reading a property returns the value last saved without modifying the file. "
     "A save that could not be completed raises.",
     ["crash_points", "fault_sequences", "histories"],
     "every history of saves, reloads and property reads of molecules sharing a directory, with a crash or error injected at every write, rename, move or delete of a save",
     "the tests save and load once with no failure; the window between deleting the old file and moving the new one is never entered",
     [C + "openfermion/chem/molecular_data.py"],
     [("temporary file swapped into place", C + "openfermion/chem/molecular_data.py: MolecularData.save"),
      ("lazy property reads", C + "openfermion/chem/molecular_data.py: get_from_file")],
     state="the .hdf5 file of the molecule")

prop("C05", "Measurement tracking records every measurement, once, in order",
     "A measurement-tracking backend returns exactly what the wrapped backend returns and raises what it raises. After every call that returns, "
     "its raw-data file contains one record for every circuit measured (and every distribution obtained) through that tracker since it was created, in order, "
     "each with the device, circuit, counts or distribution, number of gates and shots (and bitstrings if requested) that were actually produced, and nothing else. "
     "This holds across failing backend calls, failed file writes followed by later successful ones, batches, and several trackers interleaving on separate files.",
     ["histories", "fault_sequences", "schedules"],
     "every sequence of single, batch and distribution calls by several interleaved trackers, with backend failures and failed or short writes of the raw-data file at any point",
     "each existing test makes one call per tracker and reads the first record, so a lost, duplicated or reordered record in a longer history is invisible",
     [C + "trackers.py"],
     [("record accumulation", C + "trackers.py: MeasurementTrackingBackend.raw_data"), ("file rewrite after each call", C + "trackers.py: save_raw_data")],
     state="raw-data file", observe_at="raw-data file after each call")

prop("C06", "Recorded evaluation history is exact",
     "A recorder around a function returns what the function returns and raises what it raises, and its history holds exactly the successfully completed calls selected by its save condition "
     "(or forced by a stored artifact), in completion order, each with the number of successful calls made before it, the parameters as they were at the call, the value returned and the artifacts stored during that call. "
     "A call that raises leaves no entry and no number behind; later changes to the caller's parameter array, or to an array the call returned, do not alter recorded entries; gradient calls are kept in the gradient's own history. "
     "A copy, shallow or deep, starts with the history and numbering of the original; a deep copy then evolves independently of it, and other attributes read and set through the recorder are those of the recorded function.",
     ["histories", "fault_sequences", "schedules", "inputs"],
     "every history of calls to any recorder variant (with or without gradient and artifacts, any save condition) with failing targets, in-place mutated parameters, copies, and clients using several recorders in any interleaving",
     "tests make a handful of successful calls on one recorder; failures, parameter reuse, copies made mid-history and interleaving are not combined",
     [C + "history/recorder.py", C + "history/save_conditions.py", C + "interfaces/functions.py"],
     [("entry recorded after the target returns", C + "history/recorder.py: SimpleRecorder.__call__, ArtifactRecorder.__call__"),
      ("attribute forwarding and copying", C + "history/recorder.py: __getattr__, __setattr__, copy_recorder, deepcopy_recorder")],
     state="history list and call number")

prop("C07", "Optimization histories list exactly the evaluations made",
     "Minimizing with history kept returns, as history and gradient history, exactly the cost-function and gradient evaluations that the optimizer made in that run, in order and with the right parameters and values, "
     "and minimizing without it returns an empty history; repeated and interleaved minimizations with the same optimizer or cost function do not see each other's entries, and a minimization aborted by a failing cost function leaves nothing behind. "
     "Merging histories over the iterations of a nested optimization concatenates them in iteration order and loses, duplicates or reorders nothing.",
     ["histories", "schedules", "fault_sequences"],
     "every sequence of minimizations (plain and nested; cost functions with or without gradient and artifacts; several optimizers interleaved evaluation by evaluation) with cost-function failures at any evaluation",
     "tests run one minimization and compare lengths or the last entry",
     [C + "interfaces/optimizer.py", C + "history/recorder.py", C + "interfaces/mock_objects.py"],
     [("wrapping in a recorder per run", C + "interfaces/optimizer.py: Optimizer.minimize"),
      ("history assembly", C + "interfaces/optimizer.py: construct_history_info, extend_histories")])

prop("C08", "Cost-function side effects fire exactly when selected and change nothing",
     "A cost function augmented with side effects (such as logging) returns the same values and gradients and raises the same errors as the plain one, and every attribute read or set through it is that of the plain one. "
     "Each side effect fires exactly once per successful call for which its condition holds on (value, parameters, number of successful calls before it), in the order given, and never for a call that raised; "
     "gradient augmentations act on gradient calls only and count separately.",
     ["histories", "fault_sequences", "schedules"],
     "every history of value and gradient calls on stacked augmentations with failing functions, arbitrary conditions and interleaved clients each owning a function",
     "tests use one augmentation with a fixed short call list and no failures",
     [C + "cost_function_augmentations.py"],
     [("conditional side effect", C + "cost_function_augmentations.py: ConditionalSideEffect.__call__"),
      ("attribute propagation", C + "cost_function_augmentations.py: _AttributePropagatingWrapper, augment_cost_function")])

prop("C09", "Backends run every circuit once, in order, with exact accounting",
     "Running a set of circuits on a backend that does not batch executes each given circuit exactly once, in the given order, with its own number of samples, and returns the results in that order; an error while running one of them reaches the caller and no later circuit is run. "
     "After any history, including failed, rejected and retried calls, the counts of circuits and jobs reported by a backend equal those actually submitted to it: one per circuit, and ceil(circuits / batch size) jobs for a batched set. "
     "A request to run a single circuit for fewer than one sample is rejected before anything is executed or counted. "
     "(Wrappers that only forward to another backend, such as the measurement tracker, are judged by the backend they wrap.)",
     ["histories", "fault_sequences", "configurations", "schedules"],
     "every sequence of single-circuit, set and distribution requests on non-batching and batching backends of any batch size, by interleaved clients, with transient backend failures and retries",
     "the backend test-suite checks one successful call and one batch size",
     [C + "interfaces/backend.py", C + "interfaces/mock_objects.py"],
     [("counting in the base call", C + "interfaces/backend.py: QuantumBackend.run_circuit_and_measure, run_circuitset_and_measure"),
      ("distribution through measurement", C + "interfaces/backend.py: get_measurement_outcome_distribution, get_bitstring_distribution")])

prop("C10", "Mixed native and non-native simulation is exact and accounted",
     "A simulator that natively supports only some operations produces the same final state as applying all operations in order, passing each maximal run of native operations, once and in order, with the current state, to the native engine, and counting exactly one circuit and one job per such run. "
     "A failure of the native engine reaches the caller, leaves the circuit and the caller's initial state unmodified, and a retry gives the exact state. "
     "Exact expectation values and sample-free outcome distributions are those of that state.",
     ["histories", "fault_sequences", "configurations", "inputs"],
     "every circuit mixing gates and custom non-native operations, every support predicate, any initial state, with native-engine failures at any segment, retries, and clients interleaving at engine calls",
     "tests use one fixed predicate and one circuit and never fail the engine",
     [C + "interfaces/backend.py", C + "circuits/_circuit.py", C + "symbolic_simulator.py"],
     [("splitting by support", C + "circuits/_circuit.py: split_circuit"), ("state threading and counting", C + "interfaces/backend.py: QuantumSimulator.get_wavefunction")])

prop("C11", "Estimation by averaging measures each task once and answers in order",
     "Estimating expectation values by averaging returns one result per task in task order, submits each task that needs measuring exactly once with its own circuit and number of shots and submits nothing for constant or zero-shot tasks, whose results are the constant, or zero. "
     "Each measured result is computed only from the measurements the backend returned for that task's circuit, whatever they are. "
     "A backend failure reaches the caller, leaves the tasks unchanged, and a retry yields a complete result; shot allocation over tasks assigns every task a share and spends the given total exactly, and binding their circuits to one set of values, or one per task, yields every task with its own operator, shots and bound circuit.",
     ["histories", "fault_sequences", "schedules", "inputs"],
     "every list of tasks mixing operators, constants, zero-shot and repeated circuits, every measurement outcome a backend may return, batching or not, interleaved estimations on shared backends, with failures and retries",
     "tests use a few fixed task lists on a reliable simulator with agreeable outcomes",
     [C + "estimation/_estimation.py", C + "measurement.py", C + "interfaces/estimation.py", C + "utils.py", C + "cost_function.py"],
     [("task splitting and reassembly by index", C + "estimation/_estimation.py: split_estimation_tasks_to_measure, estimate_expectation_values_by_averaging"),
      ("shot allocation", C + "estimation/_estimation.py: allocate_shots_proportionally; utils.py: scale_and_discretize")])

prop("C12", "An ansatz circuit always reflects the current ansatz settings",
     "After any history of setting ansatz properties, calling methods declared to change the circuit, and reading circuits or parameter counts, the circuit, parameter count and executable circuits an ansatz gives are those a fresh ansatz with the same current settings would give. "
     "This holds also when circuit generation or a circuit-changing method fails part-way and is retried, and for several ansatz instances used in any interleaving: none sees another's settings or circuit. "
     "Reading an executable circuit does not change the ansatz, its parametrized circuit or the parameters passed.",
     ["histories", "fault_sequences", "schedules"],
     "every history of property writes, declared invalidating methods, circuit and parameter reads on several ansatz instances, with failures inside generation and inside invalidating methods",
     "tests set one property once and check one regeneration",
     [C + "interfaces/ansatz.py", C + "interfaces/ansatz_utils.py", C + "interfaces/mock_objects.py"],
     [("cached circuit invalidated by setters", C + "interfaces/ansatz_utils.py: _InvalidatingSetter, invalidates_parametrized_circuit, ansatz_property"),
      ("cache fill", C + "interfaces/ansatz.py: Ansatz.parametrized_circuit")],
     state="cached parametrized circuit")

prop("C13", "A seed fixes the result whatever else uses randomness",
     "An operation that is given a seed (sampling by a seeded simulator, seeded random graphs, ansatz parameters, integer lists, wavefunctions, Hamiltonians and operators, noise with a seed) or a random generator returns the same result in every process, "
     "for every prior state of the global random generators and any amount of other random activity before or between calls; different seeds give independent results. "
     "Every integer seed counts as a seed, zero included.",
     ["schedules", "histories", "configurations", "inputs"],
     "every interleaving of seeded operations with other clients' draws from and reseeding of the global generators, every seed including zero, every order of the operations, fresh or long-lived process",
     "tests call a seeded function twice in a row in one process with one seed",
     [C + "symbolic_simulator.py", C + "measurement.py", C + "graph.py", C + "utils.py", C + "testing/_random_circuits.py", C + "openfermion/testing", "steps/circuit.py", "steps/utils.py"],
     [("local generators or reseeding before drawing", "see files")])

prop("C14", "Every sampling request yields exactly the samples asked for",
     "Sampling n bitstrings from a state, a distribution or a circuit gives exactly n bitstrings of the right width, each with non-zero probability, and counts, frequencies and distributions derived from them account for exactly those n, for every outcome the random generator may produce. "
     "Accumulating, counting, saving and reloading measurements in any order preserves the multiset of shots. "
     "Representing a distribution by n measurements uses exactly n of them, within one of each outcome's exact share, and does not change the distribution.",
     ["fault_sequences", "histories", "inputs"],
     "every random-generator outcome (including the least likely and boundary draws), every distribution incl. ones with unequal tiny probabilities and rounding ties, every n, every history of accumulating operations",
     "tests draw with a friendly generator; boundary draws and rounding ties never occur",
     [C + "measurement.py", C + "utils.py", C + "symbolic_simulator.py", C + "distribution/_measurement_outcome_distribution.py"],
     [("sampling", C + "measurement.py: sample_from_wavefunction; utils.py: sample_from_probability_distribution"),
      ("share rounding and elimination", C + "measurement.py: Measurements.get_measurements_representing_distribution")])

prop("C15", "Clients sharing objects get the results they would get alone",
     "Evaluating cost functions, gradients, estimations, circuits, operators and simulations never changes the circuits, operators, tasks, parameter arrays, states, distributions, measurements, expectation values or graphs passed in, whether it succeeds or fails "
     "(operations documented to work in place, such as += or normalising a distribution in place, excepted), and a container or array handed out as a result is the receiver's own: changing it in place does not reach the shared objects. "
     "Hence several clients sharing such objects, a backend and cost functions, interleaved at every backend call, function evaluation and estimator call and with some of them failing midway, each obtain exactly the results they would obtain running alone.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of clients at every point where control leaves the library (backend, estimator, preprocessing and user function calls), with shared inputs and failures injected at those points",
     "tests are sequential and compare outputs, seldom whether shared inputs were altered; a mutation only matters to the next user of the object",
     [C + "cost_function.py", C + "gradients.py", C + "estimation/_estimation.py", C + "interfaces/backend.py", C + "circuits/_circuit.py", C + "openfermion/utils", C + "hamiltonian.py", C + "evolution.py"],
     [("no in-place updates of arguments", "see files"), ("no shared mutable defaults or caches", "see files")])

prop("C16", "A quantum state object is normalised after every accepted or rejected update",
     "After any history of constructing, assigning amplitudes, binding symbols and reading by clients sharing a state object, its total probability never exceeds one and equals one when it has no free symbols; "
     "an assignment or construction that would break this raises and leaves the object exactly as it was, and reading, binding or computing probabilities never changes it. "
     "Distributions likewise stay normalised and valid under their operations, and rejected ones leave nothing behind.",
     ["histories", "fault_sequences", "schedules"],
     "every history of item and slice assignments (accepted and rejected), bindings and reads on shared numeric and symbolic states by interleaved clients",
     "tests try one rejected assignment each on a fixed state",
     [C + "wavefunction.py", C + "distribution/_measurement_outcome_distribution.py"],
     [("check and roll back", C + "wavefunction.py: Wavefunction.__setitem__")],
     state="amplitude vector")

prop("C17", "A killed workflow step can be rerun as if it had never run",
     "A workflow step reads its inputs, never modifies or removes its input files or the objects passed to it, and writes its documented output files in the working directory with the documented content. "
     "If it is killed or hit by an I/O error at any point it does not exit successfully with a missing or partial output, and running it again in the same directory with the same inputs and seeds ends with the same outputs (up to rounding, and up to the phase of computed eigenstates) as one uninterrupted run in an empty directory.",
     ["crash_points", "fault_sequences", "histories", "inputs"],
     "every step function, every generated input, a crash or I/O error at every file operation, any leftover files of earlier runs of the same or other steps in the directory",
     "step tests run each step once in a fresh directory and remove the files afterwards",
     ["steps/circuit.py", "steps/evaluation.py", "steps/graph.py", "steps/measure.py", "steps/operators.py", "steps/optimize.py", "steps/transforms.py", "steps/utils.py"],
     [("read inputs, compute, write outputs", "steps/*.py")],
     state="working directory of the step")

prop("C18", "Reported durations are right whatever the wall clock does",
     "The duration a workflow reports for a computation equals the time that elapsed while it ran: it is never negative and is not affected by the wall clock being stepped, skewed or slewed before, during or after the computation.",
     ["schedules", "fault_sequences"],
     "every elapsed time and every sequence of wall-clock jumps (forward, backward, leap, skew) at any point of the step",
     "tests run with the real clock, which never jumps, and only check that the timing file exists",
     ["steps/transforms.py", C + "utils.py"],
     [("elapsed time measurement", "steps/transforms.py: transform_interaction_operator"), ("timing artifact", C + "utils.py: save_timing")],
     observe_at="timing.json")

# ------------------------------------------------------------- not applicable
NA = "unit tests sample a few inputs; the property quantifies over all of them"


def na(id, title, statement, text, files, mech):
    prop(id, title, statement, ["inputs"], text, NA, files, mech)


na("C19", "Circuit semantics: the unitary of a circuit is the product of its gates",
   "The unitary and simulated state of a circuit equal the ordered product of its gates' matrices lifted to the circuit's qubits, gates are unitary for real parameters, and inverse, dagger, controlled, power and binding of symbols commute with taking the matrix.",
   "all circuits, gates, qubit placements and parameter values", [C + "circuits/_circuit.py", C + "circuits/_gates.py", C + "circuits/_matrices.py"],
   [("gate lifting", C + "circuits/_gates.py")])
na("C20", "Decompositions preserve what a circuit does",
   "Rewriting a circuit with decomposition rules yields a circuit with the same effect up to global phase and without the decomposed gates.",
   "all circuits and rules", [C + "decompositions"], [("rule application", C + "decompositions")])
na("C21", "Time-evolution circuits approximate the exact evolution",
   "The circuit generated for evolving a Hamiltonian equals the exact product formula of the requested order, and derivatives of it have the exact gradient.",
   "all Hamiltonians, times and Trotter orders", [C + "evolution.py"], [("product formula", C + "evolution.py")])
na("C22", "Fermion-to-qubit transforms preserve the physics",
   "Jordan-Wigner, Bravyi-Kitaev and related transforms preserve spectra, (anti)commutation relations and expectation values, and reverse transforms invert them.",
   "all fermionic and boson operators", [C + "openfermion/transforms"], [("transforms", C + "openfermion/transforms")])
na("C23", "Operator arithmetic obeys the algebra",
   "Sums, products, powers, commutators, Hermitian conjugates and normal ordering of symbolic operators agree with the corresponding matrices.",
   "all operators", [C + "openfermion/ops"], [("symbolic operator", C + "openfermion/ops/operators")])
na("C24", "Distribution distances are distances",
   "Distance measures between outcome distributions are non-negative, vanish on equal distributions, and agree with their definitions independent of key order.",
   "all pairs of distributions", [C + "distribution"], [("distances", C + "distribution")])
na("C25", "Grouping and context selection preserve the estimated operator",
   "Grouping terms and adding measurement-basis rotations yields commuting groups whose operators sum to the original and whose rotated diagonal expectation equals the original expectation.",
   "all operators", [C + "hamiltonian.py", C + "estimation/_estimation.py"], [("greedy grouping", C + "hamiltonian.py")])
na("C26", "Layout helpers cover the pairs they promise",
   "Layer and connectivity builders produce every required qubit pair exactly once and never an out-of-range qubit.",
   "all sizes and layer types", [C + "circuits/layouts.py"], [("layer builders", C + "circuits/layouts.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
