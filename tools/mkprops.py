"""Writes /verif/properties.jsonl (the list is maintained here)."""
import json, os

C = "qtcodes/circuits/"
F = "qtcodes/fitters/"
BASE, CIRC, ROT, XXZZ, XZZX, REP = (
    C + "base.py", C + "circ.py", C + "rotated_surface.py", C + "xxzz.py", C + "xzzx.py", C + "repetition.py")
FB, FL, FR, FP = F + "base.py", F + "lattice_decoder.py", F + "rotated_surface.py", F + "repetition.py"
BENCH = "qtcodes/tools/benchmarking.py"
P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": list(observe), "hook_needed": None},
    })


LAT = "Any odd height and width (not both 1), square, rectangular or one-dimensional, for every code that has that shape."

p("C01", "Stabilizing is an exact, non-destructive plaquette measurement",
  "A stabilization round measures exactly the code's plaquette operators on the data qubits: the recorded bits are their values, with Z-type plaquettes in the low bits and X-type plaquettes in the high bits, each numbered row by row. The data qubits are left in the projected state with everything commuting with the plaquettes untouched, and the syndrome qubits come back in |0>, ready for the next round.",
  ["inputs", "configurations", "histories"],
  LAT + " Any (also entangled, also erroneous) state of the data qubits before the round, any number of rounds, any Clifford disturbance between rounds.",
  "Existing tests run two rounds from |0> or |+> on four lattice shapes and look at decoded values only; they never look at the state left behind or at arbitrary input states, and shapes with height > width are never run.",
  [ROT, XXZZ, XZZX, BASE],
  [("plaquette geometry", ROT + ":_set_geometry"), ("plaquette circuits", XXZZ + ":_XXXX/_ZZZZ.entangle, " + XZZX + ":_XZZX.entangle"), ("syndrome measurement and reset", ROT + ":RotatedQubit.stabilize")],
  ["the circuit of the qubit, simulated with the data qubits entangled with references"])

p("C02", "A topological qubit behaves as one ideal qubit under any call history",
  "Whatever sequence of logical X and Z, stabilization rounds, identities, readouts, classically conditioned logical gates and further logical resets is issued on a topological qubit after a logical reset, the logical readouts have exactly the joint distribution an ideal single qubit would give for the same sequence. Stabilization rounds and identities never change it.",
  ["histories", "configurations"],
  "Every finite call sequence with every interleaving of readouts in both bases, and every lattice shape of every code. " + LAT,
  "Tests issue one reset, two stabilizations and one readout; sequences with repeated readouts, gates between readouts, or re-initialisation are unreachable for them.",
  [BASE, ROT, XXZZ, XZZX, REP],
  [("logical operators on the left column / top row", XXZZ + ", " + XZZX + ":x, z, reset_*, readout_*"), ("delegation from qubit to lattice", BASE + ":TopologicalQubit")],
  ["logical readout bits of the circuit"])

p("C03", "Logical reset prepares the +1 state from any prior state",
  "A logical reset in the X or Z basis leaves the qubit in the +1 eigenstate of that logical operator and of every plaquette of the same type, whatever the data qubits held before, and leaves nothing correlated with what they held or were entangled with. The data qubits of other topological qubits are not touched.",
  ["inputs", "histories", "configurations"],
  "Any prior data-qubit state, including states entangled with something else, and any history of earlier rounds and readouts. " + LAT,
  "Tests only reset freshly created (all |0>) qubits, for which omitting the reset altogether would go unnoticed.",
  [XXZZ, XZZX],
  [("reset_x / reset_z", XXZZ + ", " + XZZX)],
  ["state of the data qubits after the reset"])

p("C04", "Logical readout is an exact non-destructive logical measurement",
  "A logical X (Z) readout records exactly the value of the logical X (Z) operator of the data qubits, into the register the caller supplied or a fresh one-bit register, and leaves the data qubits in the projected state, otherwise untouched. A repeated readout in the same basis gives the same value, and readouts never change plaquette values.",
  ["inputs", "histories", "configurations"],
  "Any data-qubit state, any number and order of readouts, own or supplied classical register. " + LAT,
  "Tests read each qubit once at the end, so back-action on the state, the supplied-register path and repeated readouts are never observed.",
  [XXZZ, XZZX],
  [("ancilla based readout", XXZZ + ", " + XZZX + ":readout_x/readout_z, _readout_*_into_ancilla")],
  ["readout bit and state of the data qubits after the readout"])

p("C05", "Full-lattice readout gives the logical value and a final round",
  "Parsing a run that ends in a full-lattice readout in a basis gives the same logical value, and the same syndrome hits of that type, as a run with one more perfect stabilization round and a logical readout in that basis would have given; plaquettes of the other type show no hits in the final round. This holds for the qubit's parser, the circuit's parser and the decoder's parser alike.",
  ["histories", "fault_sequences", "configurations"],
  "Any code state, any Pauli errors on data qubits before, between and after rounds, either basis, any number of rounds, several lattice readouts. " + LAT,
  "No existing test performs a full-lattice readout; the X-basis one always raised before this work.",
  [ROT, XXZZ, XZZX, CIRC, FL],
  [("final stabilizer extraction", ROT + ":extract_final_stabilizer_and_logical_readout_x/_z"), ("parsing", ROT + ":parse_readout")],
  ["parse_readout of the recorded string"])

p("C06", "Readout strings parse exactly to logical value and syndrome changes",
  "Parsing a readout string returns the logical bit and, per plaquette type, exactly the (time, row, column) locations of the plaquettes whose bit differs between consecutive rounds, each once. Parsing is a bijection between syndrome histories with a fixed first round and sets of locations, and the qubit's parser and the decoder's parser agree.",
  ["inputs", "configurations"],
  "Every bit pattern of every length: any number of rounds (including a single one), logical or full-lattice readouts in both bases. " + LAT,
  "Tests only ever parse strings with two rounds and a single error; higher rounds, many simultaneous hits and most locations never occur.",
  [ROT, FL, CIRC],
  [("bit to location arithmetic", ROT + ":parse_readout")],
  ["parse_readout"])

p("C07", "Fault-free histories show no syndrome hits and decode to what was prepared",
  "In a run without faults, no syndrome hit of either type is ever reported after the first stabilization round, no matter which logical gates, identities and non-destructive readouts are interleaved with the rounds. The decoder then returns the prepared logical value, flipped once per anticommuting logical gate.",
  ["histories", "configurations"],
  "Every fault-free history: any number of rounds, logical gates anywhere between them, both bases, logical and full-lattice readout, with and without an error probability given to the decoder. " + LAT,
  "Tests cover two rounds and no gate between rounds, in one or two shapes.",
  [ROT, XXZZ, XZZX, REP, FL],
  [("logical operators commute with the plaquettes", XXZZ + ", " + XZZX), ("decoding", FL + ":correct_readout")],
  ["parse_readout, correct_readout"])

p("C08", "Each error flips exactly its neighbouring plaquettes, when it happens",
  "A Pauli error on a data qubit shows up as hits exactly at the plaquettes touching that qubit with an anticommuting letter, at the time of the first round after it, and flips a later logical readout exactly if it lies on that logical operator and anticommutes with it; a flipped syndrome bit shows up as two hits at consecutive times. Signatures of several faults add up modulo two, and never depend on the random outcomes of the code.",
  ["fault_sequences", "configurations"],
  "Every set of data and measurement faults at every time, for every code and logical state. " + LAT,
  "Tests try single data errors between two rounds only, and see only the decoded value.",
  [ROT, XXZZ, XZZX],
  [("geometry", ROT + ":_set_geometry"), ("parse", ROT + ":parse_readout")],
  ["hits and logical value returned by parse_readout"])

p("C09", "The decoder's syndrome graph is the graph of elementary faults",
  "For each plaquette type that exists, the decoder's graph has one node per plaquette and time step plus the boundary nodes, and exactly one unit-weight edge per elementary fault: a data-qubit error at some time joins the two plaquettes of that type that it flips (or the one and the boundary it touches), and a measurement flip joins consecutive times. Every location the parser can report for that number of steps is a node of the graph.",
  ["configurations"],
  "All odd heights and widths and all numbers of time steps of the rotated and the repetition decoder, including long, thin and large ones.",
  "Tests build four small decoders and never look at their graphs; a wrong edge can keep all single errors correctable.",
  [FR, FP, FL],
  [("graph construction", FR + ":_make_syndrome_graph, _populate_syndrome_graph, _valid_syndrome, _specify_virtual")],
  ["nodes and edges of the decoder's graphs"])

p("C10", "Up to (d-1)/2 faults are always corrected",
  "Any combination of at most (d-1)/2 data-qubit Pauli errors and intermediate measurement flips is decoded to the logical value that was prepared, where d is the length of the shortest logical operator the readout is sensitive to. This holds for logical and for full-lattice readout, for strings and for parsed syndromes.",
  ["fault_sequences", "configurations"],
  "Every fault set of that size at any times, for every code, shape, number of rounds and basis; measurement flips in any round but the first and (for logical readout) the last one. " + LAT,
  "Tests stop at one data error in one time step, on d = 3 and d = 5; the guarantee for d >= 5 is about pairs and more, over space and time.",
  [FL, FR, FP, ROT, XXZZ, XZZX, REP],
  [("minimum weight perfect matching", FL + ":correct_readout, _corrections, _make_error_graph, _run_mwpm"), ("crossing count", FR + ":_is_crossing_readout_path")],
  ["correct_readout"])

p("C11", "Matchings are perfect on the hits and of minimum total weight",
  "The matching the decoder returns pairs every syndrome hit exactly once, with another hit or with a boundary node used at most once, and no such matching has a smaller total weight. The drawable matched graph contains exactly the same pairs.",
  ["inputs", "configurations"],
  "Every set of distinct hits of every decoder, with integer and with degeneracy-adjusted weights (there up to the documented rounding of weights).",
  "Tests see only decoded bits for one or two hits; optimality over sets of hits is never examined.",
  [FL],
  [("matching", FL + ":_run_mwpm, _run_mwpm_graph"), ("even number of nodes", FL + ":_make_error_graph")],
  ["returned matches and matched graph"])

p("C12", "Matching weights are fault distances, adjusted by path degeneracy",
  "Between two hits, or a hit and a boundary node, the error graph carries the negated minimum number of elementary faults that explain the pair, and zero between boundary nodes. With an error probability p it is increased by log(number of equally short explanations) / log((1-p)/p), where explanations of a boundary match count over all equally close boundary nodes of both sides.",
  ["inputs", "configurations"],
  "Every pair of hits or boundary nodes, every set of hits, every p in (0, 1/2), every decoder.",
  "No test passes an error probability, so the whole degeneracy computation is never run.",
  [FL],
  [("distances", FL + ":_make_error_graph"), ("degeneracy", FL + ":_path_degeneracy, _path_degeneracy_helper")],
  ["nodes and edge weights of the error graph"])

p("C13", "Decoding picks the most likely equivalence class of errors",
  "The corrected logical value is the one implied by the lowest-weight explanation of the hits: if all minimum-weight pairings cross the logical operator with the same parity, the measured value is flipped exactly when that parity is odd. The weights are fault counts, or their degeneracy-adjusted version if an error probability is given.",
  ["inputs", "configurations"],
  "Every set of hits, both measured values, all decoders and bases, with and without an error probability in (0, 1/2).",
  "Tests decode one-error syndromes only, where almost any pairing gives the right class.",
  [FL, FR],
  [("decoding", FL + ":correct_readout"), ("crossing", FR + ":_is_crossing_readout_path")],
  ["correct_readout"])

p("C14", "Decoding is a pure function of syndromes, value and settings",
  "Decoding leaves its arguments and the decoder unchanged: the same input decodes to the same value in any order and any number of times, on a fresh, used, copied or pickled decoder, as a string or as parsed syndromes, and regardless of hits of the other type. Flipping the measured logical bit flips the result, and adding a constant pattern to all syndrome rounds (another quiescent state) does not change it.",
  ["histories", "inputs"],
  "Every sequence of decodes mixing bases, strings, parsed syndromes and error probabilities on one decoder.",
  "Tests decode each string once; state carried over between calls and mutated arguments are invisible to them.",
  [FL, FR, FP],
  [("decode entry points", FL + ":correct_readout, _corrections, _make_error_graph, parse_readout")],
  ["correct_readout, arguments after the call"])

p("C15", "Look-up decoding is Bayes' rule on the recorded counts",
  "Given tables of counts for prepared 0 and 1, the look-up probabilities are the posterior p(i|s) by Bayes' rule with the given (default uniform) prior, and look-up decoding returns a value of largest posterior. Setting a table replaces only that table by the counts at that moment, resetting empties all, and neither decoding nor other decoders nor later changes to the caller's dictionary change any.",
  ["inputs", "histories"],
  "Every pair of count tables (different totals, missing strings), every prior, every observed string recorded in some table, every order of setting, resetting and decoding, both bases.",
  "There is no test of look-up decoding at all.",
  [FB],
  [("tables and posterior", FB + ":set_look_up_table, _run_look_up, correct_readout_look_up_table, reset_look_up_table")],
  ["returned posterior and value"])

p("C16", "The repetition code is the one-dimensional surface code",
  "A bit-flip (phase-flip) protected repetition qubit of distance d behaves as the d x 1 (1 x d) XXZZ lattice: the same calls and the same faults give the same records. Its decoder gives the same hits and the same decoded value as the rotated decoder of that shape in the protected basis.",
  ["histories", "fault_sequences", "configurations"],
  "Every call and fault history, every odd distance, both protection settings, every accepted way to state the distance.",
  "Tests check single errors at one distance and the messages for three bad arguments.",
  [REP, FP, XXZZ],
  [("parameter translation", REP + ":_validate_params"), ("graph key selection", FP + ":_params_validation")],
  ["records, parse_readout and correct_readout of both"])

p("C17", "Valid parameters give the documented lattice, invalid ones are rejected",
  "Encoders and decoders accept a positive odd distance given as one number (square, or one-dimensional for repetition) or as a height/width pair, agree on the resulting lattice, and encoders default to distance 3. Even or negative dimensions, pairs that do not fit the repetition flavour and missing decoder parameters are rejected with an error before anything is added to the caller's circuit.",
  ["inputs", "configurations"],
  "All positive distances and pairs, a single number given as int, integer-valued float or numpy number, a pair as tuple of integers (or list, for the surface codes), all codes; and all invalid combinations of the listed kinds.",
  "Tests check three invalid repetition parameters; even distances, decoder parameters and defaults are not tested.",
  [ROT, REP, FR, FL, FP],
  [("validation", ROT + ":_params_validate_and_generate, " + REP + ":_validate_params, " + FR + ":_params_validation, " + FL + ":_params_validation")],
  ["number of qubits and bits created, errors raised, circuit left behind"])

p("C18", "Qubits are independent unless the user couples them",
  "Any number of topological qubits can share one circuit or one parameter dictionary: calls on one add operations only on that qubit's own qubits and bits, never change the state, counters or parameters of another, and never change the caller's dictionary. Interleaving the calls of several qubits gives each the same records as running it alone.",
  ["histories", "configurations"],
  "Every interleaving of calls on several qubits of mixed codes and shapes, sharing or not sharing circuits and parameter dictionaries.",
  "Tests create one qubit per circuit from a fresh dictionary.",
  [BASE, ROT, REP, CIRC],
  [("per-lattice parameters", BASE + ":_TopologicalLattice.__init__"), ("register naming", BASE + ", " + ROT + ", " + XXZZ + ", " + XZZX)],
  ["instructions appended per call, records, caller's dictionaries"])

p("C19", "Registers and circuits address exactly the requested topological qubit",
  "Indexing a topological register gives the qubits in the order they were added, across sub-registers, each of the requested type and shape, and every operation of a topological circuit does the same to the qubit with that index as calling it on the qubit itself, also if several registers or topological circuits share one quantum circuit. Registers added by name are added once, and again only if overriding is asked for. Adding lists of different lengths or with an unknown type raises a value error, an index or sub-register that does not exist raises an error, and neither changes the register or its circuit.",
  ["histories", "inputs"],
  "Every sequence of additions to sub-registers and of circuit operations by index or by qubit object, any number of qubits and names.",
  "Topological registers and circuits have no tests.",
  [CIRC, "qtcodes/circuits/qubit_types.py", "qtcodes/common/constants.py"],
  [("lookup", CIRC + ":TopologicalRegister.__getitem__, TopologicalCircuit._get_index"), ("type table", "qtcodes/circuits/qubit_types.py")],
  ["qubits returned, instructions added to the circuit"])

p("C20", "A topological circuit behaves as the ideal circuit on its logical qubits",
  "For any sequence of resets, X, Z, CX, stabilizations, identities and measurements on the qubits of a topological circuit, the logical measurement results have exactly the joint distribution of the same circuit on ideal qubits. Stabilization rounds may be inserted anywhere without changing it, and the program may be split over several topological circuits on the same qubits.",
  ["histories", "programs", "configurations"],
  "Every program over several logical qubits of any mix of codes and shapes, with repeated CX in any direction and entangled intermediate states.",
  "Topological circuits have no tests.",
  [CIRC, BASE, XXZZ, XZZX],
  [("logical CX by joint measurements and feed-forward", CIRC + ":TopologicalCircuit.cx"), ("delegation", CIRC)],
  ["logical readout bits of the circuit"])

p("C21", "The logical CX is an exact CNOT, including on superpositions",
  "The logical CX of a topological circuit maps the joint logical state of control and target exactly as a CNOT, whatever they are entangled with and whichever random outcomes occur on the way, and leaves the plaquette values of both unchanged. This holds for every combination of control, target and ancilla codes and shapes and for any number of consecutive CX gates.",
  ["inputs", "histories", "configurations"],
  "Every (also entangled) logical input state, all outcome branches, all code and shape combinations, default and explicit ancilla.",
  "The logical CX has no tests; demonstrations in the tutorials show computational basis states only.",
  [CIRC, XXZZ, XZZX],
  [("joint ZZ, XX and Z measurements with corrections", CIRC + ":TopologicalCircuit.cx"), ("controlled logical operators", XXZZ + ", " + XZZX + ":cx, x_c_if, z_c_if")],
  ["logical operators after the gate as functions of those before it"])

p("C22", "Conditioned and physically coupled logical gates act exactly as specified",
  "A classically conditioned logical X or Z acts if and only if the register holds the given value, and then exactly as the unconditioned gate. CX with a physical control applies logical X exactly if the control is 1, CX onto a physical target flips it by the logical Z value, both coherently and without touching anything else; giving both or neither partner raises a value error and adds nothing.",
  ["inputs", "histories", "configurations"],
  "Every classical register width, register content and compared value, every joint state of the physical qubit and the lattice, every code and shape.",
  "None of these gates is tested.",
  [XXZZ, XZZX, BASE],
  [("conditioned gates", XXZZ + ", " + XZZX + ":x_c_if, z_c_if"), ("physical coupling", XXZZ + ", " + XZZX + ":cx"), ("argument check", BASE + ":TopologicalQubit.cx")],
  ["the unitary (as stabilizer map) the gate applies"])

p("C23", "The reported logical error rate is the wrongly decoded fraction of shots",
  "The logical error rate of a dictionary of readout counts is the number of shots whose decoded value differs from the expected logical value divided by the number of all shots. It lies between 0 and 1, does not depend on the order or grouping of the counts, and is complementary for the opposite expected value.",
  ["inputs"],
  "Every dictionary of readout strings and counts, both expected values, every decoder, with and without an error probability.",
  "The benchmarking tool has no tests.",
  [BENCH, FL],
  [("weighted count", BENCH + ":TopologicalBenchmark.logical_error_rate")],
  ["returned rate"])

p("C24", "Sweeps report each physical rate with the logical rate measured at it",
  "After a sweep (sequential, multi-process or point by point) the recorded physical error rates are the requested ones in increasing order, and each logical rate next to one is that of simulating the circuit with the requested shots under the noise model for that physical rate, decoded with the degeneracy weights of that rate unless they are turned off. A new sweep replaces the previous results and leaves the caller's list unchanged.",
  ["inputs", "histories"],
  "Every list of rates (unsorted, repeated, of any length), every noise model function and shot count, repeated sweeps, degeneracy weighting on or off.",
  "The benchmarking tool has no tests.",
  [BENCH],
  [("sweeps", BENCH + ":sweep, sweep_mp, single")],
  ["the benchmark's data after the sweep"])

p("C25", "Benchmark files accumulate every point and load back unchanged",
  "Saved data files, under their default name (one per code distance and number of rounds) or one chosen by the user, contain every data point ever appended, paired as measured and sorted by physical rate, and loading a file gives back the same distance, rounds and points. Saving turned off writes nothing; a batch analysis loads every data file of its directory once, ordered by distance.",
  ["histories", "inputs"],
  "Every sequence of sweeps and appends with any values, across new benchmark objects on the same files, any set of files in a directory.",
  "The benchmarking tool has no tests.",
  [BENCH],
  [("append and save", BENCH + ":append_data"), ("load", BENCH + ":TopologicalAnalysis.load_data, TopologicalBatchAnalysis")],
  ["npz files on disk, loaded analyses"])

p("C26", "Identity slots mark exactly the requested qubits and do nothing else",
  "Inserting identities puts exactly one identity on each data qubit and, for the full variant, on each other qubit of that lattice, and on no qubit of any other lattice, and changes no outcome. A noise model attached to identities alone therefore acts exactly at those places and times.",
  ["histories", "configurations"],
  "Every call history and every lattice of every code, also several on one circuit.",
  "Tests use the data variant with noise but never check which qubits carry it; the full variant is untested.",
  [BASE, CIRC],
  [("identity insertion", BASE + ":TopologicalQubit.id, id_data")],
  ["identity instructions in the circuit"])

p("C27", "XXZZ rounds tolerate any single fault inside the measurement circuit",
  "On an XXZZ lattice of distance at least 3 in both directions, a single Pauli fault on any qubit after any operation of any stabilization round but the first, followed by two or more perfect rounds or a full-lattice readout, never changes the decoded logical value if the distance in the decoded direction is 5 or more. At distance 3 the true value always remains a minimum-weight explanation, in particular after a fault on a syndrome qubit in the middle of a plaquette.",
  ["fault_sequences", "schedules", "configurations"],
  "Every circuit location, every Pauli, both bases and every lattice shape with height and width at least 3; distance at least 3 in the decoded direction.",
  "Tests inject faults on data qubits between rounds only; the order of entangling operations is free as far as they can see.",
  [XXZZ, ROT, FL],
  [("order of entangling gates", XXZZ + ":_XXXX.entangle, _ZZZZ.entangle")],
  ["correct_readout"])

p("C28", "Entangling only one plaquette type measures only that type",
  "Entangling just the X-type (Z-type) plaquettes writes exactly the values of the plaquettes of that type onto their syndrome qubits, leaves the syndrome qubits of the other type untouched, and projects nothing else.",
  ["inputs", "configurations"],
  "Any data-qubit state. " + LAT,
  "The single-type variants are never called by the tests.",
  [ROT, BASE],
  [("selection by type", ROT + ":entangle_x, entangle_z"), ("entangling a selection", BASE + ":entangle")],
  ["syndrome qubits and data qubits after the call"])

p("C29", "Drawings show exactly the graph or circuit they are asked for",
  "Drawing a decoder's syndrome, error or matched graph shows every node once, labelled, at its column, negated row and (for several time steps) time, boundary nodes at mid-time, and every edge once, between its nodes and labelled with its weight, and nothing else; it returns the figure and its axes, leaves no figure open if showing is turned off, and changes neither the graph nor other figures. A topological qubit's or circuit's drawing and text are those of its circuit, with the given options.",
  ["inputs", "configurations"],
  "Every decoder shape and number of time steps, every set of hits, with and without error probability; every call history.",
  "Nothing is ever drawn by the tests.",
  [FL, BASE, CIRC],
  [("2-D and 3-D drawing", FL + ":draw, draw3D"), ("circuit drawing", BASE + ":TopologicalQubit.draw, __str__; " + CIRC + ":draw, __str__")],
  ["matplotlib artists on the returned axes", "text drawings"])

p("C30", "Plots show exactly the recorded points, on the axes asked for",
  "Plotting an analysis draws one curve with exactly its physical and logical rates (divided by the number of rounds if asked), on the given axes, on new axes of the given figure, or on a new figure, and on no other; the axes are logarithmic unless turned off, options are passed on. A batch plot shows one curve per data file labelled with its distance and rounds and a break-even line, once logarithmic and once linear, saved into the directory.",
  ["inputs", "histories"],
  "Any points, any number and order of plots on any open figures, any set of data files.",
  "The benchmarking tool has no tests.",
  [BENCH],
  [("plots", BENCH + ":TopologicalAnalysis.plot, TopologicalBatchAnalysis.plot")],
  ["lines, scales, labels of matplotlib axes", "png files"])

p("C31", "A save that is cut short loses no earlier point",
  "If saving a data point fails or is interrupted, or the process dies at any moment of a save or a sweep, the data file still loads and holds every point saved before (and at most the interrupted one besides), other data files are unharmed, a batch analysis of the directory still works, and later saves add to all of it.",
  ["crash_points", "histories", "fault_sequences"],
  "Every point in the execution of a save at which the process is killed or interrupted, every number of bytes the file system still takes, every history of saves and sweeps around it.",
  "The benchmarking tool has no tests, and nothing is ever interrupted.",
  [BENCH],
  [("append and save", BENCH + ":append_data"), ("incremental saving of sweeps", BENCH + ":sweep")],
  ["npz files on disk after the fault, loaded analyses"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
