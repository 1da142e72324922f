import json
P=[]
def p(id,title,st,over,q,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
A="src/mqt/qecc/analog_information_decoding/"
p("C01","Syndrome computation in the compiled core is exact and rejects bad sizes",
"For every check matrix and every error vector, the syndrome returned by the compiled core has one bit per check, and that bit is the parity of the positions where the error overlaps the check; a two-sided error yields the Z-check syndrome of its X part followed by the X-check syndrome of its Z part. Inputs whose length does not fit the matrix are rejected with an exception instead of being truncated or read out of bounds. The residual of an error and an estimate is their bitwise exclusive or, and transposing or column-compressing a matrix preserves every entry.",
["inputs"],"all matrix shapes, all matrix contents, all error vectors, including wrong lengths",
"Tests sample the Steane and toric codes with a few errors; the law is over every matrix shape and every vector.",
["include/Code.hpp","src/Utils.cpp","include/Utils.hpp"],
[("matrix-vector product over GF(2)","src/Utils.cpp: Utils::rectMatrixMultiply"),("one- and two-sided syndromes","include/Code.hpp: Code::getXSyndrome, Code::getSyndrome"),("residual, transpose, CSC","src/Utils.cpp: computeResidualErr, getTranspose, toCsc")],
["Code.get_x_syndrome in Python","Utils functions in C++"])
p("C02","GF(2) elimination: rank, solving and stabilizer membership are exact",
"For every binary matrix, the elimination used by the compiled core reports its true rank, and solving a consistent linear system returns a vector that satisfies every equation. Consequently a vector is reported as a stabilizer (or as lying in a row space) exactly when it is a sum of check rows, with the all-zero vector always accepted. Vectors of the wrong length or empty matrices are rejected.",
["inputs"],"all binary matrices (including rank-deficient, wide, tall, with zero rows/columns) and all vectors or right-hand sides",
"Tests use a handful of small full-rank matrices; the elimination has swap, skip and early-stop paths that depend on the matrix.",
["src/GF2.cpp","include/GF2.hpp","src/Utils.cpp","include/Code.hpp"],
[("PLU decomposition column by column","src/GF2.cpp: PluDecomposition::rref, eliminateColumn"),("forward/backward substitution","src/GF2.cpp: PluDecomposition::luSolve"),("rank comparison with an appended column","src/Utils.cpp: Utils::isVectorInRowspace")],
["Code.is_x_stabilizer in Python"])
p("C03","Union-find decoders return well-formed estimates tied to the code and syndrome",
"For every code, syndrome and supported growth mode, decoding terminates, a zero syndrome yields the zero estimate, and otherwise the estimate is a vector with exactly one entry per qubit (two such vectors for a two-sided syndrome) whose set bits are exactly the listed qubit indices. The partition of Tanner-graph nodes into connected components used by the decoder covers every node exactly once and never splits or merges graph components. Decoding the same syndrome again after a reset gives an estimate with the same guarantees.",
["inputs","histories"],"all Tanner graphs, all syndromes, all growth modes, sequences of decode calls with resets",
"Tests decode single errors on three codes; graph shapes, multi-component syndromes and repeated use are unbounded.",
["src/UFDecoder.cpp","src/UFHeuristic.cpp","include/Decoder.hpp","include/Code.hpp"],
[("connected components of a node set","src/UFDecoder.cpp: getConnectedComps"),("neighbour lists with cache","include/Code.hpp: ParityCheckMatrix::getNbrs"),("estimate assembly","src/UFDecoder.cpp: doDecode; src/UFHeuristic.cpp: doDecoding")],
["UFDecoder.decode / UFHeuristic.decode and .result in Python"])
p("C04","The cluster forest keeps disjoint trees with exact sizes and check lists",
"Looking up the representative of any node returns the root of the tree containing it and leaves the forest unchanged. Merging two nodes puts exactly the members of their two trees into one tree, the smaller attached below the larger, adds the sizes, moves all syndrome vertices of the absorbed root to the new root without loss or duplication, and changes nothing in any other tree. Merging nodes already in the same tree changes nothing.",
["inputs","histories"],"all forests and all sequences of find and merge operations",
"Tests merge two or three nodes once; the invariant is over every history of merges.",
["include/TreeNode.hpp"],
[("representative lookup","include/TreeNode.hpp: TreeNode::Find"),("union by size","include/TreeNode.hpp: TreeNode::Union, addFirstToSecondTree")],
["UFHeuristic cluster growth"])
p("C05","Encoded circuits act like the original circuit on noiseless hardware",
"For every supported error-correcting code and every circuit built from gates that code supports, applying the code yields a circuit whose logical action is the original one: encoding maps basis states to the code's logical basis states, each logical gate acts on the encoded qubit as the original gate, syndrome measurement leaves code states unchanged, and decoding returns the encoded qubit's state (for the 18-qubit surface code, which decodes only for a readout: its computational-basis value). The encoded circuit therefore produces the original circuit's measurement statistics on the original classical bits.",
["programs","inputs"],"all circuits over each code's supported gate set, all numbers of logical qubits",
"Tests simulate a few two- or three-qubit circuits per code; the claim is over every circuit.",
["src/ecc/Id.cpp","src/ecc/Q3Shor.cpp","src/ecc/Q5Laflamme.cpp","src/ecc/Q7Steane.cpp","src/ecc/Q9Shor.cpp","src/ecc/Q9Surface.cpp","src/ecc/Q18Surface.cpp","src/ecc/Ecc.cpp"],
[("per-code encoding/decoding/gate emission","src/ecc/*.cpp: writeEncoding, writeDecoding, mapGate, addOperation"),("gate loop","src/ecc/Ecc.cpp: Ecc::apply")],
["apply_ecc in Python"])
p("C06","Every single-qubit error a code claims to correct is corrected",
"For each code of the circuit-encoding framework except the trivial one, a single Pauli error of a kind the code can correct (any Pauli for the 5-, 7- and the two 9-qubit codes, bit flips for the repetition code and the 18-qubit surface code) on any one physical data qubit before a correction round is removed by that round: the encoded state after the round equals the state without the error. This holds for every qubit, every error position and every number of encoded qubits.",
["fault_sequences","programs"],"all single-qubit Pauli faults on all data qubits before a correction round, all logical qubits",
"Tests inject one error kind for some qubits of small circuits.",
["src/ecc/Q3Shor.cpp","src/ecc/Q5Laflamme.cpp","src/ecc/Q7Steane.cpp","src/ecc/Q9Shor.cpp","src/ecc/Q9Surface.cpp","src/ecc/Q18Surface.cpp"],
[("syndrome measurement and conditioned corrections","src/ecc/*.cpp: measureAndCorrect")],
["apply_ecc in Python"])
p("C07","Circuit encoding accounts for every gate, qubit and classical bit",
"Applying a code to a circuit allocates exactly the physical qubits and classical registers the code declares for the number of logical qubits, emits no operation on indices outside them, inserts a correction round every time the configured number of operations has been processed, and never silently drops an input operation: an operation the code does not support is rejected with an exception naming it. A measurement of logical qubit i into classical bit j ends up in classical bit j.",
["programs","configurations"],"all input circuits, all correction frequencies, supported and unsupported gates, arbitrary measurement targets",
"Tests use fixed gate lists with identical qubit and bit numbering.",
["src/ecc/Ecc.cpp","include/ecc/Ecc.hpp","src/ecc/Q3Shor.cpp","src/ecc/Q5Laflamme.cpp","src/ecc/Q7Steane.cpp","src/ecc/Q9Shor.cpp","src/ecc/Q9Surface.cpp","src/ecc/Q18Surface.cpp","include/ecc/Id.hpp"],
[("operation loop, register creation, correction frequency","src/ecc/Ecc.cpp, include/ecc/Ecc.hpp"),("gate mapping and measurement","src/ecc/*.cpp: mapGate")],
["apply_ecc in Python"])
p("C08","CSS and stabilizer code objects are accepted exactly when they are valid",
"Constructing a CSS code succeeds exactly when at least one check matrix is given, both have the same number of columns, every X check commutes with every Z check and the distances are consistent; the constructed object then describes exactly those checks. Constructing a stabilizer code succeeds only if there is at least one generator, all generators have equal length and commute with each other, and, when logical operators are given, both kinds are given, commute with every generator, do not exceed the number of logical qubits, and pair up so that each anticommutes with exactly one operator of the other kind; otherwise it is rejected with the declared exception.",
["inputs"],"all pairs of binary matrices (possibly absent, any shape), all generator and logical-operator lists",
"Tests try a few valid codes and one invalid instance of each kind.",
["src/mqt/qecc/codes/css_code.py","src/mqt/qecc/codes/stabilizer_code.py"],
[("validation of check matrices","css_code.py: CSSCode._check_valid_check_matrices, __init__"),("validation of generators and logicals","stabilizer_code.py: _check_stabilizer_generators, _check_code_correct")],
["CSSCode(...), StabilizerCode(...)"])
p("C09","Computed logical operators of a CSS code are genuine and complete",
"For every valid CSS code, each computed logical operator commutes with all checks of the opposite type, no nontrivial combination of the computed operators is a stabilizer, and their number equals the number of encoded qubits on both sides. The named built-in codes and the bivariate bicycle codes have the advertised number of physical and logical qubits.",
["inputs","configurations"],"all pairs of orthogonal check matrices; all built-in code names and supported sizes",
"Tests check a handful of codes by count only.",
["src/mqt/qecc/codes/css_code.py","src/mqt/qecc/codes/bb_codes.py"],
[("kernel modulo row space via pivots","css_code.py: CSSCode._compute_logical"),("code library","css_code.py: from_code_name; bb_codes.py: construct_bb_code")],
["CSSCode.Lx, CSSCode.Lz"])
p("C10","Code queries on errors: syndromes, stabilizer and logical tests are exact",
"For every CSS or colour code and every error vector, the reported syndromes are the check parities, an error is reported as a stabilizer exactly when it is a sum of checks of its type, two errors are reported as equivalent exactly when their sum is a stabilizer (signs as in the binary form), and a residual is reported as a logical error exactly when it anticommutes with some logical operator of the opposite type.",
["inputs"],"all codes and all error vectors or pairs of error vectors",
"Tests evaluate a few errors on small codes.",
["src/mqt/qecc/codes/css_code.py","src/mqt/qecc/codes/color_code.py","src/mqt/qecc/codes/stabilizer_code.py"],
[("syndromes and logical tests","css_code.py: get_x_syndrome, get_z_syndrome, check_if_logical_*_error; color_code.py: get_syndrome, check_if_logical_error"),("rank-based membership","css_code.py: check_if_*_stabilizer, stabilizer_eq_*_error; stabilizer_code.py: stabilizer_equivalent")],
["methods of CSSCode, ColorCode and StabilizerCode"])
p("C11","Pauli strings and their binary form are faithful, with exact commutation",
"Converting a Pauli string to binary form and back returns the same operator with the same sign for every length, the two halves flag exactly the positions holding X or Y and Z or Y, and strings with other characters are reported as invalid. The commutation test of two operators equals the parity of positions where they hold different non-identity letters, and the syndrome of a Pauli error lists exactly the generators it anticommutes with.",
["inputs"],"all Pauli strings of all lengths with and without sign; all pairs of binary vectors and matrices",
"Tests convert a few short strings.",
["src/mqt/qecc/codes/stabilizer_code.py","src/mqt/qecc/codes/css_code.py"],
[("conversions","stabilizer_code.py: pauli_to_binary, binary_to_pauli_string, is_pauli_string, get_n_qubits_from_pauli"),("symplectic products","stabilizer_code.py: symplectic_inner_product, symplectic_matrix_product, symplectic_matrix_mul, commute, all_commute")],
["module functions of mqt.qecc.codes.stabilizer_code; StabilizerCode.get_syndrome"])
p("C12","Colour and bicycle codes have commuting checks and consistent structure",
"For every odd distance, the hexagonal and square-octagon colour codes have the documented number of qubits, one encoded qubit, check matrix rows that are exactly the listed face memberships (each the inverse of the qubit-to-face lists), faces of even weight and pairwise even overlap. Every bicycle construction from commuting shift polynomials yields orthogonal X and Z check matrices.",
["inputs","configurations"],"all odd code distances; all shift-polynomial exponents and sizes",
"Tests look at a few distances and the five tabulated bicycle codes.",
["src/mqt/qecc/codes/hexagonal_color_code.py","src/mqt/qecc/codes/square_octagon_color_code.py","src/mqt/qecc/codes/color_code.py","src/mqt/qecc/codes/bb_codes.py"],
[("lattice construction","hexagonal_color_code.py, square_octagon_color_code.py: add_qubits, construct_layout"),("bicycle construction","bb_codes.py: _cyclic_matrix_sum, _cyclic_code_check_matrix")],
["HexagonalColorCode, SquareOctagonColorCode, construct_bb_code"])
p("C13","The MaxSAT colour-code decoder returns a minimum-weight consistent estimate",
"For every colour code and every syndrome, the constraint problem built by the decoder is satisfied by a set of switches exactly when toggling these switches turns off all lights, and the answer returned is such a set of minimum size, given as one 0/1 entry per switch. Solving one pattern never influences the answer for a later pattern.",
["inputs","histories"],"all light/switch incidence structures with at least two switches per light, all patterns, sequences of solve calls",
"Tests solve a few patterns for one or two distances.",
["src/mqt/qecc/cc_decoder/decoder.py"],
[("parity constraint chain","decoder.py: preconstruct_parity_constraint, complete_parity_constraint, preconstruct_z3_instance"),("push/pop, validation, extraction","decoder.py: solve, validate_model, count_switches")],
["LightsOut.solve"])
p("C14","Synthesized preparation circuits prepare exactly the requested code state",
"Every preparation circuit returned for a CSS code, by the heuristic or the optimal method, for the logical zero or plus state, prepares a state stabilized by all X and Z checks of the code and by all logical operators of the requested type. The circuit consists of Hadamard initialisation followed by CNOT gates on the code's qubits.",
["inputs","configurations"],"all CSS codes, both target states, both synthesis methods and heuristic settings",
"Tests check a few named codes.",
["src/mqt/qecc/ft_stateprep/state_prep.py"],
[("Gaussian elimination synthesis","state_prep.py: heuristic_prep_circuit, gate_optimal_prep_circuit, depth_optimal_prep_circuit"),("circuit assembly","state_prep.py: _build_circuit_from_list_and_checks, _final_matrix_constraint, _optimal_circuit")],
["heuristic_prep_circuit, gate_optimal_prep_circuit, depth_optimal_prep_circuit"])
p("C15","Propagated fault sets of a preparation circuit are sound and complete",
"For every preparation circuit and error type, the computed set of propagated single-fault errors contains exactly the errors that a single gate fault can leave on the output, up to stabilizers, restricted to those whose reduced weight exceeds what the code tolerates for one fault (one, or the ratio of the correctable weights when the code corrects more errors of that type than its distance promises): no other error and no such error missing; errors combined from several faults are exactly the sums of that many single-fault errors. Reduction always returns an equivalent error of minimum weight.",
["inputs","programs","fault_sequences"],"all CNOT circuits on any number of qubits, all codes, all fault locations and numbers of faults",
"Tests compare fault-set sizes for a few circuits.",
["src/mqt/qecc/ft_stateprep/state_prep.py"],
[("propagation","state_prep.py: _propagate_error, StatePrepCircuit.compute_fault_set"),("coset reduction","state_prep.py: _coset_leader, _remove_trivial_faults, _remove_stabilizer_equivalent_faults")],
["StatePrepCircuit.compute_fault_set(s)"])
p("C16","Verification measurements are stabilizers and detect every dangerous fault",
"Every set of verification measurements returned, whether optimal, heuristic or for several error layers, consists only of operators in the span of the allowed stabilizers, and every error in the fault set it was computed for anticommutes with at least one of them. Hook errors handed to the second set of measurements are those a single fault on a measurement ancilla can leave on the data, and a verification circuit is never returned without measurements for some of the faults it should detect; its second measurements are flagged for the number of errors of the type of their own hook errors.",
["inputs","configurations"],"all fault sets, all check matrices, all ancilla counts and weight bounds",
"Tests check small named codes.",
["src/mqt/qecc/ft_stateprep/state_prep.py"],
[("SAT formulation","state_prep.py: verification_stabilizers, _vars_to_stab, _odd_overlap, _vec_sum"),("covering heuristics","state_prep.py: heuristic_verification_stabilizers, _set_cover, _extend_covering_sets")],
["gate_optimal_verification_stabilizers, heuristic_verification_stabilizers"])
p("C17","Measurement gadgets measure exactly the requested stabilizer",
"For every supported stabilizer weight, order and type, the flagged, unflagged and doubly flagged measurement gadgets, run without noise, leave the data in the state obtained by an ideal measurement of that stabilizer, report its eigenvalue in the requested classical bit and return all flags to zero.",
["inputs","configurations"],"all stabilizer supports and weights supported by the gadget, X and Z type, all flag counts",
"Tests cover weights up to eight by circuit comparison.",
["src/mqt/qecc/ft_stateprep/state_prep.py"],
[("gadgets","state_prep.py: measure_flagged, measure_unflagged, measure_one_flagged, measure_two_flagged and helpers"),("attachment to the preparation circuit","state_prep.py: _measure_ft_stabs, _verification_circuit")],
["functions adding measurement gadgets; heuristic_verification_circuit"])
p("C18","Lookup-table decoding returns a lightest error with the observed syndrome",
"For every CSS code and every syndrome of an error the code can detect, the lookup-table decoder returns an error with exactly that syndrome, of minimum weight among all errors with that syndrome, for X and for Z independently. Decoding a batch gives the same answers as decoding one syndrome at a time.",
["inputs"],"all CSS codes, all syndromes",
"Tests decode a few syndromes of the Steane and Shor codes.",
["src/mqt/qecc/ft_stateprep/simulation.py"],
[("table construction by weight","simulation.py: LutDecoder._generate_lut, generate_x_lut, generate_z_lut"),("lookup","simulation.py: decode_x, decode_z, batch_decode_x, batch_decode_z")],
["LutDecoder"])
p("C19","Noisy preparation simulation keeps data, ancilla and check bookkeeping straight",
"For every preparation circuit of Hadamard gates, controlled-NOT gates and measurements, the simulated circuit contains all gates of the given circuit in order (a pair of Hadamards on a qubit before its first other gate may cancel; a measured qubit is reset), with noise of the given strength on idle qubits, gates, resets and measurements only, and its measurement record maps to the verification ancillas, data qubits and checks in the order the evaluation assumes. Runs flagged by any verification ancilla are discarded, the reported rate is failures over accepted runs per logical qubit, and with zero noise no run of a circuit that prepares the state and verifies it with stabilizers is discarded and no logical error is reported.",
["programs","inputs"],"all circuits and noise strengths",
"Tests estimate statistical rates for one or two codes.",
["src/mqt/qecc/ft_stateprep/simulation.py"],
[("conversion","simulation.py: NoisyNDFTStatePrepSimulator.to_stim_circ, set_p"),("sampling and scoring","simulation.py: logical_error_rate, _simulate_batch, measure_stabilizers")],
["NoisyNDFTStatePrepSimulator.logical_error_rate"])
p("C20","Analog decoding matrices have exactly the prescribed block structure",
"For every check matrix, meta-check matrix and number of rounds, the single-stage matrix is the check matrix with one identity column per syndrome bit stacked over the meta checks, the analog matrix repeats this construction with one virtual check per syndrome bit, and the multi-round matrix is block diagonal in data columns with the time-like staircase coupling each round only to itself and its successor.",
["inputs"],"all matrix shapes and contents, all numbers of rounds",
"Tests compare one or two small matrices.",
[A+"utils/simulation_utils.py",A+"simulators/analog_tannergraph_decoding.py",A+"simulators/memory_experiment_v2.py"],
[("single-stage matrix","simulation_utils.py: build_single_stage_pcm"),("analog matrix","analog_tannergraph_decoding.py: get_analog_pcm"),("multi-round matrix","memory_experiment_v2.py: build_multiround_pcm")],
["the three builders"])
p("C21","Noise channels, sign maps and analog values follow the documented formulas",
"For every input, the X, Y and Z error channels are nonnegative, in proportion to the bias, and sum to the physical rate; binary, signed and analog syndromes convert into each other without changing any bit; the analog values initialising a decoder lie between 0 and one half and grow as the reading approaches zero; rate and width conversions are inverse to each other; sampled errors toggle only the input residual with Y toggling both parts.",
["inputs"],"all rates, biases (including infinite), array sizes, analog readings and random draws",
"Tests fix a few parameter values and cannot fix the random draws.",
[A+"utils/simulation_utils.py"],
[("channel setup and sampling","simulation_utils.py: error_channel_setup, generate_err, generate_syndr_err"),("conversions","simulation_utils.py: get_signed_from_binary, get_binary_from_analog, get_analog_llr, get_virtual_check_init_vals, get_sigma_from_syndr_er, get_error_rate_from_sigma")],
["functions of simulation_utils"])
p("C22","Repeated-round decoding windows carry exactly the right syndromes forward",
"In a repeated-measurement memory experiment with an even window size, for every number of rounds that fill the windows and every syndrome history, moving the window keeps the not yet decided second half as the new first half, clears the rest, and never changes the number of columns; difference syndromes telescope back to the raw syndromes; every window is decoded with the channel probabilities of its own kind; the committed correction is exactly the sum of the decoded data corrections of committed rounds, and the final round is always fully committed.",
["inputs","histories"],"all syndrome histories, all check matrices, all window sizes and numbers of rounds",
"Tests run one tiny code for a couple of rounds.",
[A+"simulators/memory_experiment_v2.py",A+"simulators/quasi_single_shot_v2.py"],
[("window shift","memory_experiment_v2.py: move_syndrome"),("window decoding","memory_experiment_v2.py: decode_multiround"),("updated virtual values","memory_experiment_v2.py: get_updated_decoder")],
["move_syndrome, decode_multiround"])
p("C23","Reported error rates, error bars and merged datasets are exact",
"For every success count, run count and number of logical qubits, the logical error rate is one minus the success ratio, the word error rate is its exact per-logical-qubit root form, all lie between 0 and 1, the error bar is the binomial standard error of the logical error rate, and the word error bar is this error bar propagated through the same root formula. Merging result sets of the same configuration adds successes and runs (X and Z counts included) and recomputes the rates from these totals, independent of order and grouping, and never mixes different configurations.",
["inputs","histories"],"all counts, all numbers of logical qubits, all lists of datasets in any order",
"Tests use a few numbers and two files.",
[A+"utils/data_utils.py","src/DecodingSimulator.cpp"],
[("rates","data_utils.py: calculate_error_rates, _combine_*"),("merging","data_utils.py: merge_datasets, _merge_datasets_x, _merge_datasets_z, merge_datasets_xz")],
["calculate_error_rates, merge_datasets"])
p("C24","Result files never overwrite an earlier run and round-trip their parameters",
"For every flat set of parameters and every state of the result directory that no other process changes during the call, the path chosen for a new result lies in the requested directory, did not exist before the call, exists afterwards as an empty reservation, and differs from every earlier choice; no existing file is modified. Infinite values are replaced recursively before writing and nothing else is changed.",
["inputs","histories"],"all parameter dictionaries, all prior directory contents, all sequences of calls",
"Tests create one or two paths.",
[A+"utils/data_utils.py",A+"utils/simulation_utils.py"],
[("path choice","data_utils.py: create_outpath"),("infinite values","data_utils.py: replace_inf")],
["create_outpath, replace_inf"])
p("C25","Product-code constructions give boundary maps that compose to zero",
"For every set of binary seed matrices, the three- and four-dimensional product constructions return boundary maps of matching shapes such that consecutive maps compose to zero modulo two, the X checks, Z checks and meta checks derived from them are orthogonal, and the dense and sparse constructions describe the same code.",
["inputs"],"all seed matrices of all shapes with composable chains",
"Tests (if any) build one example.",
[A+"code_construction/code_constructor.py",A+"code_construction/sparse_code_constructor.py"],
[("hypergraph product of chain complexes","code_constructor.py: hypergraph_product_of_boundary_maps / create_*d_product functions"),("sparse counterparts","sparse_code_constructor.py")],
["code constructor functions"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
