PY = "deductive contracts: verification conditions generated from the /repo Python source on every run, discharged by z3; bounded runtime-contract replay on the real code"
CXX = "deductive contracts: verification conditions generated from clang's AST of the /repo C++ source on every run, discharged by z3; bounded replay on the compiled real code"
CLAIMS = {
 "C01": ("proof", CXX, "syndromes, residual, transpose and CSC conversion, constructors and rejections proved for every shape, content and length"),
 "C02": ("proof", CXX, "column elimination, substitution, decomposition, row-space test and stabilizer queries proved for every matrix and vector; textbook GF(2) facts connecting echelon form, rank and solvability assumed"),
"C03": ("proof", CXX, "component search, neighbour cache, growth with termination, validity, local estimates, assembly and the split of two-sided syndromes proved for every graph, syndrome and mode of UFDecoder; UFHeuristic: lookup, initial components, assembly, reset and that all its steps stay on nodes of the graph; termination of the heuristic is bounded replay"),
 "C04": ("proof", CXX, "lookup and merge proved for every forest against the ghost root and depth of every node"),
 "C05": ("proof", CXX, "every emitted block proved for any number of logical qubits, any targets, controls and correction frequency; the meaning of each block decided by exact stabilizer calculus on one (or two) code blocks; composition over the circuit by the state invariant; one known finding (Q18Surface H)"),
 "C06": ("proof", CXX, "every correction round proved against every single-qubit error of the code's correctable kinds on every data qubit, for any number of logical qubits"),
 "C07": ("proof", CXX, "registers, operands, acceptance of every operation type, order, rounds and measurement targets proved for all circuits, sizes and frequencies"),
 "C08": ("proof", PY, "all functions under contract proved for every shape and content; numpy integers mathematical; mod2.rank assumed"),
 "C09": ("proof", PY, "_compute_logical proved structurally for all inputs relative to assumed contracts of ldpc.mod2; stored codes and bicycle codes enumerated completely by the replay; counting lemma assumed"),
 "C10": ("proof", PY, "every query proved for all codes and errors; rank-based queries relative to the assumed contract of ldpc.mod2.rank"),
 "C11": ("proof", PY, "every function proved for every length and content"),

 "C12": ("proof", PY, "colour-code rows, qubit counts, layout and geometry proved for every odd distance; bicycle construction proved for every torus and exponent lists; commuting polynomials and matrix_power assumed"),

 "C13": ("proof", PY, "constraint construction, parity meaning, validation and solve proved for all problems; z3.Optimize by assumed contract"),
 "C14": ("proof", PY, "heuristic and optimal synthesis, circuit assembly and search proved for all codes and sizes; z3 models, CNOT action on the check space and dimension count assumed"),
 "C15": ("proof", PY, "fault sets, propagation, combination, coset reduction and both filters proved for all circuits, codes and numbers of faults; z3 models and the circuit graph by assumed contract"),
 "C16": ("proof", PY, "covers, layers, optimal search, hook errors and circuit assembly proved for all codes, preparations and fault sets; z3 models and qiskit circuit operations by assumed contract"),
 "C17": ("proof", PY, "every gadget proved for every weight, type and qubit order against an exact circuit monitor; qiskit circuit operations by assumed contract"),
 "C18": ("proof", PY, "table generation, sharing, decoding and batches proved for every code size; enumeration of binary vectors, min and byte-string equality assumed"),
 "C19": ("proof", PY, "conversion gate by gate, check and data measurement, scoring and rates proved for all circuits, sizes and noise strengths; qiskit layers and stim by assumed contract"),
 "C20": ("proof", PY, "all three builders proved for every shape, content and number of rounds; scipy.sparse modelled by its dense meaning"),
 "C21": ("proof", PY, "every function proved over real arithmetic for all inputs and draws; floating-point rounding not modelled; exp/erfc by assumed axioms"),
 "C22": ("proof", PY, "window shift, window decoding in all modes, telescoping and the sample loop proved for all round counts and window sizes; decoders arbitrary"),
 "C23": ("proof", PY, "rates, merging and the sample loops proved for all counts and list lengths; json walking by bounded replay; one known finding on the word error bar"),
 "C24": ("proof", PY, "path choice proved for all parameter values and file-system states, saving functions and infinity replacement proved; no concurrent writer"),
 "C25": ("proof", PY, "both product constructions, checks, logicals, storing and create_code proved for all dimensions; matrix algebra laws assumed; bposd.hgp by assumed contract"),
}
TODO = "check not built yet"
NOT_APPLICABLE = {f"C{i:02d}": TODO for i in range(1, 26) if f"C{i:02d}" not in CLAIMS}
