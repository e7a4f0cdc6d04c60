import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
Q="src/qudiet/core/quantum_circuit.py";F="src/qudiet/core/operator_flow.py";M="src/qudiet/core/moment.py"
G="src/qudiet/circuit_library/standard_gates/"
p("C01","A run returns exactly the state of the acknowledged gate calls",
 "Running a measured circuit returns, for every basis state, the amplitude (or, in probability mode, its squared magnitude) obtained by applying exactly the acknowledged gate calls, in call order, to the declared initial state, labelled by the digit of every register. The Fourier (H), shift (X), phase (Z), controlled shift (fires on the control's top level), multi-controlled shift and user-defined gates (one register, or neighbouring registers named in ascending order; descending order is a recorded finding) act by their textbook definition on registers of any dimension and position, controls lying on either side of the target. Rejected calls, failed calls, queries and earlier runs lying in between make no difference.",
 ["histories","fault_sequences","configurations"],
 "Every history of build calls, rejected calls, calls that fail part-way, queries and (failed) runs; every register layout (list or (count, dimension) tuple, mixed dimensions), initial state, output mode and backend.",
 "The tests build about ten fixed circuits, nearly all without superposition, never mix failures or queries into a history, and several end in 'assert True'; layer packing depends on the whole call history, so no handful of circuits settles it.",
 [Q,F,M,G+"h.py",G+"x.py",G+"z.py",G+"cx.py",G+"toffoli_utility.py","src/qudiet/circuit_library/__init__.py","src/qudiet/core/output.py","src/qudiet/core/init_states.py","src/qudiet/utils/numpy.py","src/qudiet/utils/linalg.py"],
 [("layer packing: a single-register gate joins the last layer if its register is idle there",F+" populate_opflow_test, "+M+" replace_igate"),("layer product, last to first",F+" exec, "+M+" exec"),("digit labelling of the non-zero entries","src/qudiet/core/output.py __call__")],
 [("operator flow list","the layers accepted so far, first one holds the initial states",F),("measurement count","which registers are sealed",F)],
 ["QuantumCircuit.run()","return values of h/x/z/cx/toffoli/gate/measure_all"])
p("C02","A gate call that fails leaves the circuit as it was and can be retried",
 "When a gate call does not succeed (register outside the circuit, negative or named twice, a shift by no whole number of levels, a user gate that raises while being built, array memory or the backend failing at any point inside the call) it raises, and the circuit keeps exactly the gates, statistics, drawing and eventual result it had before. Repeating the call once the cause is gone succeeds and applies the gate exactly once. Declaring a circuit that cannot exist (no register at all, a dimension below two, a start state its register does not have or that is no whole number, more start states than registers, a tuple that is not a number of registers and their dimension) is refused with an error. A circuit is never left in a state in which a call was accepted but no run can succeed because of where the gate was placed (the two placements for which the code is known to break this are recorded findings).",
 ["fault_sequences","histories"],
 "Every build history and every point inside every call at which an allocation, a backend operation or a user gate class fails, and every illegal placement.",
 "No test makes any call fail; the failure points inside a call are many and their effect shows only in the result of later, successful calls.",
 [Q,F,M,G+"toffoli_utility.py",G+"cx.py","src/qudiet/core/init_states.py"],
 [("placement validation before anything is recorded",Q+" __validate_gate_inputs"),("gate object is fully built before the layer list is touched",Q+" h/x/z/cx/toffoli/gate -> __add_moment_to_opflow")],
 [("operator flow list","must change only when the call is acknowledged",F)],
 ["exceptions and return values of the gate calls","get_circuit_info(), get_circuit_config(), str(circuit), run()"])
p("C03","A failed or interrupted run is harmless, and a run never returns a wrong result",
 "A run either raises or returns the complete, correct result, whichever backend operation or allocation fails or stalls and at whatever instant the caller is interrupted. No run, whether it succeeds, fails or is interrupted, changes the circuit: any later run on a healthy backend returns the same correct result, as often as it is repeated. A circuit that holds a user-defined gate whose matrix is not unitary or has not the size of its registers never returns a result.",
 ["fault_sequences","crash_points","histories"],
 "Every finished circuit and every sequence of runs with a failure (out of memory, device error before or after the operation, stall) or an interrupt at any instant inside a run, in any output mode and on any backend.",
 "The tests run each circuit once on a healthy backend; nothing exercises a second run or any failure inside a run.",
 [Q,F,M,"src/qudiet/core/output.py","src/qudiet/core/backend/core.py"],
 [("run works on a copy of the layer list",F+" exec"),("layers compute their operators afresh on every run",M+" exec; unitary of every gate"),("last result is stored only after it is complete",Q+" run")],
 [("operator flow list","must be the same before and after every run",F)],
 ["QuantumCircuit.run()"])
p("C04","Circuits never influence one another or the arguments they were made from",
 "Circuits built, queried, drawn, loaded and run by any number of caller threads in any interleaving (figures by one thread at a time, as pyplot demands) behave exactly as if each existed alone, even when they were created from the same register list, initial-state list, gate class, output object or backend. Lists passed in (registers, initial states, gate placements) are never modified, and changes the caller makes to them after the call never reach the circuit; changing a returned result, statistic or drawing changes nothing either.",
 ["schedules","histories"],
 "Every set of circuits, every sharing of arguments between them and every interleaving of their callers, pre-empted at any statement of the library.",
 "The tests only ever have one thread and practically one circuit alive at a time; every argument is a fresh literal.",
 [Q,F,M,"src/qudiet/core/output.py","src/qudiet/circuit_library/__init__.py",G+"toffoli_utility.py","src/qudiet/qasm/qasm_parser.py"],
 [("no module-level or class-level mutable state","all of src/qudiet"),("own copies of register and initial-state lists",Q+" __init__")],
 [("register and initial-state lists","per circuit, private",Q)],
 ["run(), get_circuit_info() and the passed-in lists"])
p("C05","A finished circuit can be run and queried by many threads at once",
 "Once a circuit is measured, any number of threads may run, query and print it at the same time, pre-empted at any point and with some of the runs failing or being interrupted; every run that returns hands its caller the complete correct result, every query reports the same facts as when called alone, and afterwards the circuit is unchanged.",
 ["schedules","fault_sequences"],
 "Every measured circuit, every set of concurrent runs and queries, every interleaving at statement granularity, every failure point in some of them.",
 "No test uses a thread; a race in run() needs a pre-emption at a particular statement and never shows in sequential tests.",
 [Q,F,M,"src/qudiet/core/output.py"],
 [("run only reads the circuit and works on a private list copy",F+" exec, "+Q+" run")],
 [("operator flow list","shared by all running threads, read-only",F),("last result of the circuit","written by every run",Q)],
 ["return value of run() per thread"])
p("C06","The choice of backend never changes the answer",
 "The same build history is accepted, and gives the same amplitudes, on the NumPy, sparse, GPU and GPU-sparse backends, whether the backend is given as its class or as an object of it; a user-defined gate that is not unitary or does not fit is refused by all of them. When the backend of one of them fails or stalls, that caller sees an error or the same amplitudes, never different ones, and the others are unaffected.",
 ["configurations","histories","fault_sequences"],
 "Every build history, replicated over all backends (GPU backends on a simulated device), with operations of any of them failing or stalling.",
 "Backends are exercised on one three-gate circuit each with 'assert True', the GPU ones not at all (no device).",
 ["src/qudiet/core/backend/NumpyBackend.py","src/qudiet/core/backend/SparseBackend.py","src/qudiet/core/backend/CUDABackend.py","src/qudiet/core/backend/CUDASparseBackend.py","src/qudiet/core/backend/__init__.py","src/qudiet/core/output.py",M,F],
 [("backend operations kron/dot/eye/matrix/is_unitary as the only place where representations differ","src/qudiet/core/backend"),("sparse results are densified before reporting","src/qudiet/core/output.py")],
 None,["QuantumCircuit.run() per backend"])
p("C07","Measurement seals the circuit and acknowledgements are truthful",
 "Running a circuit that has not been measured is refused with an error. After measure-all has been acknowledged, no later call can change the circuit's result, depth or gate counts: every gate call then returns False (or raises for an illegal placement), and repeating measure-all changes nothing. At any time a gate call returns True exactly when the gate is part of every later result.",
 ["histories","fault_sequences"],
 "Every order of gate calls, measure-all calls, failing calls and runs.",
 "No test calls anything after measure_all, runs an unmeasured circuit, or looks at a gate call's return value.",
 [Q,F],
 [("measurement count blocks further layers",F+" populate_opflow_test"),("refusal to run an unmeasured circuit",F+" exec"),("return value handed through by the gate calls",Q)],
 [("measurement count","per register: sealed or not",F)],
 ["return values of gate calls","run(), get_circuit_config(), get_circuit_info()"])
p("C08","Statistics and drawings tell the truth at every moment and change nothing",
 "At every point of any history the width is the number of registers, the gate counts are the acknowledged gates by kind, and the depth is the number of layers, where a single-register standard gate joins the last layer if its register is idle there and every other gate opens a new layer; both depth reports agree, measured or not. Every query and drawing succeeds; text drawing and figure show the registers with their dimensions and initial states, every acknowledged standard gate on its own registers in call order (the figure user-defined gates as well), and the final measurement. Asking, printing or drawing (text or figure), however often and whether or not it fails, never changes later answers or results.",
 ["histories","fault_sequences","configurations"],
 "Every history with queries and drawings at every point, every register layout, drawings failing part-way.",
 "One test asks one circuit once for width and depth; drawing and circuit information are never called by the tests.",
 [Q,F,M,"src/qudiet/utility/circuit_draw.py"],
 [("statistics computed from the layer list",Q+" get_circuit_config, get_circuit_info"),("text drawing from the layer list",Q+" __str__"),("figure drawing from the layer list","src/qudiet/utility/circuit_draw.py draw_circuit_mpl")],
 None,["get_circuit_config(), get_circuit_info(), str(circuit), draw()"])
p("C09","Loading a circuit from QASM is all or nothing",
 "Loading a QASM file either raises or yields the circuit that the complete file describes, measured and on the requested backend, whatever the layout of the file (comments in any script whatever the locale, blank lines, indentation, commas, upper or lower case of instruction names, register declarations by name or dimension and in any order). A program with an instruction that is not supported, an operand its instruction does not have, or with registers that are not declared exactly once and numbered from zero, is refused rather than loaded without them. A file that is missing, unreadable, read in small pieces, fails while being read, or was cut off anywhere before its end marker is never loaded as a different circuit, and no file is left open. Loading text gives the same circuit as loading a file holding it, and loading again gives the same circuit again.",
 ["fault_sequences","inputs","crash_points"],
 "Every program of supported instructions (X, RX 180, H, Z, CX/CNOT, two-control Toffoli, which raises its middle register by one level) in every layout, every truncation point, every line that is no supported instruction or declaration, every read failure and read size.",
 "Three fixed programs are loaded from healthy inputs, one of them into 'assert True'.",
 ["src/qudiet/qasm/qasm_parser.py"],
 [("end marker required","src/qudiet/qasm/qasm_parser.py circuit_from_qasm"),("whole file read before anything is parsed","src/qudiet/qasm/qasm_parser.py parse_qasm")],
 None,["parse_qasm(), circuit_from_qasm(), run() of the loaded circuit"])
p("C10","The batch runner never loses, tears or mixes up results",
 "After a batch run over a directory every circuit file has a result file that is either complete and holds the right answer for that circuit, or is exactly what it was before the run; a circuit that cannot be read, parsed, run or saved is reported and never keeps the others from being processed. This holds when any file operation fails, when the disk fills up, when two batch runs work on the same directory, and when the run is killed at any instant, after which a new run completes the missing results. Listing results reports damaged result files and still lists all the others.",
 ["crash_points","fault_sequences","schedules"],
 "Every directory of good and bad circuit files with or without earlier results, every file operation failing, every kill instant, every directory order, every interleaving of two runs.",
 "The batch runner has no test at all.",
 ["experimental.py"],
 [("per-file error handling","experimental.py routine"),("result written under a temporary name and moved into place","experimental.py routine")],
 [("result file next to its circuit file","durable outcome of the batch","experimental.py routine")],
 ["files in the directory, console output and warnings"])
p("C11","Reported durations measure elapsed time whatever the clock does",
 "The loading and execution times the batch runner records are never negative and equal the time that really passed between the steps, including stalls of the backend, no matter how the system's wall clock is stepped forwards or backwards during the run.",
 ["fault_sequences","histories"],
 "Every batch of circuits with clock steps and backend stalls at any instant.",
 "The batch runner has no test, and no test controls a clock.",
 ["experimental.py"],[("clock read before and after each step","experimental.py routine")],None,["'loading-time' and 'execution-time' in the result file"])
p("C12","Fixing licence headers never loses a line of source",
 "When the header tool fixes files, each file at every instant is either as it was or has exactly the header inserted after the leading interpreter and coding lines it recognises with every original line, its line ending and the permissions of the file kept, also when the tool is killed at any instant or any file operation fails (full disk, I/O error). Files the tool has no business with are never written. A file reported as fixed is fixed, and check changes nothing and names exactly the files that a fix would change. Once a fix has completed, check accepts the files and another fix, in this year or a later one, changes nothing. When a directory or file cannot be read, the tool does not end as if all were well.",
 ["crash_points","fault_sequences","histories"],
 "Every tree of source files, every kill instant, every failing file operation, repeated runs and restarts, also across a change of year.",
 "The tool has no test; its risk lies between truncating a file and writing it back.",
 ["scripts/license-headers.py"],
 [("whole file read before it is rewritten, rewritten file moved into place","scripts/license-headers.py add_header_to_file"),("header detection","scripts/license-headers.py does_file_need_fix")],
 [("source file on disk","the only copy of the user's work","scripts/license-headers.py")],["file contents after the run or crash"])
p("C13","The same program gives the same answers in every process",
 "Given the same sequence of calls, two processes produce the same results, statistics, drawings and loaded circuits, whatever the hash seed, the working directory, locale, time zone and clock, the interpreter's optimisation and development modes, the state of the garbage collector, the memory layout, the state of the global random generators and whatever other circuits the process has handled before or in between.",
 ["configurations","histories","schedules"],
 "Every program, run under every pair of process environments.",
 "All tests run in one process with one fixed hash seed.",
 ["src/qudiet/qasm/qasm_parser.py",Q,F,M,"src/qudiet/core/output.py"],
 [("no dependence on set order, object identity, time or random numbers","src/qudiet/qasm/qasm_parser.py circuit_from_qasm (set of Toffoli registers), all of src/qudiet")],
 None,["run(), get_circuit_info(), str(circuit) across processes"])
p("C14","Standard gate matrices are unitary and satisfy the Weyl relations",
 "For every dimension d the matrices of X, Z and H are unitary, X and Z have order d, ZX equals w XZ for w the primitive d-th root of unity, and H conjugates X into Z; controlled and multi-controlled shifts are permutation matrices.",
 ["inputs"],"Every dimension and shift.",
 "Only the dimension-2 Hadamard and three permutations are checked.",
 [G+"h.py",G+"x.py",G+"z.py",G+"cx.py",G+"toffoli_utility.py"],
 [("matrix construction per gate",G)],None,["unitary of a gate object"])
p("C15","Mixed-radix digits and indices are inverse to each other",
 "For every list of dimensions and every index below their product, converting the index to digits and back gives the index, every digit is below its dimension, and the conversion is monotone.",
 ["inputs"],"Every list of dimensions and every index.",
 "Six fixed conversions.",["src/qudiet/utils/numpy.py"],
 [("repeated division from the last digit","src/qudiet/utils/numpy.py Nbase_to_bin, bin_to_Nbase")],None,["Nbase_to_bin, bin_to_Nbase"])
p("C16","The tree decomposition computes the multi-controlled NOT",
 "For every number of lines and every binary input, the circuit generated by the decomposition tool flips the last line exactly when all the others are 1 and restores every other line, using the announced number of ternary and quaternary gates.",
 ["inputs"],"Every number of lines and every input.",
 "The script's own random tests are unseeded, not collected, and sample ten inputs.",
 ["test_circuit/circuit.py","test_circuit/useQudiet.py"],
 [("breadth-first decomposition and mirrored uncomputation","test_circuit/circuit.py simulate, get_reflection")],None,["RUN_CIRC(n, inputs)"])
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: print(x["id"],x["statement"].count(". ")+1,len(x["title"]))
