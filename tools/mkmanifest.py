import json
T={
"C01":("seeded simulation of build histories with failing calls against an independent state-vector model","whatever the histories of up to 20 gates on up to 7 registers (dimension product up to 240) reached; the reference model and the 1e-8 tolerance are trusted; user gates are unitary and placed in ascending neighbouring order"),
"C02":("simulated fault injection inside every build call (allocation, backend, user class) with retry, judged by before/after observation and the reference model","failure points are the calls into numpy/scipy, the backend operations and the user class constructor; asynchronous interrupts inside build calls are not claimed"),
"C03":("simulated backend faults, allocation failures, stalls and interrupts at any line inside run, followed by further runs","interrupts are raised at line boundaries of library code; backends fail by raising before or after an operation"),
"C04":("seeded scheduler pre-empting caller threads at any line, plus adversarial callers that change arguments and results, against the same circuit built alone in a clean process","one circuit is built by one thread at a time; pre-emption is at line boundaries of library code"),
"C05":("seeded scheduler pre-empting threads that run and query one finished circuit, with failing and interrupted runs","pre-emption is at line boundaries of library code and backend operations"),
"C06":("the same history on four backends with faults in some of them, pairwise comparison","the two GPU backends run on a simulated device that follows the documentation of CuPy and computes with NumPy and SciPy: the real cupy is not covered"),
"C07":("seeded histories of gates, seals, runs and failing calls against an acknowledgement ledger","an acknowledged gate is compared by statistics and by the result of later runs"),
"C08":("seeded histories with statistics, text drawings and figures (failing part-way too) at every point against a packing model","figures are judged by the marks and labels they hold, not by their look"),
"C09":("simulated files: short reads, errors, truncation at any byte, replacement between loads, failing allocations and interrupts; the loaded circuit against the declared program","the documented effect of Toffoli on its middle register is taken as given (recorded finding); the number in the header agrees with the declarations"),
"C10":("simulated processes on a simulated disk: failing, torn and short file operations, full disk, kill and restart at any operation, two runners interleaved; every result file judged after every disk change","file contents survive a kill as written (no power loss); renames are atomic; stdout does not fail"),
"C11":("simulated clock stepped at any file operation, backend operation or line, with stalls; recorded durations against simulated elapsed time","elapsed time is what the simulator's monotonic clock counted between opening the circuit file and the end of its run"),
"C12":("simulated processes on a simulated disk: kill, errors, torn writes and full disk at any operation of the header tool, repeated fixes in later years; every file judged after every disk change","one tool at a time; the two interpreter/coding lines the tool knows"),
"C13":("seeded batches of programs in pairs of whole processes with different simulated environments, all observations compared","environments differ in the listed respects only; one interpreter and one numpy build"),
}
NA={
"C14":"pure algebra of constant matrices: nothing to schedule, time or fail, so deterministic simulation adds nothing over evaluating them (a wrong matrix is still seen through results in C01)",
"C15":"pure arithmetic on its arguments: no concurrency, time, I/O or failure for a simulator to control (a wrong conversion is still seen through labels in C01)",
"C16":"a pure text generator whose output does not depend on any schedule, clock, disk or process state; its correctness is a question about all inputs of a Boolean function, which simulation does not address",
}
m={"version":1,
"setup_cmd":"/opt/venv/bin/python -c 'import numpy, scipy.sparse, matplotlib, rich'",
"hooks":{"guard":"none","enable":"no hooks: the checks replace open(), os, time, threading and backend operations from outside, at run time, inside the simulated process","source_commits":[]},
"checks":[{"property":k,"quick_cmd":f"VERIF_TIER=quick python3 check.py {k}","thorough_cmd":f"VERIF_TIER=thorough python3 check.py {k}",
"evidence_file":f"evidence/{k}.json","technique":"deterministic simulation with fault injection: "+t,"level":"exploration",
"level_note":"Seeded search, not exhaustive: a violation is real and replayable, its absence means none was met in the runs reported in the evidence. Assumes: "+n+"."} for k,(t,n) in T.items()],
"not_applicable":[{"property":k,"reason":r} for k,r in NA.items()],
"notes":"One runner, check.py; replay a violation with: python3 check.py --replay FILE. DESIGN.md describes simulator, oracles, findings and seeded bugs."}
json.dump(m,open('MANIFEST.json','w'),indent=1)
