SETUP="bash tools/setup.sh"
HOOKS=dict(guard="--cfg flowistry_sim", enable='RUSTFLAGS="--cfg flowistry_sim" cargo build --release (flowsim/build.sh)', source_commits=["516c5bb"])
FLOW_NOTE=("Seeded search over programs, inputs and corruptions injected into simulated executions of the MIR that the real analyser analysed; "
 "a violation is a demonstrated influence the analyser misses. Safe, terminating programs of the generator's language without Drop implementations, interior mutability or recursive types; "
 "says nothing about programs or executions not sampled.")
c("C11","python3 flowsim/run.py --property C11","Seeded processing orders of the real solver (hook: choice of the next pending instruction), for the information-flow analysis and random monotone analyses on real control-flow graphs; compared with each other, with a reference solver and by re-application. Nothing is said about orders and programs not sampled.")
for i in ("C12","C13"): c(i,f"python3 flowsim/run.py --property {i}",FLOW_NOTE)
H="Seeded histories against the real analyser in one process, every answer compared with that of a fresh session; says nothing about histories not sampled."
c("C14","python3 flowsim/run.py --property C14",H)
c("C15","python3 flowsim/run.py --property C15",H+" Aborts are unwinds injected at analysis steps (hook).")
c("C16","python3 flowsim/run.py --property C16",H+" Sessions run on threads of which a seeded scheduler lets one proceed at a time, switching at analysis steps (hook) and requests; data races below that granularity are not explored.")
c("C19","python3 flowsim/run.py --property C19",FLOW_NOTE.replace("the analyser misses","the checker does not report")+" Asserts reports that are missing or located in another function, not superfluous ones.")
PN="Real driver processes on an interposed libc; says nothing about seeds and faults not sampled, nor about what bypasses libc. "
c("C17","python3 procsim/run.py --property C17",PN+"Answers are compared as sets of places, slice ranges and influence ranges; their order may differ.")
c("C18","python3 procsim/run.py --property C18",PN+"An error message as the answer counts as a report of failure if a fault fired; a process that cannot be started at all is not considered.")
c("C20","python3 flowsim/run.py --property C20",FLOW_NOTE)

c("C21","python3 procsim/requests.py","Seeded histories of real cargo-flowistry processes; overlaps are decided (one request is held at a chosen call until the other one waits), cargo's own threads are not. Default package layouts only.")
c("C22","python3 flowsim/run.py --property C22",FLOW_NOTE.replace("the real analyser analysed","the real plugin answered for").replace("the analyser misses","the answer does not highlight")+" Asserts highlighting that is missing, not superfluous highlighting; forward influences in the modes that do not look into called functions.")
