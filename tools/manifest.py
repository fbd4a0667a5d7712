#!/usr/bin/env python3
# writes MANIFEST.json (run by hand when a check is added)
import json
T="deterministic simulation with fault injection: whole interpreter in one process under a simulated kernel with a seeded scheduler; "
C={
"C01":("outputs compared with a sequential reference interpreter","random programs with pipelines, 16..65536-byte pipes, short reads and writes, preemption at every memory access; sampled, so a violation needing a rare combination may be missed"),
"C02":("deadlock, livelock and step-bound detection by the simulated kernel, outputs compared with a reference interpreter","random pipelines and captures with partial readers, jumps and EXIT; sampled"),
"C03":("outputs compared with a reference interpreter that isolates stages","random state changes in stages under preemption; sampled"),
"C04":("descriptor, thread and zombie counts of the simulated kernel between passes, outputs compared with a reference interpreter","random bodies run several times with unopenable files and jumps; sampled"),
"C05":("outputs compared with a reference interpreter","random captured commands and FOR /F options; sampled"),
"C06":("terminal contents checked against the per-stage line sequences","two to four stages echoing to one terminal under preemption at memory accesses; sampled"),
"C07":("each stage alone in one simulated run against the stages together in another","self-differential over arithmetic, comparisons, substitutions, loops and calls; sampled"),
"C08":("outputs compared with a reference interpreter","sequences of builtins and externals to terminal, file and pipe; sampled"),
"E01":("outputs compared with a reference interpreter","random structured programs with jumps, loops, calls, arguments; reads of the script split at random points; sampled"),
"E02":("outputs compared with a reference interpreter","random nestings of scopes; sampled"),
"E03":("error levels and exit code compared with a reference interpreter","random nests of succeeding and failing commands; sampled"),
"F05":("file contents of the simulated disk and outputs compared with a reference interpreter","random combinations and nestings of redirections with unopenable files and short writes; sampled"),
"X01":("every exec recorded by the simulated kernel (arguments, directory, environment, descriptors) compared with a reference interpreter","sequences and pipelines of programs, failing exec; sampled"),
"X02":("exit codes printed by each stage, reap records and zombie counts of the simulated kernel","concurrent programs in several stages, failing exec; sampled"),
}
try: exec(open('/verif/tools/manifest_more.py').read())
except FileNotFoundError: pass
NA={"P01":"single-line textual expansion and arithmetic: no schedule, time, I/O or other party for a simulator to vary; inputs alone decide it (what of it several stages compute at once is C07)",
"P02":"the Windows-only layer (libcu8) is not part of the Linux build and is a pure conversion: nothing for a simulator to schedule or fail",
"P03":"pure text rendering by build-time tools and help files: deterministic by construction, no concurrency, time or multi-party I/O to vary"}
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
for i in ids:
    if i not in C and i not in NA: NA[i]="check not built yet"
m={"version":1,"setup_cmd":"bash sim/build.sh build","hooks":{"guard":"PICOBAT_SIM (unused: no hooks were added)","enable":"the simulator is linked below the unchanged sources with objcopy --redefine-syms and ld --wrap; nothing in /repo is guarded","source_commits":[]},
"checks":[{"property":i,"quick_cmd":f"./check {i} quick","thorough_cmd":f"./check {i} thorough","technique":T+C[i][0],"level":"exploration","level_note":C[i][1]} for i in ids if i in C],
"not_applicable":[{"property":i,"reason":NA[i]} for i in ids if i in NA]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); print(len(m['checks']),'checks')
