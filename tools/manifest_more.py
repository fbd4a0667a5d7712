C.update({
"F01":("contents of the simulated disk after copies under read, write, flush, close, open and disk-full faults compared with a model of COPY","random trees, names, wildcards, concatenations and recursive copies, one or two fault kinds at random points; sampled"),
"F02":("power loss at random points, and faults: whatever COPY reported as done has to be on the durable part of the simulated disk","random copies with power cuts and flush failures; files only, a flushed file counts as named durably; sampled"),
"F03":("crashes, power loss and failing system calls at random points of moves and renames; the simulated kernel checks after every file operation that each content exists in full under one of its names","random trees and moves, also recursive and across devices; sampled"),
"F04":("state of the simulated disk compared with a model of DEL, RMDIR and MKDIR under failing system calls and a second process changing the tree","random trees, names and options; confirmations are avoided here; sampled"),
"D01":("lists printed by FOR and DIR /B compared with a model of wildcards under permuted directory orders and entries appearing and vanishing during the search","random trees and patterns without ambiguity of the shortest match; sampled"),
})
C.update({
"F06":("outputs and error levels of the text commands, alone and in pipelines over chunked reads and with files that cannot be opened or read, compared with an executable specification of each command","random texts and chains; tabs near the edge of the screen and escape sequences in MORE, NUL bytes in FIND and quotes in XARGS are left out; sampled"),
})
C.update({
"F07":("calls of dup, pipe, pthread_create, fork, execve and open are refused at random points of generated scripts, or descriptors are limited to what leaks exceed; the effects of each command are compared with a run without faults: no more commands may fail than calls were refused, none twice or silently, and the script reaches its end","random commands, up to three fault kinds with one to three refusals each; refusals during the start of the interpreter and of opening the script itself are left out; sampled"),
"F08":("cases of all other properties and scripts made of random fragments under damage and up to four fault kinds, with every heap access of the interpreter checked by the simulator, poisoned local variables and stack protection","any crash, abort or heap error is a violation, except exhausting the stack by unbounded recursion; sampled"),
})
C.update({
"E04":("scripts rewritten by their own commands or by another simulated process at any system call, against a reference interpreter that looks at the current content before every command line; for the other process, the output must be that of a change at the moment it happened, between the same outputs","changes that neither the size nor the nanosecond modification time shows are not made; new content shorter than what was executed is not made"),
})
C.update({
"I01":("SIGINT at random system calls of any thread of generated programs, answered from a simulated terminal: with no, the complete output and files of the reference interpreter; with yes, replaced at once, output a prefix of it; asked on the terminal, once per signal","signals arrive at system calls of the interpreter, not between two instructions; with external programs only liveness, crashes and the question are judged"),
"I02":("sequences of readers of one input against a reference model of who takes which line or key, over a simulated terminal, pipes with random chunking and delays, and files; what is read, done, asked and left","on a terminal, input is typed when asked for: the line editor discards what is typed ahead; escape keys are not typed"),
"I03":("TIMEOUT in virtual time under wall clock jumps, stalled system calls, keys and Ctrl-C at random moments: bounds on the time each took, the keys it took, and the terminal mode","lateness is judged with 120 ms of grace plus the stalls injected"),
})
