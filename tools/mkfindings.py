#!/usr/bin/env python3
# writes KNOWN_FINDINGS.txt: the "fixed:" entries, from /repo's fix: commits (run by hand, never by a check)
import subprocess
M={ # subject -> (properties, what failed)
"flush buffered output before starting":("C08,X01","output buffered before an external program or a clone started came out after the program's, or twice"),
"compare IF ERRORLEVEL":("E03","IF ERRORLEVEL compared the wrong operand"),
"do not free an unset script":("F08","CALL of a missing label freed an uninitialised pointer"),
"initialize the error flag":("E04","an uninitialised flag made an unchanged script look changed or unreadable"),
"save the options of SETLOCAL":("E02","SETLOCAL option: ENDLOCAL restored the new option instead of the old one"),
"reload a modified script even":("E04","a script replaced by one of the same size was not reloaded"),
"do not restart a script modified":("E04","a script whose last line modified it started again from its first line"),
"give the code of EXIT":("E03","EXIT n exited with another code"),
"end the confirmation":("I02","yes/no questions looped for ever at end of input"),
"restart the calls interrupted":("I01","answering no to Ctrl-C lost input or output of interrupted calls"),
"do not prompt with COPY /Y":("F01,I02","COPY /Y and /-Y were exchanged"),
"let rename() replace":("F03","MOVE removed the destination before renaming: a crash or failure in between lost it"),
"notice every time several":("F01,F03","several sources to a non-directory: later sources overwrote the earlier ones"),
"report every error while copying":("F01,F02","COPY ignored read, write and close errors and did not flush to disk: success for an incomplete copy"),
"do not empty a file copied":("F01","COPY a a, COPY a+b a destroyed the content"),
"keep the error level of the commands":("E03","IF and FOR replaced the error level of the command they ran"),
"free the line of FOR":("F08","FOR's parsed line was freed with the wrong function"),
"give the status of RMDIR":("F04","RMDIR of a single directory reported no failure"),
"handle the other arguments":("F04","DEL, RMDIR and MKDIR stopped at the first argument that failed"),
"ask with DEL /P":("I02","DEL /P did not ask"),
"forget the end of file":("C01,F05,F06","after one command had seen the end of its redirected input, the next reader saw an immediate end of file"),
"read one line and no more":("I02,F05","SET /P took more than one line from its input"),
"do not close a file FIND":("F06,F08","FIND closed a null stream for a file it could not open"),
"honour NOT with every":("E01","IF NOT was ignored with some comparisons"),
"make IF ERRORLEVEL true":("E03","IF ERRORLEVEL n was true for n only"),
"do not hold the lock of ECHO":("C01,C02","ECHO blocked on a full pipe held the lock every other ECHO needs: deadlock"),
"do not close a thread that":("C05,C07,X02","a joined thread was detached afterwards: use after free in the C library"),
"wait for all the stages":("C02,C04,C08","only the first stage of a pipeline was waited for"),
"do not run a command whose redirection":("F05,C04","a command whose redirection failed ran all the same, with other streams"),
"select the tokens asked for":("C05","FOR /F tokens= ranges and lists selected wrong tokens"),
"let EXIT free the variables":("E03,F08","EXIT in a called label freed the caller's variables twice"),
"keep nested redirections apart":("F05,C04","a redirection nested in 2>&1 or 1>&2 changed the other stream"),
"order unset variables":("E02,E01,C03","looking up an unset variable compared truncated 64-bit pointers: variables got lost depending on addresses"),
"close the inputs of FOR /F":("C02","EXIT in the body of FOR /F over a command still writing hung"),
"do not wait for the streams":("C02","EXIT hung on the stream of a thread blocked on a full pipe"),
"wait for the children that could":("X02,C04","a child whose exec failed stayed a zombie"),
}
extra={}
try: exec(open('/verif/tools/extra_fixes.py').read())
except FileNotFoundError: pass
M.update(extra)
log=subprocess.run(['git','-C','/repo','log','--format=%h %s','--reverse','6448c32..HEAD'],capture_output=True,text=True).stdout.splitlines()
out=["# Findings of the checks on the original tree.  'fixed:' entries suppress nothing.",
     "# 'finding:' entries (none unless listed below) are printed as KNOWN-FINDING lines.",""]
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    k=[k for k in M if s[5:].startswith(k)]
    if len(k)!=1: raise SystemExit('unmapped: '+l)
    for p in M[k[0]][0].split(','): out.append(f"fixed: property={p} {h} {M[k[0]][1]}")
open('/verif/KNOWN_FINDINGS.txt','w').write('\n'.join(out)+'\n')
