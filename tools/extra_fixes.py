extra.update({"do not crash on integer divisions":("F08","SET /A divided integers by zero: SIGFPE")})
extra.update({"report the failure of any source in COPY /R":("F01","COPY /R of several sources returned only the status of the last one"),
"remove the moved directories, not their copies":("F03","MOVE /R left the source directories, removed destination ones, and forgot failures"),
"do not delete files in RMDIR":("F04","RMDIR with several names or /S deleted plain files"),
"tell directories from files in FOR":("D01","FOR %%f in (wildcard) visited directories or left out files depending on uninitialised memory"),
"let a final asterisk match an empty sequence":("D01","the pattern x* did not match x"),
"report the directories that can not be read":("F01,F04","COPY, MOVE, DEL, RMDIR reported success when a directory could not be read"),
})
extra.update({"display every file given to TYPE":("F06","TYPE a b c left out files"),
"count the word that ends a file":("F06","WC /W missed a word at the end of the file"),
"count the bytes of the standard input":("F06","WC without switch printed nothing for the standard input"),
"go on after a file that MORE can not open":("F06","MORE crashed on a file it could not open"),
"keep the blank lines that follow a broken line":("F06","MORE lost blank lines after a line of 79 columns"),
"report what TYPE, FIND, WC and MORE can not read":("F06","read errors were taken for the end of the file"),
"ignore directories in FIND":("F06","FIND kept the directories among its files and reported an error"),
})
extra.update({
"leave no dangling entry in the command list":("F08","a command list entry pointed to freed memory after a failed allocation"),
"handle interrupts only once the interpreter is set up":("F08","Ctrl-C during start crashed in the handler"),
"report fatal errors before set up":("F08,F07","a failure during start crashed in the error message; fatal errors waited for a key on pipes and files"),
"report malformed blocks instead of crashing":("F08","an unterminated block read past the end of the line"),
"check the allocation of variable blocks":("F08","a failed allocation of a variable block was dereferenced"),
"evaluate both sides of AND in IF expressions":("E01","`a or b and c`: the right side of AND was skipped and an uninitialised result used"),
"report malformed IF expressions instead of crashing":("F08","IF with a malformed bracketed expression crashed"),
"give AND precedence over OR in IF expressions":("E01","OR bound tighter than AND, against the manual"),
"show the help of MOVE instead of crashing":("F08","MOVE /? followed a NULL list"),
"keep very long file names within their buffers":("F08","file names beyond FILENAME_MAX overflowed fixed buffers"),
"survive the files that FOR /F can not open":("F08","FOR /F closed a NULL stream, and named the wrong file, when a later file could not be opened"),
"fail only the command for which no pipe can be created":("F07","one failing pipe() ended the interpreter"),
"fail only the command whose streams can not be redirected":("F07","one failing dup() ended the interpreter; in a forked child, it flushed the output of its parent a second time"),
"fail only the command for which no thread can be started":("F07","a failing pthread_create() ended the interpreter"),
"name the function that can not duplicate a descriptor":("F07","the message printed a pointer"),
"show the continuation prompt only for typed lines":("E01","with /A:C, multi-line blocks of a script printed > prompts"),
"notice a script replaced while it is being loaded":("E04","a script renamed over between the opening and the stat() of its loading was never noticed"),
"start a script that calls itself at its first line":("E04","CALL of the running script started at the line after the CALL"),
"find indented labels in command line compatible mode":("E04","with /A:C, GOTO missed or mistook labels that are indented"),
"poll for a key only on a terminal, and leave its settings alone":("I03","with input from /dev/null TIMEOUT polled an uninitialised count and ended early; on a terminal it left line editing off"),
"have TIMEOUT wait for the time given, and take the key that ends it":("I03","TIMEOUT counted its sleeps: early when interrupted, late when calls stall; one key ended every following TIMEOUT"),
"leave it to the interpreter to ask about Ctrl-C while it starts a command":("I01","between fork and exec the child process asked the question too"),
"have PAUSE take a single character of redirected input":("I02","PAUSE took a whole buffer of redirected input from the readers after it"),
"ask again where the question was asked":("I02","the hint after an invalid answer went to another stream than the question"),
"report the actual reason of failures":("I02","the Reason: of an error was that of a call made while reporting it"),
"ask about Ctrl-C on the terminal, not in the files of the interrupted command":("I01","the question was written to, and answered from, the redirections and pipes of the interrupted command"),
"do not start over on Ctrl-C once the interpreter is ending":("I01","Ctrl-C while the interpreter ends crashed it"),
"ask about Ctrl-C once at a time":("I01","pressing Ctrl-C again split one answer between two questions"),
"accept SHIFT /7":("E02","SHIFT /7 was refused as an invalid option"),
"do not list removed variables in SET":("E02","SET listed variables that had been removed"),
"keep the blanks at the end of inherited variables":("X01","trailing blanks of inherited values were lost"),
"do not loop for ever replacing an empty pattern":("C02","%a:=x% never ended"),
"find the local variables of procedures whatever the other names":("E02","with lower-case variables, local variables of DEF procedures were not found and leaked to the caller"),
"do not let new variables inherit because removed ones did":("E02","a variable set in a procedure over a removed inheriting one outlived or vanished wrongly"),
"let procedures remove their local variables":("E02","set _x= in a procedure did not hide the local variable of the caller"),
"do not pass removed variables to external programs":("X01","an inherited variable removed by set x= was still in the environment of external programs"),
"keep the empty arguments after the ninth":("E02","SHIFT dropped empty arguments that came from after %9"),
"do not skip the empty lines of the input of FOR /F":("C05","FOR /F skipped empty lines although only CMDLYCORRECT should"),
"MORE prints a screen of lines before its first prompt":("I02","MORE on a terminal printed an arbitrary number of lines before its first prompt (uninitialised count)"),
"end MORE when the user quits and when the input of its prompt ends":("I02","Q at the prompt of MORE went on with the next file, and at end of input it prompted for ever"),
"CD and PUSHD to the root directory and through \"..\" above it":("X01","after cd .. into the root the current directory was the empty string and programs were started elsewhere; .. above the root dropped the rest of the path"),
"do not take absolute paths as relative ones in CD and PUSHD":("X01","cd /x went to the x of the current directory if /x did not exist"),
"report the exit code of programs run by the start script":("X02","START /WAIT of a program run by %PBAT_START_SCRIPT% left 256 times its exit code in %ERRORLEVEL%"),
"do not go on as an interpreter when the start script cannot be run":("X02","when %PBAT_START_SCRIPT% could not be run, the forked copy of the interpreter asked for a key and flushed copied streams"),
"do not hand descriptors of the interpreter down to the start script":("X01","programs started by %PBAT_START_SCRIPT% kept the pipes of the interpreter open"),
"ignore /MIN and /MAX of START, as documented":("X01","START /MIN prog ran a program named /MIN"),
"do not ask for the end of file twice in TYPE":("I02","TYPE of a terminal went on after Ctrl-D and took the lines meant for the next reader"),
"expand the arguments of programs only once":("E01","the values of !var! in the arguments of a program were expanded again: a value p!q!r became prog's argument p<value of q>r"),
"ignore DISABLEEXTENSIONS in SETLOCAL, as documented":("E02","SETLOCAL DISABLEEXTENSIONS was refused and saved nothing, so the matching ENDLOCAL restored the wrong level"),
})
