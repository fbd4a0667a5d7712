From a005b70c36dc3b9fbd6a99fb2582e95b1d14a98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 01/99] fix: flush buffered output before starting a command or
 an instance

The output of PBAT itself is buffered when it is not a terminal, and
what was buffered came out after the output of the external commands
started later. A child whose exec failed also flushed the buffers it
had inherited a second time.
---
 pbat/core/pBat_Clone.c | 5 +++++
 pbat/core/pBat_Exec.c  | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Clone.c b/pbat/core/pBat_Clone.c
index 7b63111..605d8ff 100644
--- a/pbat/core/pBat_Clone.c
+++ b/pbat/core/pBat_Clone.c
@@ -111,6 +111,11 @@ int pBat_DuplicateData(struct clone_data_t* data)
 {
     int fd;
 
+    /* what has been output so far must come before the output of the
+       cloned instance */
+    fflush(fOutput);
+    fflush(fError);
+
     data->bDelayedExpansion = bDelayedExpansion;
     data->bEchoOn = bEchoOn;
     data->iErrorLevel = iErrorLevel;
diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 7481b63..62e72fc 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -42,6 +42,11 @@ int pBat_ExecuteFile(EXECINFO* info)
     int error = 0,
                 ret;
 
+    /* what has been output so far must come before the output of the
+       command */
+    fflush(fOutput);
+    fflush(fError);
+
     /* first try RunFile() */
     ret = pBat_RunFile(info, &error);
 
@@ -333,7 +338,9 @@ int pBat_RunFile(EXECINFO* info, int* error)
             write(fds[1], "x", 1);
             close(fds[1]);
 
-			exit(-1);
+			/* exit() would flush a second time the streams copied
+			   from the father */
+			_exit(-1);
 
 
 		}
-- 
2.43.0


From b6f89bc4ddffca8bbbb0b22ad475f0a423dd283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 02/99] fix: compare IF ERRORLEVEL with the error level

ERRORLEVEL is not stored in the environment, so that the lookup gave
NULL and the comparison crashed the interpreter.
---
 pbat/command/pBat_If.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_If.h b/pbat/command/pBat_If.h
index 16c279e..29f4266 100644
--- a/pbat/command/pBat_If.h
+++ b/pbat/command/pBat_If.h
@@ -55,7 +55,7 @@
     ret = (pBat_GetEnv(env, var) != NULL);
 
 #define PBAT_IF_ERRORLEVEL_TEST(ret, val, env) \
-    ret = !stricmp(val, pBat_GetEnv(env, "ERRORLEVEL"));
+    ret = (strtol(val, NULL, 10) == iErrorLevel);
 
 int pBat_PerformExtendedTest(const char* lpCmp, const char* lpParam1, const char* lpParam2, int iFlag);
 
-- 
2.43.0


From b74d49d2f021f9befb210b7172932c87cf7ad9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 03/99] fix: do not free an unset script when a label is not
 found

---
 pbat/core/pBat_Jump.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Jump.c b/pbat/core/pBat_Jump.c
index 29349be..0075721 100644
--- a/pbat/core/pBat_Jump.c
+++ b/pbat/core/pBat_Jump.c
@@ -81,7 +81,10 @@ int pBat_JumpToLabel(char* lpLabelName, char* lpFileName)
 
     if (lbl == NULL) {
 
-        pBat_FreeBatchScript(&script);
+        /* "script" is only set when another file has been read */
+        if (new)
+            pBat_FreeBatchScript(&script);
+
         return -1;
 
     }
-- 
2.43.0


From bfb88c37e08b435be5d0246cef629dfb65b0ce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 04/99] fix: initialize the error flag when looking for script
 changes

On POSIX systems it is only written on failure, so that whether a
modified script was reloaded depended on an uninitialized variable.
---
 pbat/core/pBat_ReadScript.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_ReadScript.c b/pbat/core/pBat_ReadScript.c
index b187949..5f5bb56 100644
--- a/pbat/core/pBat_ReadScript.c
+++ b/pbat/core/pBat_ReadScript.c
@@ -322,7 +322,7 @@ int pBat_ReloadBatchScript(struct batch_script_t* script)
 /* Check batch script changes */
 int pBat_CheckBatchScriptChanges(struct batch_script_t* script)
 {
-    int ret, err;
+    int ret, err = 0;
 
     ret = (script->size != pBat_GetScriptSize(script, &err));
 
-- 
2.43.0


From 947610625e77ff912e37a0a4e62c99d306f65d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 05/99] fix: save the options of SETLOCAL before changing them

ENDLOCAL restored the options that SETLOCAL had just set, so that they
stayed in effect for ever.
---
 pbat/command/pBat_Setlocal.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Setlocal.c b/pbat/command/pBat_Setlocal.c
index 3ed91e5..7fc7272 100644
--- a/pbat/command/pBat_Setlocal.c
+++ b/pbat/command/pBat_Setlocal.c
@@ -60,6 +60,8 @@ int pBat_CmdSetLocal(char* lpLine)
 	char lpName[FILENAME_MAX];
 	char* lpNext=lpLine+8;
 	int push = 1,
+        delayed = bDelayedExpansion,
+        cmdly = bCmdlyCorrect,
         status = PBAT_NO_ERROR;
 
 	while ((lpNext=pBat_GetNextParameter(lpNext, lpName, FILENAME_MAX))) {
@@ -75,16 +77,16 @@ int pBat_CmdSetLocal(char* lpLine)
 
         } else if (!stricmp(lpName, "ENABLEDELAYEDEXPANSION")) {
 
-			bDelayedExpansion=TRUE;
+			delayed = TRUE;
 
 		} else if (!stricmp(lpName, "DISABLEDELAYEDEXPANSION")) {
 
-			bDelayedExpansion=FALSE;
+			delayed = FALSE;
 
 		} else if (!stricmp(lpName, "CMDLYCORRECT")) {
 
 #if !defined(PBAT_STATIC_CMDLYCORRECT)
-			bCmdlyCorrect=TRUE;
+			cmdly = TRUE;
 #else
 			pBat_ShowErrorMessage(PBAT_UNABLE_SET_OPTION,
 						"CMDLYCORRECT",
@@ -95,7 +97,7 @@ int pBat_CmdSetLocal(char* lpLine)
 #endif
 		} else if (!stricmp(lpName, "CMDLYINCORRECT")) {
 #if !defined(PBAT_STATIC_CMDLYCORRECT)
-			bCmdlyCorrect=FALSE;
+			cmdly = FALSE;
 #else
 			pBat_ShowErrorMessage(PBAT_UNABLE_SET_OPTION,
 						"CMDLYINCORRECT",
@@ -127,6 +129,10 @@ int pBat_CmdSetLocal(char* lpLine)
 	if (push)
         pBat_PushEnvStack();
 
+	/* now that the previous options are saved, change them */
+	bDelayedExpansion = delayed;
+	bCmdlyCorrect = cmdly;
+
 	return iErrorLevel;
 }
 
-- 
2.43.0


From 1823435853140d394e3722ac6ac42507e1f8fd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 06/99] fix: reload a modified script even if its size is the
 same

The manual says that the script is checked for modifications before
every line, but only its size was compared.
---
 pbat/core/pBat_ReadScript.c | 23 ++++++++++++++++++-----
 pbat/core/pBat_ReadScript.h |  6 ++++--
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/pbat/core/pBat_ReadScript.c b/pbat/core/pBat_ReadScript.c
index 5f5bb56..698f93b 100644
--- a/pbat/core/pBat_ReadScript.c
+++ b/pbat/core/pBat_ReadScript.c
@@ -89,7 +89,8 @@ void pBat_DumpBatchScript(struct batch_script_t* script)
 }
 
 #ifdef WIN32
-__inline__ size_t pBat_GetScriptSize(struct batch_script_t* script, int* restrict err)
+__inline__ size_t pBat_GetScriptSize(struct batch_script_t* script,
+                            long long* restrict mtime, int* restrict err)
 {
     WIN32_FILE_ATTRIBUTE_DATA attr;
 
@@ -119,16 +120,26 @@ __inline__ size_t pBat_GetScriptSize(struct batch_script_t* script, int* restric
     }
 #endif /* PBAT_USE_LIBCU8 */
 
+    *mtime = ((long long)attr.ftLastWriteTime.dwHighDateTime << 32)
+                | attr.ftLastWriteTime.dwLowDateTime;
+
     return attr.nFileSizeLow;
 }
 #else
-__inline__ size_t pBat_GetScriptSize(struct batch_script_t* script, int* restrict err)
+__inline__ size_t pBat_GetScriptSize(struct batch_script_t* script,
+                            long long* restrict mtime, int* restrict err)
 {
     struct stat st;
 
-    if (stat(script->name, &st) == 0)
+    if (stat(script->name, &st) == 0) {
+
+        *mtime = (long long)st.st_mtim.tv_sec * 1000000000
+                    + st.st_mtim.tv_nsec;
+
         return st.st_size;
 
+    }
+
     *err = 1;
     return 0;
 }
@@ -173,7 +184,7 @@ int pBat_LoadBatchScript(struct batch_script_t* script)
     if ((file = fopen(script->name, "r")) == NULL)
         goto error;
 
-    script->size = pBat_GetScriptSize(script, &checkres);
+    script->size = pBat_GetScriptSize(script, &(script->mtime), &checkres);
 
     if (checkres)
         goto error;
@@ -323,8 +334,10 @@ int pBat_ReloadBatchScript(struct batch_script_t* script)
 int pBat_CheckBatchScriptChanges(struct batch_script_t* script)
 {
     int ret, err = 0;
+    long long mtime = script->mtime;
 
-    ret = (script->size != pBat_GetScriptSize(script, &err));
+    ret = (script->size != pBat_GetScriptSize(script, &mtime, &err));
+    ret = ret || (script->mtime != mtime);
 
     /* if error, say it doesn't changed */
     if (err)
diff --git a/pbat/core/pBat_ReadScript.h b/pbat/core/pBat_ReadScript.h
index d090f98..53ee136 100644
--- a/pbat/core/pBat_ReadScript.h
+++ b/pbat/core/pBat_ReadScript.h
@@ -61,7 +61,8 @@ struct batch_script_t {
     wchar_t *wname; /* wide character version of wname to speed script up  */
 #endif
     int cpy; /* if this struct is a copy (i.e. not the original one) */
-    size_t size; /* last modified time */
+    size_t size; /* size when it was read */
+    long long mtime; /* last modified time when it was read */
     struct cmdlines_t* cmds; /* start of the script */
     struct cmdlines_t* curr; /* current line */
     struct labels_t* lbls; /* start of label list */
@@ -92,7 +93,8 @@ void pBat_FreeLabels(struct labels_t* labels);
 /* Free cmdlines */
 void pBat_FreeCmdlines(struct cmdlines_t* cmdlines);
 
-size_t pBat_GetScriptSize(struct batch_script_t* script, int* restrict err);
+size_t pBat_GetScriptSize(struct batch_script_t* script,
+                            long long* restrict mtime, int* restrict err);
 
 char* xstrdup(const char* str);
 
-- 
2.43.0


From 690751f04bce4d1333343aa4f5b3839bb27af564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 07/99] fix: do not restart a script modified by its last line

A script that replaced itself by a version with as many lines while its
last line was running was run again from the start.
---
 pbat/core/pBat_ReadScript.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pbat/core/pBat_ReadScript.c b/pbat/core/pBat_ReadScript.c
index 698f93b..7c7f098 100644
--- a/pbat/core/pBat_ReadScript.c
+++ b/pbat/core/pBat_ReadScript.c
@@ -320,12 +320,17 @@ int pBat_ReloadBatchScript(struct batch_script_t* script)
     cmd = script->cmds;
 
     /* place the current line where it should be */
-    while (cmd && (i --))
+    while (cmd && i > 0) {
+
         cmd = cmd->next;
+        i --;
+
+    }
 
     /* if there is not enough lines in the new script,
-       restart from the beginning */
-    script->curr = cmd ? (cmd) : (script->cmds);
+       restart from the beginning. If every line has been run, there
+       is nothing left */
+    script->curr = (cmd || !i) ? (cmd) : (script->cmds);
 
     return 0;
 }
-- 
2.43.0


From fbd07e79c03f4df2c590c6e9e253f0d007b3e014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 08/99] fix: give the code of EXIT to the caller

The number was read after the parameter, so that EXIT n exited with 0.
---
 pbat/command/pBat_Exit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Exit.c b/pbat/command/pBat_Exit.c
index cccd839..a80ff71 100644
--- a/pbat/command/pBat_Exit.c
+++ b/pbat/command/pBat_Exit.c
@@ -91,7 +91,7 @@ int pBat_CmdExit(char* lpLine)
 
 		} else {
 
-			ret = atoi(ntoken);
+			ret = atoi(param->str);
 
 		}
 	}
-- 
2.43.0


From 56c656b0b74968e081725da10a47e4d999389714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 09/99] fix: end the confirmation questions at end of input

At end of file the last character was used again and again, and an
invalid answer was taken for whatever an uninitialized variable held
instead of being asked again.
---
 pbat/command/pBat_Ask.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pbat/command/pBat_Ask.c b/pbat/command/pBat_Ask.c
index cfa28f9..ed8ba57 100644
--- a/pbat/command/pBat_Ask.c
+++ b/pbat/command/pBat_Ask.c
@@ -40,16 +40,14 @@
 /* A function to override the hook that libcu8 adds on read()
    that automatically enable autocompletion, which can get
    quite problematic when asking question to the user */
-void xread(int fd, void* p, size_t sz)
+int xread(int fd, void* p, size_t sz)
 {
-    size_t cnt;
+    DWORD cnt;
 
-    do {
-
-        ReadFile(_get_osfhandle(fd), p, sz, &cnt, NULL);
-
-    } while (!cnt);
+    if (!ReadFile((HANDLE)_get_osfhandle(fd), p, sz, &cnt, NULL))
+        return -1;
 
+    return cnt;
 }
 #else
 #define xread(fd, p, n) read(fd, p, n)
@@ -63,7 +61,9 @@ void pBat_AskConfirmationRead(char* buffer, size_t size)
 
     while (1) {
 
-        xread(fileno(fInput), &c, 1);
+        /* the end of input ends the answer */
+        if (xread(fileno(fInput), &c, 1) <= 0)
+            break;
 
         if (c == '\r')
             continue;
@@ -90,7 +90,7 @@ int pBat_AskConfirmation(int iFlags, void(*lpFn)(char*,size_t),  const char* lpM
 	const char *lpChoices=NULL;
 	/* char *lpLf; */
 
-	int iRet;
+	int iRet=0;
 	char lpInput[30];
 
 	if (iFlags & PBAT_ASK_YNA) {
-- 
2.43.0


From 7bbc3acdfb2c4cc078947025860bd579896ef5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 10/99] fix: restart the calls interrupted by a declined break

After answering no to the break question, the interrupted read() or
waitpid() failed, so that input was cut short and exit codes were lost.
---
 pbat/pBat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/pBat.c b/pbat/pBat.c
index fc53329..289f74b 100644
--- a/pbat/pBat.c
+++ b/pbat/pBat.c
@@ -95,7 +95,7 @@ int main(int argc, char *argv[])
     struct sigaction action;
     memset(&action, 0, sizeof(action));
     action.sa_handler=pBat_SigHandlerBreak;
-    action.sa_flags=SA_NODEFER;
+    action.sa_flags=SA_NODEFER | SA_RESTART;
     sigaction(SIGINT, &action, NULL);
 
 #else
-- 
2.43.0


From 4356bc15dbc8387cdaef917854728de134aa8cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 11/99] fix: do not prompt with COPY /Y and prompt with COPY
 /-Y

The two switches did the opposite of what the manual says.
---
 pbat/command/pBat_Copy.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 184b788..373156b 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -136,7 +136,10 @@ int pBat_CmdCopy(char* line)
         if (!stricmp("/Y", str)
             || !stricmp("/-Y", str)) {
 
-            flags |= (*(str+1)=='-') ? PBAT_COPY_SILENCE : 0;
+            if (*(str+1)=='-')
+                flags &= ~PBAT_COPY_SILENCE;
+            else
+                flags |= PBAT_COPY_SILENCE;
 
         } else if (!strnicmp("/A", str, 2)) {
 
-- 
2.43.0


From 2dca5b3963ce2c3376588b4336100120ce7d80c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 12/99] fix: let rename() replace the destination of MOVE

The destination was removed beforehand, so that it was lost whenever the
rename failed, and moving a file to itself deleted it.
---
 pbat/command/pBat_Copy.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 373156b..8167241 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -493,9 +493,12 @@ end:
 
 int pBat_MoveFile(const char* file, const char* dest)
 {
-    if ((pBat_FileExists(dest)
-         && remove(dest))
-        || rename(file, dest)) {
+    if (
+#ifdef WIN32
+        (pBat_FileExists(dest)
+         && remove(dest)) ||
+#endif /* elsewhere rename() replaces dest at once */
+        rename(file, dest)) {
 
         pBat_ShowErrorMessage(PBAT_UNABLE_MOVE | PBAT_PRINT_C_ERROR,
                                 file,
-- 
2.43.0


From 8e70384e3f53803610d109f21f173e44b103bbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 13/99] fix: notice every time several files are copied or
 moved

The count of the matching files depended on the number of arguments, so
that for instance two files matching one expression were copied or moved
one over the other.
---
 pbat/command/pBat_Copy.c | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 8167241..f7aa703 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -277,17 +277,6 @@ int pBat_CmdCopy(char* line)
                                     &files,
                                     &next);
 
-    end = files;
-
-    while (end) {
-        end = end->lpflNext;
-    }
-
-    end = files;
-
-    /* actual matching items */
-    while (end && (end = end->lpflNext) && (i++ < 2));
-
     /* Cmd does not accept several file names used in with a
        single *COPY* but for it, several files from a regular expression
        mean concatenation of file, which is somehow strange. */
@@ -296,7 +285,7 @@ int pBat_CmdCopy(char* line)
         flags |= PBAT_COPY_MULTIPLE;
     }
 
-    if (i == 3) {
+    if (files && files->lpflNext) {
 
         if (!(flags & PBAT_COPY_MULTIPLE)
             && !(flags & PBAT_COPY_MOVE))
-- 
2.43.0


From 3af1e10cba7e2b865e4746e2bcd21f42debec826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 14/99] fix: report every error while copying a file

A failed write() was counted as written data, so that COPY went on for
ever, and the failures of fsync() and close() were ignored.
---
 pbat/command/pBat_Copy.c | 125 +++++++++++++++------------------------
 1 file changed, 47 insertions(+), 78 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index f7aa703..813b13d 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -499,11 +499,38 @@ int pBat_MoveFile(const char* file, const char* dest)
     return PBAT_NO_ERROR;
 }
 
-int pBat_CopyFile(const char* file, const char* dest)
+/* Copy what remains in old to new and flush it to the disk. Return -1 on
+   failure */
+static int pBat_CopyData(int old, int new)
 {
-    int old, new;
     char buf[2048];
-    size_t count, writen;
+    int count, writen, ret;
+
+    while ((count = read(old, buf, sizeof(buf))) != 0) {
+
+        if (count == -1)
+            return -1;
+
+        for (writen = 0; writen < count; writen += ret)
+            if ((ret = write(new, buf + writen, count - writen)) == -1)
+                return -1;
+
+    }
+
+#ifdef WIN32
+    _commit(new);
+#else
+    /* devices and pipes can not be flushed that way */
+    if (fsync(new) && errno != EINVAL)
+        return -1;
+#endif // WIN32
+
+    return 0;
+}
+
+int pBat_CopyFile(const char* file, const char* dest)
+{
+    int old, new, status;
     struct stat info;
 
 #ifdef WIN32
@@ -542,59 +569,29 @@ int pBat_CopyFile(const char* file, const char* dest)
 
     }
 
-    while ((count = read(old, buf, sizeof(buf))) != 0) {
-
-        if (count == -1) {
-
-
-            close(old);
-            close(new);
-
-            pBat_ShowErrorMessage(PBAT_UNABLE_COPY
-                                    | PBAT_PRINT_C_ERROR, file, 0);
-
-            return PBAT_UNABLE_COPY;
+    status = pBat_CopyData(old, new);
 
-        }
-
-        writen = 0;
-
-        while ((writen += write(new, buf + writen, count - writen)) != count) {
-
-            if (writen == -1) {
-
-                close(old);
-                close(new);
+    close(old);
 
-                pBat_ShowErrorMessage(PBAT_UNABLE_COPY
-                                        | PBAT_PRINT_C_ERROR, file, 0);
+    if (close(new))
+        status = -1;
 
-                return PBAT_UNABLE_COPY;
+    if (status) {
 
-            }
+        pBat_ShowErrorMessage(PBAT_UNABLE_COPY
+                                | PBAT_PRINT_C_ERROR, file, 0);
 
-        }
+        return PBAT_UNABLE_COPY;
 
     }
 
-    #ifdef WIN32
-        _commit(new);
-    #else
-        fsync(new);
-    #endif // WIN32
-
-    close(old);
-    close(new);
-
     return PBAT_NO_ERROR;
 
 }
 
 int pBat_CatFile(const char* file, const char* dest, int* flags)
 {
-    int old, new, attr;
-    char buf[2048];
-    size_t count, writen;
+    int old, new, attr, status;
     struct stat info;
 
 #ifdef WIN32
@@ -646,50 +643,22 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
 
     }
 
-    while ((count = read(old, buf, sizeof(buf))) != 0) {
-
-        if (count == -1) {
-
-
-            close(old);
-            close(new);
-
-            pBat_ShowErrorMessage(PBAT_UNABLE_CAT
-                                    | PBAT_PRINT_C_ERROR, file, 0);
-
-            return PBAT_UNABLE_CAT;
+    status = pBat_CopyData(old, new);
 
-        }
-
-        writen = 0;
-
-        while ((writen += write(new, buf + writen, count - writen)) != count) {
-
-            if (writen == -1) {
-
-                close(old);
-                close(new);
+    close(old);
 
-                pBat_ShowErrorMessage(PBAT_UNABLE_CAT
-                                        | PBAT_PRINT_C_ERROR, file, 0);
+    if (close(new))
+        status = -1;
 
-                return PBAT_UNABLE_CAT;
+    if (status) {
 
-            }
+        pBat_ShowErrorMessage(PBAT_UNABLE_CAT
+                                | PBAT_PRINT_C_ERROR, file, 0);
 
-        }
+        return PBAT_UNABLE_CAT;
 
     }
 
-    #ifdef WIN32
-        _commit(new);
-    #else
-        fsync(new);
-    #endif // WIN32
-
-    close(old);
-    close(new);
-
     return PBAT_NO_ERROR;
 
 }
-- 
2.43.0


From 6cb7aaffd43537e6065d04744a4073b5d8c1c873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 15/99] fix: do not empty a file copied or catenated onto
 itself

The destination was truncated before its content was read, and COPY
reported success.
---
 pbat/command/pBat_Copy.c | 44 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 813b13d..df90a93 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -87,6 +87,19 @@
 #define IS_DIR_DELIM(c) (c=='/')
 #endif // WIN32
 
+/* Test whether two names are those of the same existing file */
+static int pBat_IsSameFile(const char* file, const char* dest)
+{
+#ifdef WIN32
+    return !stricmp(file, dest);
+#else
+    struct stat a, b;
+
+    return stat(file, &a) == 0 && stat(dest, &b) == 0
+            && a.st_dev == b.st_dev && a.st_ino == b.st_ino;
+#endif
+}
+
 int pBat__EndWithDirectoryMark(const char* dir)
 {
     char* c="";
@@ -295,6 +308,21 @@ int pBat_CmdCopy(char* line)
     }
 
 
+    /* The first file can be appended to, but the content of the others
+       would be lost when the destination is opened */
+    if (flags & PBAT_COPY_CAT) {
+
+        for (end = files; end && (end = end->lpflNext);)
+            if (pBat_IsSameFile(end->lpFileName, file[len-1])) {
+
+                pBat_ShowErrorMessage(PBAT_UNABLE_CAT, end->lpFileName, 0);
+                status = PBAT_UNABLE_CAT;
+                goto end;
+
+            }
+
+    }
+
     while (files) {
 
         status |= pBat_CmdCopyFile(files->lpFileName, file[len-1], &flags);
@@ -533,6 +561,14 @@ int pBat_CopyFile(const char* file, const char* dest)
     int old, new, status;
     struct stat info;
 
+    /* opening dest would empty the file */
+    if (pBat_IsSameFile(file, dest)) {
+
+        pBat_ShowErrorMessage(PBAT_UNABLE_COPY, file, 0);
+        return PBAT_UNABLE_COPY;
+
+    }
+
 #ifdef WIN32
     old = open(file, O_RDONLY | O_BINARY ,0);
 #else
@@ -594,6 +630,14 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
     int old, new, attr, status;
     struct stat info;
 
+    if (!(*flags & PBAT_COPY_CAT_2ND) && pBat_IsSameFile(file, dest)) {
+
+        /* the other files are to be appended */
+        *flags |= PBAT_COPY_CAT_2ND;
+        return PBAT_NO_ERROR;
+
+    }
+
 #ifdef WIN32
     old = open(file, O_RDONLY | O_BINARY ,0);
 #else
-- 
2.43.0


From 3370be3d6fef2a81a1dbcf10a2702dae3885b89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:07 +0000
Subject: [PATCH 16/99] fix: keep the error level of the commands run by IF and
 FOR

---
 pbat/command/pBat_For.c | 3 ++-
 pbat/command/pBat_If.c  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 092cb61..9273c1b 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -358,7 +358,8 @@ error:
 	if (!lpplLine && line)
         pBat_FreeParsedStream(line);
 
-	return status;
+	/* the error level is the one left by the commands executed, if any */
+	return status ? status : iErrorLevel;
 }
 
 int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 6bb22fc..b9a4eba 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -431,7 +431,8 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
     if (lpplLine)
         *lpplLine = NULL;
 
-	return 0;
+	/* the error level is the one left by the commands executed, if any */
+	return iErrorLevel;
 }
 
 /* Get the value from the chain pointed to by *number and return a value
-- 
2.43.0


From b7c42124b626634b7d0507cde6feff6f87aecdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 17/99] fix: free the line of FOR with the right function

---
 pbat/command/pBat_For.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 9273c1b..67fc988 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -356,7 +356,7 @@ error:
         *lpplLine = NULL;
 
 	if (!lpplLine && line)
-        pBat_FreeParsedStream(line);
+        pBat_FreeParsedLine(line);
 
 	/* the error level is the one left by the commands executed, if any */
 	return status ? status : iErrorLevel;
-- 
2.43.0


From 898b2b84f551e75fce771eda4584f220f5a4635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 18/99] fix: give the status of RMDIR with one directory

---
 pbat/command/pBat_Rmdir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Rmdir.c b/pbat/command/pBat_Rmdir.c
index c8c9065..25c1205 100644
--- a/pbat/command/pBat_Rmdir.c
+++ b/pbat/command/pBat_Rmdir.c
@@ -153,7 +153,7 @@ int pBat_CmdRmdir(char* lpLine)
 
         /* This is simple case where we just need to remove the dir */
         choice = PBAT_ASK_ALL;
-        pBat_CmdRmdirFile(name[0], param, &choice);
+        status = pBat_CmdRmdirFile(name[0], param, &choice);
 
     } else if (n == 0) {
 
-- 
2.43.0


From ffd8145b0597e3a0b407c14d660a80cf7deeca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 19/99] fix: handle the other arguments of DEL, RMDIR and MKDIR
 after an error

---
 pbat/command/pBat_Del.c   | 2 +-
 pbat/command/pBat_Mkdir.c | 3 +--
 pbat/command/pBat_Rmdir.c | 2 +-
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Del.c b/pbat/command/pBat_Del.c
index 95ab3c4..107cc9f 100644
--- a/pbat/command/pBat_Del.c
+++ b/pbat/command/pBat_Del.c
@@ -177,7 +177,7 @@ int pBat_CmdDel(char* lpLine)
                                     FALSE);
             status = PBAT_NO_MATCH;
 
-            goto end;
+            continue;
         }
 
         if (strpbrk(name[i], "*?") != NULL)
diff --git a/pbat/command/pBat_Mkdir.c b/pbat/command/pBat_Mkdir.c
index ef1fff9..8fc58aa 100644
--- a/pbat/command/pBat_Mkdir.c
+++ b/pbat/command/pBat_Mkdir.c
@@ -70,8 +70,7 @@ int pBat_CmdMkdir(char* lpLine)
 
 		} else {
 
-            if (status = pBat_CmdMakeDirs(pBat_EsToFullPath(lpEstr)))
-                goto error;
+            status |= pBat_CmdMakeDirs(pBat_EsToFullPath(lpEstr));
 
 		}
 	}
diff --git a/pbat/command/pBat_Rmdir.c b/pbat/command/pBat_Rmdir.c
index 25c1205..32e2a60 100644
--- a/pbat/command/pBat_Rmdir.c
+++ b/pbat/command/pBat_Rmdir.c
@@ -173,7 +173,7 @@ int pBat_CmdRmdir(char* lpLine)
                                         FALSE);
                 status = PBAT_NO_MATCH;
 
-                goto end;
+                continue;
             }
 
             if (files == NULL) {
-- 
2.43.0


From 2aec03f4984714c9078609605290740ba0897473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 20/99] fix: ask with DEL /P

---
 pbat/command/pBat_Del.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Del.c b/pbat/command/pBat_Del.c
index 107cc9f..ba92449 100644
--- a/pbat/command/pBat_Del.c
+++ b/pbat/command/pBat_Del.c
@@ -93,6 +93,7 @@ int pBat_CmdDel(char* lpLine)
 
 			/* Ask before suppressing */
 			param|=PBAT_ASK_CONFIRMATION;
+			choice=0;
 
 		} else if (!stricmp(lpToken, "/F")) {
 
-- 
2.43.0


From ca17f3a5a52f2ad1a5377b01ac7dff0bfe410873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 21/99] fix: forget the end of file of the previous standard
 input

The end-of-file indicator of fInput was kept when its descriptor was
replaced, so that once a command had read a pipe or a file to its end,
every builtin reading another pipe or file afterwards got nothing.
---
 pbat/core/pBat_Stream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Stream.h b/pbat/core/pBat_Stream.h
index 2dc1805..7491f66 100644
--- a/pbat/core/pBat_Stream.h
+++ b/pbat/core/pBat_Stream.h
@@ -83,11 +83,13 @@
    contains any absolute counter for file pos.
 
    Hence here we reset the postion of the file descriptor and then use fflush()
-   to clear any buffering information still in the FILE */
+   to clear any buffering information still in the FILE, and clearerr() to
+   forget about the end of the file that is replaced */
 #define PBAT_DUP_STDIN(fd, s) \
             if (!isatty(fileno(s))) \
                 lseek(fileno(s), ftell(s), SEEK_SET); \
             fflush(s); \
+            clearerr(s); \
             __PBAT_DUP_STD(fd, s) \
             PBAT_RESET_BUFFERING(fd, s)
 
-- 
2.43.0


From 42c29d597c0925dab991f0fccb1d4f8683d6673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 22/99] fix: read one line and no more with SET /P

Reading a whole buffer took the lines that follow away from the other
readers (confirmations, PAUSE, external programs), or gave them to a later
command whose standard input is another file.
---
 pbat/command/pBat_Set.c |  2 +-
 pbat/core/pBat_Read.c   | 43 +++++++++++++++++++++++++++++++++++++++++
 pbat/core/pBat_Read.h   |  1 +
 3 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 8443b6c..cdc9067 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -332,7 +332,7 @@ int pBat_CmdSetP(char* lpLine)
             pBat_LineNoise(lpEsInput, fInput);
         else /* This may look to be a bug, but it's intentional */
 #endif
-            pBat_EsGet(lpEsInput, fInput);
+            pBat_EsGetInput(lpEsInput, fInput);
 
 		if ((lpEqual=strchr(pBat_EsToChar(lpEsInput), '\n')))
 			*lpEqual='\0';
diff --git a/pbat/core/pBat_Read.c b/pbat/core/pBat_Read.c
index 2b1814f..265486b 100644
--- a/pbat/core/pBat_Read.c
+++ b/pbat/core/pBat_Read.c
@@ -21,6 +21,10 @@
 #include <stdlib.h>
 #include <string.h>
 
+#ifndef WIN32
+#include <unistd.h>
+#endif
+
 #include <libpBat.h>
 
 #include "pBat_Core.h"
@@ -145,6 +149,44 @@ error:
     return -1;
 }
 
+/* Get a line from a standard input that is not a terminal. It does what
+   pBat_EsGet() does but never reads past the end of the line, because what
+   follows is meant for the next command reading the input, which may be an
+   external program or use another file through the same stream. */
+int pBat_EsGetInput(ESTR* lpesLine, FILE* pFile)
+{
+#ifdef WIN32
+    return pBat_EsGet(lpesLine, pFile);
+#else
+    char lpBuf[128], c = '\0';
+    size_t size = 0;
+    int bRead = FALSE;
+
+    pBat_EsCpy(lpesLine, "");
+
+    while (c != '\n' && read(fileno(pFile), &c, 1) == 1) {
+
+        bRead = TRUE;
+        lpBuf[size ++] = c;
+
+        if (size == sizeof(lpBuf) - 1 || c == '\n') {
+            lpBuf[size] = '\0';
+            pBat_EsCat(lpesLine, lpBuf);
+            size = 0;
+        }
+
+    }
+
+    lpBuf[size] = '\0';
+    pBat_EsCat(lpesLine, lpBuf);
+
+    pBat_EsReplace(lpesLine, "\r\n", "\n");
+    pBat_EsReplace(lpesLine, "\r", "\n");
+
+    return !bRead;
+#endif
+}
+
 int pBat_GetLine_Cmdly(ESTR* lpesLine, INPUT_FILE* pIn)
 {
 	FILE* pFile;
@@ -159,6 +201,7 @@ int pBat_GetLine_Cmdly(ESTR* lpesLine, INPUT_FILE* pIn)
 	if (*(pIn->lpFileName) == '\0') {
 
 		pFile=fInput;
+		fn_getline = pBat_EsGetInput;
 
 #if !defined(WIN32) && !defined(PBAT_NO_LINENOISE)
         /* If fInput is a tty, use Linenoise ! */
diff --git a/pbat/core/pBat_Read.h b/pbat/core/pBat_Read.h
index 49c731b..e752bc1 100644
--- a/pbat/core/pBat_Read.h
+++ b/pbat/core/pBat_Read.h
@@ -33,6 +33,7 @@ typedef struct INPUT_FILE {
 } INPUT_FILE;
 
 int pBat_GetLine(ESTR* lpesLine, INPUT_FILE* pIn);
+int pBat_EsGetInput(ESTR* lpesLine, FILE* pFile);
 int pBat_GetLine_Cmdly(ESTR* lpesLine, INPUT_FILE* pIn);
 int pBat_CheckBlocks(ESTR* lpesLine);
 void pBat_RmTrailingNl(char* lpLine);
-- 
2.43.0


From 04fb5115f3318a6c66fc0f176afceb9e511b975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 23/99] fix: do not close a file FIND could not open

---
 pbat/command/pBat_Find.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Find.c b/pbat/command/pBat_Find.c
index a58cfa4..832a09c 100644
--- a/pbat/command/pBat_Find.c
+++ b/pbat/command/pBat_Find.c
@@ -150,9 +150,10 @@ int pBat_FileFind(char* restrict str, char* restrict name, int count, int flag,
 
 end:
     pBat_EsFree_Cached(lpEsLine);
-    if (name)
-        fclose(pFile); /* do no close stdin, please */
-    else if (isatty(fileno(fInput)))
+    if (name) {
+        if (pFile)
+            fclose(pFile); /* do no close stdin, please */
+    } else if (isatty(fileno(fInput)))
         clearerr(fInput);
 
     return !i;
-- 
2.43.0


From fe60c5e79a555d7566f0f25f859d35116adec173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 24/99] fix: honour NOT with every kind of IF comparison

---
 pbat/command/pBat_If.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index b9a4eba..1c22f43 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -223,6 +223,9 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 
             }
 
+            if (iFlag & PBAT_IF_NEGATION)
+                iResult=!iResult;
+
 		 } else if (lpNext) {
 
 			if ((lpToken=strstr(pBat_EsToChar(lpComparison), "=="))) {
@@ -299,6 +302,8 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 
                 }
 
+                if (iFlag & PBAT_IF_NEGATION)
+                    iResult=!iResult;
 
 			}
 		} else {
-- 
2.43.0


From ea3a95f82d2263d60b34fe68bd6f8fa346d46a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 25/99] fix: make IF ERRORLEVEL true for greater error levels,
 as documented

---
 pbat/command/pBat_If.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_If.h b/pbat/command/pBat_If.h
index 29f4266..942e105 100644
--- a/pbat/command/pBat_If.h
+++ b/pbat/command/pBat_If.h
@@ -55,7 +55,7 @@
     ret = (pBat_GetEnv(env, var) != NULL);
 
 #define PBAT_IF_ERRORLEVEL_TEST(ret, val, env) \
-    ret = (strtol(val, NULL, 10) == iErrorLevel);
+    ret = (iErrorLevel >= strtol(val, NULL, 10));
 
 int pBat_PerformExtendedTest(const char* lpCmp, const char* lpParam1, const char* lpParam2, int iFlag);
 
-- 
2.43.0


From 387e1dd8fea3f0bfb4e6a98a7ad9d10431d3dc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 26/99] fix: do not hold the lock of ECHO while writing to a
 pipe

---
 pbat/command/pBat_Echo.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_Echo.c b/pbat/command/pBat_Echo.c
index 225a57b..fb95490 100644
--- a/pbat/command/pBat_Echo.c
+++ b/pbat/command/pBat_Echo.c
@@ -46,6 +46,7 @@ int pBat_CmdEcho(char* lpLine)
 	ESTR* lpEsParameter;
 	char* tmp,
 		 	buf[1];
+	int bLock;
 
 	lpLine += 4;
 
@@ -61,7 +62,11 @@ int pBat_CmdEcho(char* lpLine)
 
 	lpEsParameter=pBat_EsInit_Cached();
 
-	if (pBat_LockMutex(&mEchoLock))
+	/* serialize only what goes to the console: a write to a pipe may have to
+	   wait for another instance, which must not need the lock meanwhile */
+	bLock = isatty(fileno(fOutput));
+
+	if (bLock && pBat_LockMutex(&mEchoLock))
         pBat_ShowErrorMessage(PBAT_LOCK_MUTEX_ERROR,
                                         "pBat_Echo.c/pBat_CmdEcho()", -1);
 
@@ -105,7 +110,7 @@ int pBat_CmdEcho(char* lpLine)
 
 	}
 
-	if (pBat_ReleaseMutex(&mEchoLock))
+	if (bLock && pBat_ReleaseMutex(&mEchoLock))
         pBat_ShowErrorMessage(PBAT_RELEASE_MUTEX_ERROR,
                                         "pBat_Echo.c/pBat_CmdEcho()", -1);
 
-- 
2.43.0


From 2719f3e5fdda7c76fd523d7c6625978e59071dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 27/99] fix: do not close a thread that has been waited for

pthread_detach() on a joined thread may detach another thread, started
meanwhile, which got the same identifier.
---
 libpbat/thread/pBat_Thread.c | 10 ++++++++--
 pbat/command/pBat_For.c      |  5 +++--
 pbat/command/pBat_Start.c    |  6 +++---
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/libpbat/thread/pBat_Thread.c b/libpbat/thread/pBat_Thread.c
index f580b06..1d7d98b 100644
--- a/libpbat/thread/pBat_Thread.c
+++ b/libpbat/thread/pBat_Thread.c
@@ -182,8 +182,14 @@ LIBPBAT void     pBat_EndThread(void* iReturn)
 
 LIBPBAT int      pBat_WaitForThread(THREAD* thId, void** lpRet)
 {
-    return WaitForSingleObject(*thId, INFINITE)
-            || !GetExitCodeThread(*thId, lpRet);
+    if (WaitForSingleObject(*thId, INFINITE)
+        || !GetExitCodeThread(*thId, lpRet))
+        return -1;
+
+    /* as with pthread_join(), the thread is closed once it has been waited
+       for */
+    CloseHandle(*thId);
+    return 0;
 }
 
 LIBPBAT int      pBat_CreateMutex(MUTEX* lpMuId)
diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 67fc988..7f8d0f8 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1559,8 +1559,9 @@ void pBat_ForCloseInputInfo(INPUTINFO* lpipInfo)
         case INPUTINFO_TYPE_COMMAND:;
 
 		    fclose(lpipInfo->Info.InputFile.pFile);
-            pBat_WaitForThread(t, &p);
-            pBat_CloseThread(t);
+            /* a thread that has been waited for must not be closed again */
+            if (pBat_WaitForThread(t, &p) != 0)
+                pBat_CloseThread(t);
             break;
 
 		case INPUTINFO_TYPE_STREAM:
diff --git a/pbat/command/pBat_Start.c b/pbat/command/pBat_Start.c
index cb0e40f..f1021d7 100644
--- a/pbat/command/pBat_Start.c
+++ b/pbat/command/pBat_Start.c
@@ -98,9 +98,9 @@ int pBat_StartCommandBackground(const char* cmdline, int wait)
 
     handle = pBat_CloneInstance((void(*)(void*))pBat_StartCommandExec, data);
 
-    if (wait)
-        pBat_WaitForThread(&handle, &ret);
-    pBat_CloseThread(&handle);
+    /* a thread that has been waited for must not be closed again */
+    if (!wait || pBat_WaitForThread(&handle, &ret) != 0)
+        pBat_CloseThread(&handle);
 
     return 0;
 }
-- 
2.43.0


From 7c6f4a57fbed586faec7738a1d833528799c7b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 28/99] fix: wait for all the stages of a pipeline before the
 next command

---
 pbat/core/pBat_Run.c | 41 ++++++++++++++++++++++++++++++++++++-----
 pbat/core/pBat_Run.h | 11 ++++++++++-
 2 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 63f51fc..0f9e5f7 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -106,10 +106,10 @@ int pBat_RunBatch(INPUT_FILE* pIn)
 
 #define EXECOPERATORS_SKIP 1
 #define EXECOPERATORS_END 2
-int pBat_ExecOperators(PARSED_LINE** lpLine)
+int pBat_ExecOperators(PARSED_LINE** lpLine, struct pipe_thread_t** lppThreads)
 {
     int pipedes[2];
-    THREAD res;
+    struct pipe_thread_t* th;
     struct pipe_launch_data_t* infos;
     PARSED_LINE* line=*lpLine;
     char *pch;
@@ -184,8 +184,13 @@ int pBat_ExecOperators(PARSED_LINE** lpLine)
             pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
                                     __FILE__ "/pBat_ExecOperators()", -1);
 
-        res = pBat_CloneInstance((void(*)(void*))pBat_LaunchPipe, infos);
-        pBat_CloseThread(&res);
+        if ((th = malloc(sizeof(struct pipe_thread_t))) == NULL)
+            pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
+                                    __FILE__ "/pBat_ExecOperators()", -1);
+
+        th->thread = pBat_CloneInstance((void(*)(void*))pBat_LaunchPipe, infos);
+        th->next = *lppThreads;
+        *lppThreads = th;
 
         lastin = pipedes[0];
         if (line->lppsNode)
@@ -205,6 +210,24 @@ int pBat_ExecOperators(PARSED_LINE** lpLine)
 
 }
 
+/* Wait for the threads running the left hand sides of a pipe */
+void pBat_WaitPipe(struct pipe_thread_t* threads)
+{
+    struct pipe_thread_t* next;
+    void* ret;
+
+    for (;threads; threads = next) {
+
+        next = threads->next;
+
+        if (pBat_WaitForThread(&threads->thread, &ret) != 0)
+            pBat_CloseThread(&threads->thread);
+
+        free(threads);
+
+    }
+}
+
 void pBat_LaunchPipe(struct pipe_launch_data_t* infos)
 {
 
@@ -328,17 +351,20 @@ void pBat_RunParsedLine(PARSED_LINE* line)
 {
 	int lock, ok;
 	char *pch;
+	struct pipe_thread_t* threads;
 
 	/* loop though operators */
 	do {
 
+		threads = NULL;
+
 		lock = pBat_GetStreamStackLockState(lppsStreamStack);
 		pBat_SetStreamStackLockState(lppsStreamStack, 1);
 
         pch = line->lpCmdLine->str;
         pch = pBat_SkipAllBlanks(pch);
 
-        ok = pBat_ExecOperators(&line);
+        ok = pBat_ExecOperators(&line, &threads);
 
         /* If aborting, remove the last level of redirection
            EXECOPERATORS_SKIP means that the line tokens is
@@ -347,6 +373,7 @@ void pBat_RunParsedLine(PARSED_LINE* line)
 
             lppsStreamStack = pBat_PopStreamStackUntilLock(lppsStreamStack);
             pBat_SetStreamStackLockState(lppsStreamStack, lock);
+            pBat_WaitPipe(threads);
 
             if (bAbortCommand)
                 break;
@@ -379,6 +406,10 @@ void pBat_RunParsedLine(PARSED_LINE* line)
 		lppsStreamStack = pBat_PopStreamStackUntilLock(lppsStreamStack);
 		pBat_SetStreamStackLockState(lppsStreamStack, lock);
 
+		/* the reading ends of the pipes are now closed, so that the stages
+		   which are still writing can not wait for a reader for ever */
+		pBat_WaitPipe(threads);
+
 	} while (line && (line=line->lppsNode)
              && !(ok & EXECOPERATORS_END));
 
diff --git a/pbat/core/pBat_Run.h b/pbat/core/pBat_Run.h
index e85a8d6..a8119b7 100644
--- a/pbat/core/pBat_Run.h
+++ b/pbat/core/pBat_Run.h
@@ -42,13 +42,22 @@ struct pipe_launch_data_t {
     PARSED_STREAM* stream;
 };
 
+/* the threads running the left hand sides of a pipe */
+struct pipe_thread_t {
+    THREAD thread;
+    struct pipe_thread_t* next;
+};
+
 /* applies redirections */
 int pBat_ExecOutput(PARSED_STREAM* lppssStart);
 
 void pBat_LaunchPipe(struct pipe_launch_data_t* infos);
 
+void pBat_WaitPipe(struct pipe_thread_t* threads);
+
 /* applies conditional operators */
-int pBat_ExecOperators(PARSED_LINE** lppsStream);
+int pBat_ExecOperators(PARSED_LINE** lppsStream,
+                                        struct pipe_thread_t** lppThreads);
 
 /* Run a command */
 int pBat_RunCommand(ESTR* lpCommand, PARSED_LINE** lpplLine);
-- 
2.43.0


From 4fa05e5722d27774aa80d5be402ad6ee99e08380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 29/99] fix: do not run a command whose redirection could not
 be opened

---
 pbat/core/pBat_Run.c | 53 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 0f9e5f7..cfd0820 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -106,6 +106,7 @@ int pBat_RunBatch(INPUT_FILE* pIn)
 
 #define EXECOPERATORS_SKIP 1
 #define EXECOPERATORS_END 2
+#define EXECOPERATORS_ERROR 4
 int pBat_ExecOperators(PARSED_LINE** lpLine, struct pipe_thread_t** lppThreads)
 {
     int pipedes[2];
@@ -254,9 +255,8 @@ void pBat_LaunchPipe(struct pipe_launch_data_t* infos)
        as this function executes the left hand side of a pipe.
 
     */
-    pBat_ExecOutput(infos->stream);
-
-    pBat_RunCommand(infos->str, NULL);
+    if (!pBat_ExecOutput(infos->stream))
+        pBat_RunCommand(infos->str, NULL);
 
     /* don't forget to free unneeded memory */
     pBat_FreeParsedStream(infos->stream);
@@ -265,8 +265,11 @@ void pBat_LaunchPipe(struct pipe_launch_data_t* infos)
 
 }
 
+/* returns a non-null value if one of the files can not be opened, in this case
+   the command must not be run */
 int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 {
+    STREAMSTACK* last;
 
     if (!lppssStart
         || (!(lppssStart->lpInputFile)
@@ -280,27 +283,60 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 	}
 
 	/* open the redirections */
-	if (lppssStart->lpInputFile)
+	if (lppssStart->lpInputFile) {
+
+		last = lppsStreamStack;
 		lppsStreamStack = pBat_OpenOutput(lppsStreamStack,
 		                lppssStart->lpInputFile,
 		                PBAT_STDIN,
 		                0
 		               );
 
-	if (lppssStart->lpOutputFile)
+		if (lppsStreamStack == last) {
+
+			iErrorLevel = PBAT_FILE_ERROR;
+			return -1;
+
+		}
+
+	}
+
+	if (lppssStart->lpOutputFile) {
+
+		last = lppsStreamStack;
 		lppsStreamStack = pBat_OpenOutput(lppsStreamStack,
 		                lppssStart->lpOutputFile,
 		                PBAT_STDOUT,
 		                lppssStart->cOutputMode
 		               );
 
-    if (lppssStart->lpErrorFile)
+		if (lppsStreamStack == last) {
+
+			iErrorLevel = PBAT_FILE_ERROR;
+			return -1;
+
+		}
+
+	}
+
+    if (lppssStart->lpErrorFile) {
+
+		last = lppsStreamStack;
 		lppsStreamStack = pBat_OpenOutput(lppsStreamStack,
 		                lppssStart->lpErrorFile,
 		                PBAT_STDERR,
 		                lppssStart->cErrorMode
 		               );
 
+		if (lppsStreamStack == last) {
+
+			iErrorLevel = PBAT_FILE_ERROR;
+			return -1;
+
+		}
+
+	}
+
     switch (lppssStart->cRedir) {
 
     case PARSED_STREAM_STDERR2STDOUT:
@@ -399,9 +435,10 @@ void pBat_RunParsedLine(PARSED_LINE* line)
             */
 		if (!((!strnicmp(pch, "if", 2) && pBat_IsDelim(*(pch +2)))
             || (!strnicmp(pch, "for", 3) && pBat_IsDelim(*(pch + 3)))))
-            pBat_ExecOutput(line->sStream);
+            ok |= pBat_ExecOutput(line->sStream) ? EXECOPERATORS_ERROR : 0;
 
-		pBat_RunCommand(line->lpCmdLine, &line);
+		if (!(ok & EXECOPERATORS_ERROR))
+		    pBat_RunCommand(line->lpCmdLine, &line);
 
 		lppsStreamStack = pBat_PopStreamStackUntilLock(lppsStreamStack);
 		pBat_SetStreamStackLockState(lppsStreamStack, lock);
-- 
2.43.0


From 80978e84ee8482dd0260db570846bbf3bb9d67c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:37 +0000
Subject: [PATCH 30/99] fix: select the tokens asked for by FOR /F

---
 pbat/command/pBat_For.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 7f8d0f8..f17c9ef 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -860,7 +860,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                     goto infos_overflow;
 
                 /* write a single token to infos */
-                infos->lpToken[i]|=TOHIGH(start)+TOLOW(start);
+                infos->lpToken[i]=TOHIGH(start)+TOLOW(start);
                 i++;
 
                 last = start;
@@ -883,7 +883,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                         goto infos_overflow;
 
                     /* write a cat token to infos */
-                    infos->lpToken[i]|=TOHIGH(start)+TOLOW(end);
+                    infos->lpToken[i]=TOHIGH(start)+TOLOW(end);
                     i++;
 
                 } else {
@@ -896,7 +896,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                         if (i >= TOKENINFO_NB_MAX )
                             goto infos_overflow;
 
-                        infos->lpToken[i]|=TOHIGH(start)+TOLOW(start);
+                        infos->lpToken[i]=TOHIGH(start)+TOLOW(start);
                         i++;
 
                         start ++;
@@ -964,7 +964,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                     goto infos_overflow;
 
                 /* write a single token to infos */
-                infos->lpToken[i]|=TOHIGH(start)+TOLOW(start);
+                infos->lpToken[i]=TOHIGH(start)+TOLOW(start);
                 i++;
 
                 start ++;
-- 
2.43.0


From 869b405e2b899db25890b3e970fae09b202e0e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:45 +0000
Subject: [PATCH 31/99] fix: let EXIT free the variables of a called label or
 script

---
 pbat/command/pBat_Call.c | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index caac732..71e5779 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -234,9 +234,9 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 {
 	INPUT_FILE ifOldFile;
 	LOCAL_VAR_BLOCK* lpvOldBlock;
-	LOCAL_VAR_BLOCK lpvTmpBlock[LOCAL_VAR_BLOCK_SIZE]={NULL};
+	LOCAL_VAR_BLOCK* lpvTmpBlock = NULL;
 	LOCAL_VAR_BLOCK* lpvOldArgs;
-	LOCAL_VAR_BLOCK lpvTmpArgs[LOCAL_VAR_BLOCK_SIZE]={NULL};
+	LOCAL_VAR_BLOCK* lpvTmpArgs = NULL;
 	char lpAbsPath[FILENAME_MAX];
 	int status = PBAT_NO_ERROR;
 
@@ -256,6 +256,13 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 
     }
 
+    /* allocate the blocks, since EXIT frees the current ones */
+    if ((lpvTmpBlock = pBat_GetLocalBlock()) == NULL
+        || (lpvTmpArgs = pBat_GetLocalBlock()) == NULL)
+        pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION
+                              | PBAT_PRINT_C_ERROR,
+                              __FILE__ "/pBat_CmdCallFile", -1);
+
     	/* We backup the old file informations */
 	memcpy(&ifOldFile, &ifIn, sizeof(INPUT_FILE));
 
@@ -368,20 +375,6 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 
 	pBat_SetStreamStackLockState(lppsStreamStack, iLockState);
 
-	/* free variables that have been allocated while
-	   executing the batch script (or the function) */
-
-	for (c=0; c < LOCAL_VAR_BLOCK_SIZE; c++) {
-
-        if (pBat_IsLocalVarValid(c)) {
-            /* This is really important to prevent any kind of memory
-               leakage */
-
-            pBat_SetLocalVar(lpvLocalVars, c, NULL);
-            pBat_SetLocalVar(lpvArguments, c, NULL);
-        }
-	}
-
 	/* free the newly allocated batch script */
     pBat_FreeBatchScript(&(ifIn.batch));
 
@@ -392,6 +385,14 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 	lpvArguments = lpvOldArgs;
 
 error:
+	/* free variables that have been allocated while
+	   executing the batch script (or the function) */
+	if (lpvTmpBlock)
+        pBat_FreeLocalBlock(lpvTmpBlock);
+
+	if (lpvTmpArgs)
+        pBat_FreeLocalBlock(lpvTmpArgs);
+
 	pBat_EsFree_Cached(lpEsParam);
 	return status ? status : iErrorLevel; /* do not affect errorlevel */
 }
-- 
2.43.0


From 6c6ab5a8951d9a1b584304456a6f66f22e83e45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 32/99] fix: keep nested redirections apart from merged streams

---
 pbat/core/pBat_Run.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index cfd0820..3e3426c 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -303,6 +303,17 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 
 	if (lppssStart->lpOutputFile) {
 
+		/* errors that are sent to the output must not follow it */
+		if (fError == _fOutput) {
+
+			lppsStreamStack = pBat_OpenOutputD(lppsStreamStack,
+			                fileno(_fOutput),
+			                PBAT_STDERR
+			               );
+			fError = _fError;
+
+		}
+
 		last = lppsStreamStack;
 		lppsStreamStack = pBat_OpenOutput(lppsStreamStack,
 		                lppssStart->lpOutputFile,
@@ -321,6 +332,17 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 
     if (lppssStart->lpErrorFile) {
 
+		/* the output that is sent to the errors must not follow them */
+		if (fOutput == _fError) {
+
+			lppsStreamStack = pBat_OpenOutputD(lppsStreamStack,
+			                fileno(_fError),
+			                PBAT_STDOUT
+			               );
+			fOutput = _fOutput;
+
+		}
+
 		last = lppsStreamStack;
 		lppsStreamStack = pBat_OpenOutput(lppsStreamStack,
 		                lppssStart->lpErrorFile,
@@ -345,7 +367,7 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 		                -1,
 		                -1
 		               );
-        fError = _fOutput;
+        fError = fOutput;
         break;
 
     case PARSED_STREAM_STDOUT2STDERR:
@@ -353,7 +375,7 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 		                -1 ,
 		                -1
 		               );
-        fOutput = _fError;
+        fOutput = fError;
 
     }
 
-- 
2.43.0


From 4e88248febb092e2038a45ba865f59b058d6ddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 33/99] fix: order unset variables whatever their address

---
 pbat/core/pBat_Env.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index f598f00..0d3c1a4 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -37,7 +37,7 @@ int pBat_EnvCompName(const void* p1, const void* p2)
     ENVVAR *pVar1=*((ENVVAR**)p1), *pVar2=*((ENVVAR**)p2);
 
     if ((pVar1->name == NULL) || (pVar2->name == NULL))
-        return pVar2->name - pVar1->name;
+        return (pVar1->name == NULL) - (pVar2->name == NULL);
 
     return stricmp(pVar1->name, pVar2->name);
 }
-- 
2.43.0


From 7cd8ca6c487fd4878f146277f9efbae7b854dbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 34/99] fix: close the inputs of FOR /F loops when EXIT leaves
 them

---
 pbat/command/pBat_For.c  | 21 +++++++++++++++++++++
 pbat/command/pBat_For.h  |  4 ++++
 pbat/core/pBat_ExitInt.c |  3 +++
 3 files changed, 28 insertions(+)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index f17c9ef..6706db9 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -562,6 +562,9 @@ error:
 
 }
 
+/* inputs of the loops being run by this thread */
+static __thread INPUTINFO* lpipOpenedInputs = NULL;
+
 int pBat_CmdForF(ESTR* lpInput, PARSED_LINE* lpplLine, FORINFO* lpfrInfo)
 {
 	int iSkip=lpfrInfo->iSkip,
@@ -577,6 +580,9 @@ int pBat_CmdForF(ESTR* lpInput, PARSED_LINE* lpplLine, FORINFO* lpfrInfo)
 	if ((status = pBat_ForMakeInputInfo(lpInput, &inputInfo, lpfrInfo)))
 		goto error;
 
+	inputInfo.lpipPrevious = lpipOpenedInputs;
+	lpipOpenedInputs = &inputInfo;
+
 	while (pBat_ForGetInputLine(lpInputToP, &inputInfo)) {
 
 		if (iSkip > 0) {
@@ -609,6 +615,7 @@ int pBat_CmdForF(ESTR* lpInput, PARSED_LINE* lpplLine, FORINFO* lpfrInfo)
 
 	}
 
+	lpipOpenedInputs = inputInfo.lpipPrevious;
 	pBat_ForCloseInputInfo(&inputInfo);
 	pBat_ForVarUnassign(lpfrInfo);
 
@@ -1548,6 +1555,20 @@ int pBat_ForInputParseFileList(FILE_LIST_T* lpList, ESTR* lpInput)
     return 0;
 }
 
+void pBat_ForCloseOpenedInputs(void)
+{
+    /* The threads producing these inputs may be blocked on a full pipe,
+       holding the lock of their output: exit() would wait for them forever
+       if nobody closed the other end. */
+    for (;lpipOpenedInputs != NULL;
+            lpipOpenedInputs = lpipOpenedInputs->lpipPrevious) {
+
+        if (lpipOpenedInputs->cType != INPUTINFO_TYPE_STRING)
+            fclose(lpipOpenedInputs->Info.InputFile.pFile);
+
+    }
+}
+
 void pBat_ForCloseInputInfo(INPUTINFO* lpipInfo)
 {
     int i=0;
diff --git a/pbat/command/pBat_For.h b/pbat/command/pBat_For.h
index 22e861a..45c1b33 100644
--- a/pbat/command/pBat_For.h
+++ b/pbat/command/pBat_For.h
@@ -102,6 +102,7 @@ union _INPUTINFO_UNION {
 typedef struct INPUTINFO {
 	char cType;
 	union _INPUTINFO_UNION Info; /* a pointer to the file opened */
+	struct INPUTINFO* lpipPrevious; /* input of the enclosing loop */
 } INPUTINFO;
 
 
@@ -181,6 +182,9 @@ int pBat_ForGetInputLine(ESTR* lpReturn, INPUTINFO* lpipInfo);
 void pBat_ForCloseInputInfo(INPUTINFO* lpipInfo);
 /* Free and close files of an inputinfo descriptor */
 
+void pBat_ForCloseOpenedInputs(void);
+/* Close the inputs of the loops being run, as the instance exits */
+
 int pBat_ForGetStringInput(ESTR* lpReturn, STRINGINFO* lpsiInfo);
 /* Get an input line for string inputs */
 
diff --git a/pbat/core/pBat_ExitInt.c b/pbat/core/pBat_ExitInt.c
index f9090c9..372dbae 100644
--- a/pbat/core/pBat_ExitInt.c
+++ b/pbat/core/pBat_ExitInt.c
@@ -22,11 +22,14 @@
 #include <stdlib.h>
 
 #include "pBat_Core.h"
+#include "../command/pBat_For.h"
 #include "../../config.h"
 
 
 void pBat_Exit(void)
 {
+	pBat_ForCloseOpenedInputs();
+
 	pBat_FreeCommandList(lpclCommands);
 	pBat_FreeStreamStack(lppsStreamStack);
 	pBat_FreeLocalBlock(lpvLocalVars);
-- 
2.43.0


From ffe3aba920358a8bf0f90a21b9808a1e13c7de5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 35/99] fix: do not wait for the streams of other threads in
 EXIT

---
 pbat/command/pBat_Exit.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Exit.c b/pbat/command/pBat_Exit.c
index a80ff71..97c3f4f 100644
--- a/pbat/command/pBat_Exit.c
+++ b/pbat/command/pBat_Exit.c
@@ -20,6 +20,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <unistd.h>
 #include <time.h>
 #include <math.h>
 #include <ctype.h>
@@ -103,7 +104,9 @@ int pBat_CmdExit(char* lpLine)
 	if (bIgnoreExit)
         pBat_EndThread((void*)ret);
     else {
-        exit(ret);
+        /* exit() would wait for the streams that the threads still running
+           hold, although the streams of this instance have been flushed */
+        _exit(ret);
     }
 
     /* this statement is never reached \o/ */
-- 
2.43.0


From 56c7f11d5cad0746e25d6f4dac649c3af4f38442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 36/99] fix: wait for the children that could not run a program

---
 pbat/core/pBat_Exec.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 62e72fc..5a89429 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -363,6 +363,9 @@ int pBat_RunFile(EXECINFO* info, int* error)
 
                 close(fds[0]);
 
+                /* do not leave a zombie behind */
+                waitpid(iPid, NULL, 0);
+
                 *error = 1;
                 return -1;
             }
-- 
2.43.0


From 1097e2103ca82193d2a3153b3707f977ae2fd615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 37/99] fix: do not crash on integer divisions by zero in SET
 /A

---
 libfasteval/lib/parser.y | 12 +++++++++---
 pbat/command/pBat_Set.c  |  8 ++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/libfasteval/lib/parser.y b/libfasteval/lib/parser.y
index 3e1e63e..b4be425 100644
--- a/libfasteval/lib/parser.y
+++ b/libfasteval/lib/parser.y
@@ -140,14 +140,20 @@ expression
   INT_FLOAT_OP(*, $$, $1, $3);
 }
 | expression '/' expression {
-  INT_FLOAT_OP(/, $$, $1, $3);
+
+  /* an integer division by zero would trap, as would LLONG_MIN/-1 */
+  $$.is_double = $1.is_double || $3.is_double || $3.i == 0;
+  if (!($$.is_double))
+    $$.i = $3.i == -1 ? (long long)-(unsigned long long)$1.i : $1.i / $3.i;
+  $$.d = $1.d / $3.d;
+
 }
 | expression '%' expression {
 
   /* modulo may use integer operator % or fmod function */
-  $$.is_double  = $1.is_double || $3.is_double;
+  $$.is_double  = $1.is_double || $3.is_double || $3.i == 0;
   if (!($$.is_double))
-    $$.i = $1.i % $3.i;
+    $$.i = $3.i == -1 ? 0 : $1.i % $3.i;
   $$.d = fmod($1.d, $3.d);
 
 }
diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index cdc9067..bd5ff90 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -458,8 +458,12 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 					break;
 
 				case '/':
-					dVal = OPERATE(dVal, /,
-                                    dResult, fmode);
+					/* an integer division by zero would trap */
+					if (!fmode && (int)dResult == -1)
+                        dVal = -(double)(int)dVal;
+					else
+                        dVal = OPERATE(dVal, /, dResult,
+                                    (fmode || (int)dResult == 0));
 					break;
 
                 case '%':
-- 
2.43.0


From ac162c52f11207ff9529b0e6fe3abe850ed15e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 38/99] fix: report the failure of any source in COPY /R and
 MOVE /R

Only the status of the last source was returned.
---
 pbat/command/pBat_Copy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index df90a93..313b8e6 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -244,7 +244,7 @@ int pBat_CmdCopy(char* line)
     if (flags & PBAT_COPY_RECURSIVE) {
 
         for (i=0;i < len - 1 ; i++)
-            status = pBat_CmdCopyRecursive(file[i],
+            status |= pBat_CmdCopyRecursive(file[i],
                         file[len-1], attr, &flags);
 
         goto end;
-- 
2.43.0


From cd1fcfe6dac82f509631b4120e8f466cb36a6573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 39/99] fix: remove the moved directories, not their copies, in
 MOVE /R

The name of the directory to remove was built from the destination, and the
status of the removal overwrote that of the files that had been moved.
---
 pbat/command/pBat_Copy.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 313b8e6..11e78e2 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -488,9 +488,7 @@ int pBat_CmdCopyRecursive(char* file, const char* dest, short attr, int* flags)
 
         while (item) {
 
-            pBat_MakePath(real_dest, 2, dest, (item->lpFileName)+(size+1));
-
-            status = pBat_Rmdir(real_dest->str);
+            status |= pBat_Rmdir(item->lpFileName);
 
             item = item->lpflNext;
 
-- 
2.43.0


From 5d9b2b0e0ae17e2d09096a07bfc937ab3613e67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 40/99] fix: do not delete files in RMDIR

RMDIR with several names, or with /S, deleted the files given as if they
were directories.
---
 pbat/command/pBat_Rmdir.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Rmdir.c b/pbat/command/pBat_Rmdir.c
index 32e2a60..5009375 100644
--- a/pbat/command/pBat_Rmdir.c
+++ b/pbat/command/pBat_Rmdir.c
@@ -166,6 +166,14 @@ int pBat_CmdRmdir(char* lpLine)
 
         for (i=0; i < n; i++) {
 
+            if (pBat_FileExists(name[i])) {
+
+                /* only directories are removed */
+                status |= pBat_Rmdir(name[i]);
+                continue;
+
+            }
+
             if (!(dir = pBat_GetMatchFileList(name[i], mode))) {
 
                 pBat_ShowErrorMessage(PBAT_NO_MATCH,
@@ -202,9 +210,13 @@ int pBat_CmdRmdir(char* lpLine)
 
         while (next) {
 
-
-            status |= pBat_CmdDelFile(next->lpFileName, pBat_GetFileMode(next),
-                                                                    param, &choice);
+            /* delete the content of directories, but nothing else */
+            if (mode & PBAT_SEARCH_RECURSIVE)
+                status |= pBat_CmdDelFile(next->lpFileName,
+                                            pBat_GetFileMode(next),
+                                            param, &choice);
+            else
+                status |= pBat_Rmdir(next->lpFileName);
 
             next = next->lpflNext;
 
-- 
2.43.0


From 4ccbd72254e6d60fd57239ad1c7271103d560789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 41/99] fix: tell directories from files in FOR

FOR removes the directories from what its wildcards match, but looked for
them in file information that had not been read.
---
 pbat/command/pBat_For.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 6706db9..d3b3f85 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -441,8 +441,7 @@ int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
 
                 /* We came across a reg expression, just launch a search */
                 files = pBat_GetMatchFileList(pBat_EsToFullPath(lpesStr),
-                                                PBAT_SEARCH_NO_PSEUDO_DIR
-                                                | PBAT_SEARCH_NO_STAT);
+                                                PBAT_SEARCH_NO_PSEUDO_DIR);
 
                 pBat_AttributesSplitFileList(PBAT_ATTR_NO_DIR,
                                              files,
-- 
2.43.0


From 5400f9d64d2f86d636f6cf2aac4fab806ecc3aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 42/99] fix: let a final asterisk match an empty sequence

---
 libpbat/dir/pBat_Dir.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index 4b95267..08accd1 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -697,6 +697,11 @@ LIBPBAT int pBat_RegExpMatch(const char* restrict regexp, const char* restrict m
 
     }
 
+    /* an asterisk also accepts an empty sequence */
+    if (*regexp == '*')
+        while (*regexp == '*' || *regexp == '?')
+            regexp ++;
+
     if (*match || *regexp)
         return 0;
 
@@ -816,6 +821,11 @@ LIBPBAT int pBat_RegExpCaseMatch(const char* restrict regexp, const char* restri
 
     }
 
+    /* an asterisk also accepts an empty sequence */
+    if (*regexp == '*')
+        while (*regexp == '*' || *regexp == '?')
+            regexp ++;
+
     if (*match || *regexp)
         return 0;
 
-- 
2.43.0


From d02abe66c9595fd1046ee726f057622c3af250f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 43/99] fix: report the directories that can not be read in
 COPY, MOVE, DEL and RMDIR

The search for files silently skipped them, so that these commands reported
success although files had been left out.
---
 libpbat/dir/pBat_Dir.c    | 24 ++++++++++++++++++++++--
 libpbat/libpBat.h         |  1 +
 pbat/command/pBat_Copy.c  | 14 ++++++++++++++
 pbat/command/pBat_Del.c   |  7 +++++++
 pbat/command/pBat_Rmdir.c |  7 +++++++
 5 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index 08accd1..e3f911d 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -23,6 +23,7 @@
 #endif
 
 #include <ctype.h>
+#include <errno.h>
 #include "../libpBat.h"
 #include "../libpBat-int.h"
 #include "../../config.h"
@@ -31,6 +32,14 @@
 #include <strings.h>
 #endif
 
+/* The number of directories the last search of this thread could not read */
+static __thread int iSearchErrors = 0;
+
+LIBPBAT int pBat_GetMatchErrors(void)
+{
+    return iSearchErrors;
+}
+
 #if !defined(PBAT_USE_LIBCU8)
 
 struct match_args_t {
@@ -385,11 +394,15 @@ static FILELIST* pBat_GetMatch(char* restrict base, char* restrict up, struct ma
     }
 
     /* Now we have checked every possible trivial dir, browse dir */
-    if ((dir = opendir((base != NULL) ? (base) : ("."))) == NULL)
+    if ((dir = opendir((base != NULL) ? (base) : ("."))) == NULL) {
+        /* a directory that does not exist just contains no match */
+        if (errno != ENOENT && errno != ENOTDIR)
+            iSearchErrors ++;
         goto end;
+    }
 
     /* loop through the directory entities */
-    while ((ent = readdir(dir))) {
+    while (errno = 0, (ent = readdir(dir))) {
 
         /* skip basic pseudo dirs */
         if ((arg->flags & PBAT_SEARCH_NO_PSEUDO_DIR)
@@ -511,6 +524,9 @@ static FILELIST* pBat_GetMatch(char* restrict base, char* restrict up, struct ma
 
     }
 
+    if (errno)
+        iSearchErrors ++;
+
 end:
     if (dir)
         closedir(dir);
@@ -546,6 +562,8 @@ LIBPBAT LPFILELIST  pBat_GetMatchFileList(char* lpPathMatch, int iFlag)
     args.flags = iFlag;
     args.files =  NULL;
 
+    iSearchErrors = 0;
+
     file = pBat_GetMatch(NULL, lpPathMatch, &args);
 
     if (file == (FILELIST*)-1) {
@@ -572,6 +590,8 @@ LIBPBAT int pBat_GetMatchFileCallback(char* lpPathMatch, int iFlag, void(*pCallB
     args.flags = iFlag;
     args.files =  NULL;
 
+    iSearchErrors = 0;
+
     file = pBat_GetMatch(NULL, lpPathMatch, &args);
 
     if (file == (FILELIST*)-1) {
diff --git a/libpbat/libpBat.h b/libpbat/libpBat.h
index 1967cd7..2a76379 100644
--- a/libpbat/libpBat.h
+++ b/libpbat/libpBat.h
@@ -428,6 +428,7 @@ typedef struct FILELIST {
 LIBPBAT int         pBat_RegExpMatch(const char* restrict lpRegExp, const char* restrict lpMatch);
 LIBPBAT int         pBat_RegExpCaseMatch(const char* restrict lpRegExp, const char* restrict lpMatch);
 LIBPBAT LPFILELIST  pBat_GetMatchFileList(char* lpPathMatch, int iFlag);
+LIBPBAT int         pBat_GetMatchErrors(void);
 LIBPBAT int         pBat_GetMatchFileCallback(char* lpPathMatch, int iFlag, void(*pCallBack)(FILELIST*));
 LIBPBAT int         pBat_FreeFileList(LPFILELIST lpflFileList);
 LIBPBAT int         pBat_FormatFileSize (char* lpBuf, int iLenght, unsigned int iSize);
diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 11e78e2..f9a3006 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -265,6 +265,13 @@ int pBat_CmdCopy(char* line)
 
         }
 
+        if (pBat_GetMatchErrors()) {
+
+            pBat_ShowErrorMessage(PBAT_DIRECTORY_ERROR, file[i], FALSE);
+            status |= PBAT_DIRECTORY_ERROR;
+
+        }
+
         if (files == NULL) {
             files = next;
         } else {
@@ -446,6 +453,13 @@ int pBat_CmdCopyRecursive(char* file, const char* dest, short attr, int* flags)
 
     }
 
+    if (pBat_GetMatchErrors()) {
+
+        pBat_ShowErrorMessage(PBAT_DIRECTORY_ERROR, file, FALSE);
+        status = PBAT_DIRECTORY_ERROR;
+
+    }
+
     pBat_AttributesSplitFileList(attr,
                                  files,
                                  &files,
diff --git a/pbat/command/pBat_Del.c b/pbat/command/pBat_Del.c
index ba92449..de5568d 100644
--- a/pbat/command/pBat_Del.c
+++ b/pbat/command/pBat_Del.c
@@ -181,6 +181,13 @@ int pBat_CmdDel(char* lpLine)
             continue;
         }
 
+        if (pBat_GetMatchErrors()) {
+
+            pBat_ShowErrorMessage(PBAT_DIRECTORY_ERROR, name[i], FALSE);
+            status |= PBAT_DIRECTORY_ERROR;
+
+        }
+
         if (strpbrk(name[i], "*?") != NULL)
             param |= PBAT_USE_JOKER;
 
diff --git a/pbat/command/pBat_Rmdir.c b/pbat/command/pBat_Rmdir.c
index 5009375..f6c2c5c 100644
--- a/pbat/command/pBat_Rmdir.c
+++ b/pbat/command/pBat_Rmdir.c
@@ -184,6 +184,13 @@ int pBat_CmdRmdir(char* lpLine)
                 continue;
             }
 
+            if (pBat_GetMatchErrors()) {
+
+                pBat_ShowErrorMessage(PBAT_DIRECTORY_ERROR, name[i], FALSE);
+                status |= PBAT_DIRECTORY_ERROR;
+
+            }
+
             if (files == NULL) {
 
                 files = dir;
-- 
2.43.0


From 8f94114aee344dfc6e92fd308f221e88f18e4853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 44/99] fix: display every file given to TYPE

Only the last match of the last argument followed the first match of the
first one.
---
 pbat/command/pBat_Type.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pbat/command/pBat_Type.c b/pbat/command/pBat_Type.c
index 87af0ff..d923aba 100644
--- a/pbat/command/pBat_Type.c
+++ b/pbat/command/pBat_Type.c
@@ -146,6 +146,9 @@ int pBat_CmdType(char* lpLine)
             else
                 pEnd->lpflNext = pTmp; /* catenate the lists */
 
+            while (pEnd->lpflNext)
+                pEnd = pEnd->lpflNext;
+
         }
 
     }
-- 
2.43.0


From 1f821e606085fc6c0d3eacc8f26e5c7b4b710f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 45/99] fix: count the word that ends a file in WC

---
 pbat/command/pBat_Wc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/command/pBat_Wc.c b/pbat/command/pBat_Wc.c
index 8c882cd..246cceb 100644
--- a/pbat/command/pBat_Wc.c
+++ b/pbat/command/pBat_Wc.c
@@ -145,6 +145,10 @@ int pBat_FileCounts(int mode, const char* file, struct wc_count_t* cnt)
 
     }
 
+    /* the last word may well end with the file */
+    if (inword)
+        cnt->words ++;
+
     /* Wait ... Fool, were you just about to close a file that could refer
        to stdin ? double check it's not so before closing the file */
     if (fd != fileno(fInput)) {
-- 
2.43.0


From a4a599bd25301b6b3a4c9aa5c54085b2d5de0c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 46/99] fix: count the bytes of the standard input in WC
 without switch

---
 pbat/command/pBat_Wc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Wc.c b/pbat/command/pBat_Wc.c
index 246cceb..343ef87 100644
--- a/pbat/command/pBat_Wc.c
+++ b/pbat/command/pBat_Wc.c
@@ -297,6 +297,10 @@ int pBat_CmdWc(char* line)
         }
     }
 
+    /* Count bytes by default */
+    if (mode == 0)
+        mode = PBAT_WC_BYTES;
+
     /* Display no error about file given ... */
     if (match == NULL) {
         /* Something to do with stdin */
@@ -304,10 +308,6 @@ int pBat_CmdWc(char* line)
         pBat_PrintCounts(mode, &cnt, NULL);
     }
 
-    /* Count bytes by default */
-    if (mode == 0)
-        mode = PBAT_WC_BYTES;
-
     /* Perform count on files */
     item = match;
     while (item) {
-- 
2.43.0


From 0ce702d82441702d38f01752c73f214e7eea0325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 47/99] fix: go on after a file that MORE can not open

The stream that could not be opened was closed all the same, and the files
that follow were ignored.
---
 pbat/command/pBat_More.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 8dabdb0..2c986e1 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -221,9 +221,9 @@ int pBat_CmdMore(char* line)
 
         next = list;
 
-        while (next && !status) {
+        while (next) {
 
-            status = pBat_MoreFile(fIn, flags, tabsize, begin, next->lpFileName);
+            status |= pBat_MoreFile(fIn, flags, tabsize, begin, next->lpFileName);
             next = next->lpflNext;
 
         }
@@ -257,9 +257,7 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
                                     FALSE
                                     );
 
-            status = PBAT_FILE_ERROR;
-
-            goto end;
+            return PBAT_FILE_ERROR;
         }
 
      } else {
-- 
2.43.0


From 05e3a53e4b0cd13c257291c1abf68ff969b77ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 48/99] fix: keep the blank lines that follow a broken line in
 MORE

Only the end of a line that fills the screen exactly goes without saying, and
only within the same file.
---
 pbat/command/pBat_More.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 2c986e1..72f7252 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -41,6 +41,11 @@
 
 #include "../../config.h"
 
+/* What is known of the line written before the current one */
+static __thread int blank=0,
+                    cr=0; /* a carriot return was included at the end of
+                             the preceding line */
+
 static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file);
 static int pBat_MorePrompt(FILE* fIn, int* toprint, int* skip, int* ok);
 
@@ -266,6 +271,8 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
 
      }
 
+     blank = cr = 0;
+
      if (!(flags & PBAT_MORE_INTERACTIVE)) {
 
         /* if we do not output in a tty, do not perform user interaction */
@@ -366,10 +373,6 @@ static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file)
         col=0,
         ncol;
 
-    static __thread int blank=0,
-                cr=0; /* a carriot return was included at the end of
-                         the preceding line */
-
     int(*more_fputc)(int,FILE*)=fputc;
 
 #ifdef WIN32
@@ -450,8 +453,10 @@ static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file)
                     if (blank && (flags & PBAT_MORE_SQUEEZE))
                         continue;
 
-                    if (cr)
+                    if (cr) {
+                        cr = 0;
                         continue;
+                    }
 
                     blank = 1;
 
-- 
2.43.0


From e3d791c38bcb2abfdb7854b8d9ab0c5e45fd3aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 49/99] fix: report what TYPE, FIND, WC and MORE can not read

A failing read was taken for the end of the file.
---
 pbat/command/pBat_Find.c | 13 +++++++++++++
 pbat/command/pBat_More.c | 13 ++++++++++++-
 pbat/command/pBat_Type.c | 27 +++++++++++++++++++--------
 pbat/command/pBat_Wc.c   | 15 ++++++++++++---
 4 files changed, 56 insertions(+), 12 deletions(-)

diff --git a/pbat/command/pBat_Find.c b/pbat/command/pBat_Find.c
index 832a09c..f73b63e 100644
--- a/pbat/command/pBat_Find.c
+++ b/pbat/command/pBat_Find.c
@@ -144,6 +144,19 @@ int pBat_FileFind(char* restrict str, char* restrict name, int count, int flag,
 
     }
 
+    if (ferror(pFile)) {
+
+        pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
+                                name ? name : "stdin",
+                                FALSE
+                                );
+        clearerr(pFile);
+        i = 0;
+
+        goto end;
+
+    }
+
     if (count == 2)
         fprintf(fOutput, "%d" PBAT_NL, i);
 
diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 72f7252..7357e9d 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -200,7 +200,7 @@ int pBat_CmdMore(char* line)
 
     if (!list) {
 
-        pBat_MoreFile(fIn, flags, tabsize, begin, NULL);
+        status = pBat_MoreFile(fIn, flags, tabsize, begin, NULL);
 
     } else {
 
@@ -308,6 +308,17 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
      }
 
 end:
+     if (ferror(file)) {
+
+        pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
+                                filename ? filename : "stdin",
+                                FALSE
+                                );
+        clearerr(file);
+        status = PBAT_FILE_ERROR;
+
+     }
+
      if (file != fInput)
         fclose(file);
      else if (isatty(fileno(fInput)))
diff --git a/pbat/command/pBat_Type.c b/pbat/command/pBat_Type.c
index d923aba..4fada1f 100644
--- a/pbat/command/pBat_Type.c
+++ b/pbat/command/pBat_Type.c
@@ -50,23 +50,35 @@
 
 */
 
-void pBat_TypeFileF(FILE* pFile)
+int pBat_TypeFileF(FILE* pFile, const char* lpFileName)
 {
     char buf[1024];
     size_t size;
+    int status = 0;
 
     while ((size = fread(buf, 1, sizeof(buf), pFile)))
         fwrite(buf, 1, size, fOutput);
 
-    if (isatty(fileno(pFile)))
+    if (ferror(pFile)) {
+
+        pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
+                                lpFileName,
+                                FALSE
+                                );
+        status = PBAT_FILE_ERROR;
+
+    }
+
+    if (status || isatty(fileno(pFile)))
         clearerr(pFile);
+
+    return status;
 }
 
 int pBat_TypeFile(char* lpFileName)
 {
     FILE* pFile;
-    char buf[1024];
-    size_t size;
+    int status;
 
     if (!(pFile=fopen(lpFileName, "rb"))) {
 
@@ -78,12 +90,11 @@ int pBat_TypeFile(char* lpFileName)
         return PBAT_FILE_ERROR;
     }
 
-    while ((size = fread(buf, 1, sizeof(buf), pFile)))
-        fwrite(buf, 1, size, fOutput);
+    status = pBat_TypeFileF(pFile, lpFileName);
 
     fclose(pFile);
 
-    return 0;
+    return status;
 }
 
 int pBat_CmdType(char* lpLine)
@@ -155,7 +166,7 @@ int pBat_CmdType(char* lpLine)
 
     if (pTmp == NULL) {
         /* If the command has no parameter */
-        pBat_TypeFileF(fInput);
+        status = pBat_TypeFileF(fInput, "stdin");
 
     } else {
 
diff --git a/pbat/command/pBat_Wc.c b/pbat/command/pBat_Wc.c
index 343ef87..297d398 100644
--- a/pbat/command/pBat_Wc.c
+++ b/pbat/command/pBat_Wc.c
@@ -65,6 +65,7 @@
 int pBat_FileCounts(int mode, const char* file, struct wc_count_t* cnt)
 {
     int fd,
+        status = 0,
         inword = 0; /* true if within a word */
     char buf[1024], *pch;
     size_t size;
@@ -145,6 +146,14 @@ int pBat_FileCounts(int mode, const char* file, struct wc_count_t* cnt)
 
     }
 
+    if (size == -1) {
+
+        pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
+                                file ? file : "stdin", 0);
+        status = PBAT_FILE_ERROR;
+
+    }
+
     /* the last word may well end with the file */
     if (inword)
         cnt->words ++;
@@ -157,7 +166,7 @@ int pBat_FileCounts(int mode, const char* file, struct wc_count_t* cnt)
         clearerr(fInput);
     }
 
-    return 0;
+    return status;
 }
 
 void pBat_AddCounts(struct wc_count_t* res, const struct wc_count_t* val)
@@ -304,8 +313,8 @@ int pBat_CmdWc(char* line)
     /* Display no error about file given ... */
     if (match == NULL) {
         /* Something to do with stdin */
-        status = pBat_FileCounts(mode, NULL, &cnt);
-        pBat_PrintCounts(mode, &cnt, NULL);
+        if (!(status = pBat_FileCounts(mode, NULL, &cnt)))
+            pBat_PrintCounts(mode, &cnt, NULL);
     }
 
     /* Perform count on files */
-- 
2.43.0


From e930dadfcea261ab06ed47e8f80946d3c5014a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 50/99] fix: ignore directories in FIND

---
 pbat/command/pBat_Find.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Find.c b/pbat/command/pBat_Find.c
index f73b63e..33cea5e 100644
--- a/pbat/command/pBat_Find.c
+++ b/pbat/command/pBat_Find.c
@@ -299,7 +299,7 @@ int pBat_CmdFind(char* lpLine)
     }
 
     /* split directories from input */
-    pBat_AttributesSplitFileList(PBAT_CMD_ATTR_DIR_N,
+    pBat_AttributesSplitFileList(PBAT_ATTR_NO_DIR,
                                     pBegin,
                                     &pBegin,
                                     &pTmp
-- 
2.43.0


From 534c58502b16ef8fc237463db700df81e305b532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:45 +0000
Subject: [PATCH 51/99] fix: leave no dangling entry in the command list when
 memory is short

---
 libpbat/cmdlist/pBat_CmdList.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libpbat/cmdlist/pBat_CmdList.c b/libpbat/cmdlist/pBat_CmdList.c
index 7963c12..f97b5dd 100644
--- a/libpbat/cmdlist/pBat_CmdList.c
+++ b/libpbat/cmdlist/pBat_CmdList.c
@@ -78,6 +78,7 @@ LIBPBAT int pBat_AddCommandDynamic(LPCOMMANDINFO lpciCommandInfo,
                     /* cleanup and exit */
 
                     free(lpclList->lpclRightRoot);
+                    lpclList->lpclRightRoot = NULL;
 
                     return -1;
 
@@ -95,12 +96,13 @@ LIBPBAT int pBat_AddCommandDynamic(LPCOMMANDINFO lpciCommandInfo,
 
                 lpclList->lpclLeftRoot=malloc(sizeof(COMMANDLIST));
 
-                if (!lpclList)
+                if (!lpclList->lpclLeftRoot)
                     return -1;
 
                 if ((_pBat_FillCommandList(lpclList->lpclLeftRoot, lpciCommandInfo))) {
 
                     free(lpclList->lpclLeftRoot);
+                    lpclList->lpclLeftRoot = NULL;
 
                     return -1;
 
-- 
2.43.0


From d70cdbf5d443cc8e8502f7bd2f6ab55d80b5a8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 52/99] fix: handle interrupts only once the interpreter is set
 up

---
 pbat/pBat.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pbat/pBat.c b/pbat/pBat.c
index 289f74b..fda0518 100644
--- a/pbat/pBat.c
+++ b/pbat/pBat.c
@@ -88,17 +88,7 @@ int main(int argc, char *argv[])
     }
 #endif
 
-#if !defined(WIN32)
-
-    /* Sets the default signal handler */
-
-    struct sigaction action;
-    memset(&action, 0, sizeof(action));
-    action.sa_handler=pBat_SigHandlerBreak;
-    action.sa_flags=SA_NODEFER | SA_RESTART;
-    sigaction(SIGINT, &action, NULL);
-
-#else
+#if defined(WIN32)
 
     /* Retrieve the main thread id */
     iMainThreadId = GetCurrentThreadId();
@@ -137,6 +127,14 @@ int main(int argc, char *argv[])
 
 #ifndef WIN32
     pBat_CreateMutex(&mLineNoise);
+
+    /* Sets the default signal handler, now that the environment and the
+       streams it uses are set up */
+    struct sigaction action;
+    memset(&action, 0, sizeof(action));
+    action.sa_handler=pBat_SigHandlerBreak;
+    action.sa_flags=SA_NODEFER | SA_RESTART;
+    sigaction(SIGINT, &action, NULL);
 #endif
 
     /* Process the command line, and set the appropriate special variables for
-- 
2.43.0


From c12fde6fbbfe284ae820f56330f2342a83af6ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 53/99] fix: report fatal errors before set up and wait for a
 key only on a terminal

---
 pbat/errors/pBat_Errors.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pbat/errors/pBat_Errors.c b/pbat/errors/pBat_Errors.c
index 5753112..2d713e4 100644
--- a/pbat/errors/pBat_Errors.c
+++ b/pbat/errors/pBat_Errors.c
@@ -21,6 +21,11 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <errno.h>
+#ifdef WIN32
+#include <io.h>
+#else
+#include <unistd.h>
+#endif
 
 #include <libpBat.h>
 #include <locale.h>
@@ -247,6 +252,13 @@ void pBat_ShowErrorMessage(unsigned int iErrorNumber,
 {
 	char* msg = "Undefined";
 
+	/* the streams and messages may not be set up yet */
+	if (!fError)
+		fError = stderr;
+
+	if (!lpQuitMessage)
+		pBat_LoadErrors();
+
 	pBat_SetConsoleTextColor(fError, PBAT_GET_BACKGROUND(colColor) | PBAT_FOREGROUND_IRED);
 
 	if (iErrorNumber & PBAT_PRINT_C_ERROR)
@@ -277,7 +289,10 @@ void pBat_ShowErrorMessage(unsigned int iErrorNumber,
 
         fprintf(fError, PBAT_NL "%s" PBAT_NL, lpQuitMessage);
 
-		pBat_Getch(fInput);
+		/* only a user can press a key. Reading from anything else may
+		   block forever or steal data */
+		if (fInput && isatty(fileno(fInput)))
+			pBat_Getch(fInput);
 
 		exit(iErrorNumber & (~PBAT_PRINT_C_ERROR));
 
-- 
2.43.0


From ef8f3266e80b9f1c745ed1be724907c493a19ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 54/99] fix: report malformed blocks instead of crashing

---
 pbat/core/pBat_Args.c |  8 ++++++--
 pbat/core/pBat_Run.c  | 10 ++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pbat/core/pBat_Args.c b/pbat/core/pBat_Args.c
index 83ab27f..b6f8f4e 100644
--- a/pbat/core/pBat_Args.c
+++ b/pbat/core/pBat_Args.c
@@ -144,7 +144,10 @@ char* pBat_GetBlockLine(char* pLine, BLOCKINFO* pBk)
 {
     char *pEnd;
 
-    pEnd = pBat_GetBlockLineEnd(pLine);
+    /* if the line is malformed, take the rest of it. The error is reported
+       when it is run */
+    if ((pEnd = pBat_GetBlockLineEnd(pLine)) == NULL)
+        pEnd = pLine + strlen(pLine);
 
     if (*pLine=='(')
         pLine++;
@@ -171,7 +174,8 @@ char* pBat_GetNextBlockEs(char* lpLine, ESTR* lpReturn)
 	/* replace delayed expansion */
 	pBat_DelayedExpand(lpReturn);
 
-	return lpNext+1;
+	/* an unclosed block ends with the line */
+	return *lpNext ? lpNext+1 : lpNext;
 
 }
 
diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 3e3426c..f481149 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -624,8 +624,13 @@ int pBat_RunBlock(BLOCKINFO* lpbkInfo)
 
             lpBlockEnd = pBat_SkipBlanks(lpBlockEnd);
 
-            lpBlockEnd = pBat_GetBlockLineEnd(lpBlockEnd);
-            assert(lpBlockEnd);
+            if ((lpBlockEnd = pBat_GetBlockLineEnd(lpBlockEnd)) == NULL) {
+
+                pBat_ShowErrorMessage(PBAT_MALFORMED_BLOCKS, lpToken, FALSE);
+                iErrorLevel = PBAT_MALFORMED_BLOCKS;
+                goto end;
+
+            }
 
             if (*lpBlockEnd == '&' || *lpBlockEnd == '|')
                 lpBlockEnd ++;
@@ -668,6 +673,7 @@ int pBat_RunBlock(BLOCKINFO* lpbkInfo)
 
 	}
 
+end:
 	/* releases the lock */
 	pBat_SetStreamStackLockState(lppsStreamStack, iOldState);
 
-- 
2.43.0


From 96e53c4197138bbabe1162fb325288023386efc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:32 +0000
Subject: [PATCH 55/99] fix: check the allocation of variable blocks

---
 pbat/core/pBat_Var.c | 13 +++++++++++++
 pbat/core/pBat_Var.h |  3 ++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index fff0263..36610f0 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -597,6 +597,19 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
 	return lpName+1;
 }
 
+LOCAL_VAR_BLOCK* pBat_GetLocalBlock(void)
+{
+    LOCAL_VAR_BLOCK* block = calloc(LOCAL_VAR_BLOCK_SIZE,
+                                    sizeof(LOCAL_VAR_BLOCK));
+
+    if (block == NULL)
+        pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION
+                              | PBAT_PRINT_C_ERROR,
+                              __FILE__ "/pBat_GetLocalBlock()", -1);
+
+    return block;
+}
+
 LOCAL_VAR_BLOCK* pBat_DuplicateLocalVar(LOCAL_VAR_BLOCK* block)
 {
     LOCAL_VAR_BLOCK* new;
diff --git a/pbat/core/pBat_Var.h b/pbat/core/pBat_Var.h
index ce6013c..fff0ef5 100644
--- a/pbat/core/pBat_Var.h
+++ b/pbat/core/pBat_Var.h
@@ -39,12 +39,13 @@
 
 #define PBAT_VAR_MAX_OPTION 16
 
-#define pBat_GetLocalBlock() (LOCAL_VAR_BLOCK*)calloc(LOCAL_VAR_BLOCK_SIZE, sizeof(LOCAL_VAR_BLOCK))
 #define pBat_IsLocalVarValid(c)  (c < 0x80 && c > 0x20)
 
 
 typedef char* LOCAL_VAR_BLOCK;
 
+LOCAL_VAR_BLOCK* pBat_GetLocalBlock(void);
+
 int              pBat_InitVar(char* lpArray[]);
 
 void             pBat_SetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char cVarName, char* cVarContent);
-- 
2.43.0


From c90d367f49bbfdc0ab0f60950b4cebbed90fa09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:48 +0000
Subject: [PATCH 56/99] fix: evaluate both sides of AND in IF expressions

---
 pbat/command/pBat_IfExp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index cce9da2..9db2c98 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -134,10 +134,12 @@ int pBat_IfExp_Evaluate(ifexp_t* exp, int flags)
 
     /* take a shortcut here, on some occasions you don't have to
        evaluate the left hand side of the expression */
-    if (exp->type == IFEXP_AND )
+    if (exp->type == IFEXP_AND) {
+
         if (!res1)
             return 0;
-    else if (res2)
+
+    } else if (res1)
         return 1;
 
     if (exp->child2.type == IFEXP_NODE_OPS) {
-- 
2.43.0


From f5f8b10e07815cf063dc307f9a809c61735f1f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:48 +0000
Subject: [PATCH 57/99] fix: report malformed IF expressions instead of
 crashing

---
 pbat/command/pBat_If.c    | 12 ++++++++++++
 pbat/command/pBat_IfExp.c | 17 ++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 1c22f43..b41bf32 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -323,6 +323,18 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 
 	}
 
+    if (lpParam == NULL) {
+
+        /* the condition is not followed by any command */
+        pBat_ShowErrorMessage(PBAT_EXPECTED_MORE, "IF", FALSE);
+
+        if (lpplLine)
+            *lpplLine = NULL;
+
+        return PBAT_EXPECTED_MORE;
+
+    }
+
     lpNext = pBat_SkipBlanks(lpParam);
 
     if (iResult) {
diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index 9db2c98..0f95fd9 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -174,6 +174,10 @@ int pBat_IfExp_ExecuteTest(ifexp_line_t* test, int flags)
 
     FILELIST* files;
 
+    /* there is no test, e.g. in "[ ]" */
+    if (test == NULL)
+        return -1;
+
     if (!stricmp(test->op->str, "NOT")) {
 
         neg = 1;
@@ -271,6 +275,8 @@ ifexp_t* pBat_IfExp_Parse(ifexp_line_t* line)
     return exp;
 
 error:
+    pBat_IfExp_FreeLine(line);
+    pBat_IfExp_FreeLine(rhs);
     free(exp);
     return NULL;
 }
@@ -286,7 +292,8 @@ void pBat_IfExp_FillChild(ifexp_child_t* child, ifexp_line_t* line)
 
     } else {
 
-        child->child.ops = line;
+        /* the line was not valid, and it has been released */
+        child->child.ops = NULL;
         child->type = IFEXP_NODE_OPS;
 
     }
@@ -336,6 +343,10 @@ int pBat_IfExp_SuppressOneBracketPair(ifexp_line_t** line)
     }
 
 
+    /* the bracket is never closed */
+    if (count != 0)
+        return 0;
+
     /* free the last bracket */
     prev->next = NULL;
     pBat_EsFree_Cached(ops->op);
@@ -363,6 +374,8 @@ int pBat_IfExp_Cut(char* tok, ifexp_line_t** begin, ifexp_line_t** end)
         pBat_EsFree_Cached(line->op);
         free (line);
 
+        return 1;
+
     }
 
     if (EQUCHR(line->op->str, '['))
@@ -401,6 +414,8 @@ char * pBat_IfExp_ParseLine(char* line, ifexp_line_t** ops)
     ESTR* str = pBat_EsInit_Cached();
     ifexp_line_t *ret = NULL, *last=NULL;
 
+    *ops = NULL;
+
     while ((line = pBat_GetNextParameterEs(line, str))) {
 
         if (!strcmp("[", pBat_EsToChar(str))) {
-- 
2.43.0


From e6394852ebbc45950c57df277c5a685f8f695ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 58/99] fix: give AND precedence over OR in IF expressions

---
 pbat/command/pBat_IfExp.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index 0f95fd9..7e9343d 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -243,23 +243,24 @@ ifexp_t* pBat_IfExp_Parse(ifexp_line_t* line)
     if (!(exp = malloc(sizeof(ifexp_t))))
         return NULL;
 
-    if (pBat_IfExp_Cut("AND", &line, &rhs)) {
+    /* AND binds tighter than OR, thus cut at OR first */
+    if (pBat_IfExp_Cut("OR", &line, &rhs)) {
 
         if (line == NULL || rhs == NULL)
             goto error;
 
-        exp->type = IFEXP_AND;
+        exp->type = IFEXP_OR;
 
         pBat_IfExp_FillChild(&(exp->child1), line);
         pBat_IfExp_FillChild(&(exp->child2), rhs);
 
 
-    } else if (pBat_IfExp_Cut("OR", &line, &rhs)) {
+    } else if (pBat_IfExp_Cut("AND", &line, &rhs)) {
 
         if (line == NULL || rhs == NULL)
             goto error;
 
-        exp->type = IFEXP_OR;
+        exp->type = IFEXP_AND;
 
         pBat_IfExp_FillChild(&(exp->child1), line);
         pBat_IfExp_FillChild(&(exp->child2), rhs);
-- 
2.43.0


From aafbcddd1a9701ea1868a2cabe142d3778a565dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 59/99] fix: show the help of MOVE instead of crashing

---
 pbat/lang/pBat_ShowHelp.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pbat/lang/pBat_ShowHelp.c b/pbat/lang/pBat_ShowHelp.c
index 5a83b3e..5c2115d 100644
--- a/pbat/lang/pBat_ShowHelp.c
+++ b/pbat/lang/pBat_ShowHelp.c
@@ -65,6 +65,10 @@ void pBat_LoadInternalHelp(void)
 	    =gettext("Copy file(s) to another location.\n"
 	             "Usage: COPY [/R] [/-Y | /Y] [/A[:]attributes] source [+] ... destination\n");
 
+	lpInternalHelp[PBAT_HELP_MOVE]
+	    =gettext("Move file(s) to another location.\n"
+	             "Usage: MOVE [/R] [/-Y | /Y] [/A[:]attributes] source ... destination\n");
+
 	lpInternalHelp[PBAT_HELP_CALL]
 	    =gettext("Call a script or a label from the current context.\n"
 	             "Usage: CALL [/e] [file] [:label] [parameters ...]\n");
@@ -244,7 +248,8 @@ void pBat_ShowInternalHelp(int cmdId)
 	if ((cmdId >= 0)
 	    && (cmdId < PBAT_HELP_ARRAY_SIZE)) {
 
-        p = lpInternalHelp[cmdId];
+        if ((p = lpInternalHelp[cmdId]) == NULL)
+            return;
 
         /* Translate '\n' to PBAT_NL */
         while (nl = strchr(p, '\n')) {
-- 
2.43.0


From 29e56e6dd2791c50b2db390ba48419074119ad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:34 +0000
Subject: [PATCH 60/99] fix: keep very long file names within their buffers

---
 pbat/command/pBat_Copy.c   | 2 +-
 pbat/command/pBat_Ren.c    | 2 +-
 pbat/core/pBat_SplitPath.c | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index f9a3006..b151b92 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -367,7 +367,7 @@ int pBat_CmdCopyFile(char* file, const char* dest, int* flags)
 
         pBat_SplitPath(file, NULL, NULL, name, ext);
 
-        strncat(name, ext, FILENAME_MAX - strlen(name));
+        strncat(name, ext, FILENAME_MAX - strlen(name) - 1);
         name[FILENAME_MAX-1] = '\0';
 
         pBat_MakePath(dest_real, 2, dest, name);
diff --git a/pbat/command/pBat_Ren.c b/pbat/command/pBat_Ren.c
index 2077b36..dcfb804 100644
--- a/pbat/command/pBat_Ren.c
+++ b/pbat/command/pBat_Ren.c
@@ -103,7 +103,7 @@ int pBat_CmdRen(char* lpLine)
 			}
 
 			/* cat with new name */
-			strncat(lpFileDest, pBat_EsToChar(lpEstr), FILENAME_MAX-strlen(lpFileDest));
+			strncat(lpFileDest, pBat_EsToChar(lpEstr), FILENAME_MAX-strlen(lpFileDest)-1);
 			lpFileDest[FILENAME_MAX-1]='\0';
 			/* can't assume that what was buffered is NULL-terminated
 			   see the C-89,99,11 standards for further informations */
diff --git a/pbat/core/pBat_SplitPath.c b/pbat/core/pBat_SplitPath.c
index 4a8821b..8bbe457 100644
--- a/pbat/core/pBat_SplitPath.c
+++ b/pbat/core/pBat_SplitPath.c
@@ -57,7 +57,7 @@ void pBat_SplitPath(char* lpPath,
 		PBAT_DBG("found path=\"%s\"\n", lpToken);
 
 		if (lpDir)
-			strncpy(lpDir, lpToken, _MAX_DIR);
+			snprintf(lpDir, _MAX_DIR, "%s", lpToken);
 
 		*lpNextToken=cSaveChar;
 		lpToken=lpNextToken;
@@ -78,7 +78,7 @@ void pBat_SplitPath(char* lpPath,
 
 
 		if (lpName)
-			strncpy(lpName, lpToken, _MAX_FNAME);
+			snprintf(lpName, _MAX_FNAME, "%s", lpToken);
 
 		*lpNextToken=cSaveChar;
 		lpToken=lpNextToken+1;
@@ -91,7 +91,7 @@ void pBat_SplitPath(char* lpPath,
 	} else {
 
 		if (lpName)
-			strncpy(lpName, lpToken, _MAX_FNAME);
+			snprintf(lpName, _MAX_FNAME, "%s", lpToken);
 
 		if (lpExt)
 			*lpExt='\0';
-- 
2.43.0


From 64013fd3b5a6959eb27ec65dbbb077b1c13acc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 61/99] fix: survive the files that FOR /F can not open

---
 pbat/command/pBat_For.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index d3b3f85..24337e7 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1272,6 +1272,7 @@ int pBat_ForMakeInputInfo(ESTR* lpInput, INPUTINFO* lpipInfo, FORINFO* lpfrInfo)
 				pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
                                         lpToken,
                                         FALSE);
+				pBat_ForCloseInputInfo(lpipInfo);
 				return PBAT_FILE_ERROR;
 
 			}
@@ -1443,7 +1444,6 @@ int pBat_ForGetInputLine(ESTR* lpReturn, INPUTINFO* lpipInfo)
 
 	int iReturn=0;
 	char* lpToken;
-	char name[FILENAME_MAX];
 
 loop_begin:
     iReturn=0;
@@ -1466,13 +1466,17 @@ retry:
                 }
 
                 /* if the file list is not finished, then, open the next file */
+                fclose(lpipInfo->Info.InputFile.pFile);
+
                 if (!(lpipInfo->Info.InputFile.pFile =
                         fopen(lpipInfo->Info.InputFile.lpesFiles[
                             		lpipInfo->Info.InputFile.index
                             	]->str, "rb"))) {
 
                     pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
-                            name,
+                            lpipInfo->Info.InputFile.lpesFiles[
+                                    lpipInfo->Info.InputFile.index
+                                ]->str,
                             FALSE
                             );
 
@@ -1562,7 +1566,8 @@ void pBat_ForCloseOpenedInputs(void)
     for (;lpipOpenedInputs != NULL;
             lpipOpenedInputs = lpipOpenedInputs->lpipPrevious) {
 
-        if (lpipOpenedInputs->cType != INPUTINFO_TYPE_STRING)
+        if (lpipOpenedInputs->cType != INPUTINFO_TYPE_STRING
+            && lpipOpenedInputs->Info.InputFile.pFile != NULL)
             fclose(lpipOpenedInputs->Info.InputFile.pFile);
 
     }
@@ -1586,7 +1591,9 @@ void pBat_ForCloseInputInfo(INPUTINFO* lpipInfo)
 
 		case INPUTINFO_TYPE_STREAM:
 
-            fclose(lpipInfo->Info.InputFile.pFile);
+            /* NULL if one of the files could not be opened */
+            if (lpipInfo->Info.InputFile.pFile != NULL)
+                fclose(lpipInfo->Info.InputFile.pFile);
 
 			while(lpipInfo->Info.InputFile.lpesFiles[i] != NULL) {
 
-- 
2.43.0


From 17857e597ef3915742f5f2c52cc07805524ee5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 62/99] fix: fail only the command for which no pipe can be
 created

---
 pbat/command/pBat_For.c | 12 +++++++++---
 pbat/core/pBat_Exec.c   |  9 +++++++--
 pbat/core/pBat_Run.c    | 34 ++++++++++++++++++++++++++++------
 3 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 24337e7..56b53e6 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1303,12 +1303,18 @@ int pBat_ForMakeInputInfo(ESTR* lpInput, INPUTINFO* lpipInfo, FORINFO* lpfrInfo)
             /* Serialize this with pBat_RunFile() */
             PBAT_RUNFILE_LOCK();
 
-			if (_pBat_Pipe(iPipeFd, 4096, O_BINARY) == -1)
+			status = _pBat_Pipe(iPipeFd, 4096, O_BINARY);
+
+			PBAT_RUNFILE_RELEASE();
+
+			if (status == -1) {
+
 				pBat_ShowErrorMessage(PBAT_CREATE_PIPE | PBAT_PRINT_C_ERROR ,
                                         __FILE__ "/pBat_MakeInputInfo()",
-                                        PBAT_CREATE_PIPE);
+                                        FALSE);
+				return PBAT_CREATE_PIPE;
 
-			PBAT_RUNFILE_RELEASE();
+			}
 
 			/* Launch the actual command from which we get input on a separate
                pBat thread */
diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 5a89429..41adf84 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -291,10 +291,15 @@ int pBat_RunFile(EXECINFO* info, int* error)
 
 	}
 
-	if (pipe(fds) == -1)
+	if (pipe(fds) == -1) {
+
         pBat_ShowErrorMessage(PBAT_CREATE_PIPE | PBAT_PRINT_C_ERROR,
                                 __FILE__ "/pBat_RunFile()",
-                                -1);
+                                FALSE);
+        *error = 1;
+        return -1;
+
+	}
 
 	iPid=fork();
 
diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index f481149..67266e7 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -115,7 +115,8 @@ int pBat_ExecOperators(PARSED_LINE** lpLine, struct pipe_thread_t** lppThreads)
     PARSED_LINE* line=*lpLine;
     char *pch;
     int status = 0,
-        lastin = -1;
+        lastin = -1,
+        error;
 
     pch = line->lpCmdLine->str;
     pch = pBat_SkipAllBlanks(pch);
@@ -163,12 +164,20 @@ int pBat_ExecOperators(PARSED_LINE** lpLine, struct pipe_thread_t** lppThreads)
         /* Serialize this withs calls to pBat_RunFile() */
         PBAT_RUNFILE_LOCK();
 
-        if (_pBat_Pipe(pipedes, 4096, O_BINARY) == -1)
+        error = _pBat_Pipe(pipedes, 4096, O_BINARY);
+
+        PBAT_RUNFILE_RELEASE();
+
+        if (error == -1) {
+
+            /* do not run the remaining commands of the pipe */
             pBat_ShowErrorMessage(PBAT_CREATE_PIPE | PBAT_PRINT_C_ERROR,
                                     __FILE__ "/pBat_ExecOperators()",
-                                    -1);
+                                    FALSE);
+            status |= EXECOPERATORS_ERROR;
+            break;
 
-        PBAT_RUNFILE_RELEASE();
+        }
 
         if ((infos = malloc(sizeof(struct pipe_launch_data_t))) == NULL)
             pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
@@ -201,7 +210,19 @@ int pBat_ExecOperators(PARSED_LINE** lpLine, struct pipe_thread_t** lppThreads)
 
     }
 
-    if (lastin != -1) {
+    if (status & EXECOPERATORS_ERROR) {
+
+        if (lastin != -1)
+            close(lastin);
+
+        /* the whole pipe has failed, skip up to its end */
+        while (line->lppsNode
+            && line->lppsNode->cNodeType == PARSED_STREAM_NODE_PIPE)
+            line = *lpLine = line->lppsNode;
+
+        iErrorLevel = PBAT_CREATE_PIPE;
+
+    } else if (lastin != -1) {
 
         lppsStreamStack = pBat_OpenOutputD(lppsStreamStack, lastin, PBAT_STDIN);
         close(lastin);
@@ -455,7 +476,8 @@ void pBat_RunParsedLine(PARSED_LINE* line)
                 If 1==1 (echo test > foo & echo test2)
 
             */
-		if (!((!strnicmp(pch, "if", 2) && pBat_IsDelim(*(pch +2)))
+		if (!(ok & EXECOPERATORS_ERROR)
+            && !((!strnicmp(pch, "if", 2) && pBat_IsDelim(*(pch +2)))
             || (!strnicmp(pch, "for", 3) && pBat_IsDelim(*(pch + 3)))))
             ok |= pBat_ExecOutput(line->sStream) ? EXECOPERATORS_ERROR : 0;
 
-- 
2.43.0


From 64792a3a9a822883bf70b693c938c7ecc9a87467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 63/99] fix: fail only the command whose streams can not be
 redirected

---
 pbat/command/pBat_For.c |  4 ++-
 pbat/core/pBat_Run.c    | 34 +++++++++++++++++++-
 pbat/core/pBat_Stream.c | 71 ++++++++++++++++++++++++++++++++++-------
 3 files changed, 96 insertions(+), 13 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 56b53e6..f6a157a 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1364,6 +1364,7 @@ int pBat_ForAdjustInput(char* lpInput)
 void pBat_ExecuteForSubCommand(struct pipe_launch_data_t* arg)
 {
     BLOCKINFO bkBlock;
+    STREAMSTACK* last = lppsStreamStack;
 
     lppsStreamStack = pBat_OpenOutputD(lppsStreamStack, arg->fdout, PBAT_STDOUT);
     close(arg->fdout);
@@ -1375,7 +1376,8 @@ void pBat_ExecuteForSubCommand(struct pipe_launch_data_t* arg)
 
     while (*(bkBlock.lpEnd ++));
 
-    pBat_RunBlock(&bkBlock);
+    if (lppsStreamStack != last)
+        pBat_RunBlock(&bkBlock);
 
     pBat_EsFree(arg->str);
     free(arg);
diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 67266e7..caad5b7 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -113,6 +113,7 @@ int pBat_ExecOperators(PARSED_LINE** lpLine, struct pipe_thread_t** lppThreads)
     struct pipe_thread_t* th;
     struct pipe_launch_data_t* infos;
     PARSED_LINE* line=*lpLine;
+    STREAMSTACK* last;
     char *pch;
     int status = 0,
         lastin = -1,
@@ -224,8 +225,16 @@ int pBat_ExecOperators(PARSED_LINE** lpLine, struct pipe_thread_t** lppThreads)
 
     } else if (lastin != -1) {
 
+        last = lppsStreamStack;
         lppsStreamStack = pBat_OpenOutputD(lppsStreamStack, lastin, PBAT_STDIN);
         close(lastin);
+
+        if (lppsStreamStack == last) {
+
+            iErrorLevel = PBAT_UNABLE_DUPLICATE_FD;
+            status |= EXECOPERATORS_ERROR;
+
+        }
     }
 
     return status;
@@ -252,13 +261,18 @@ void pBat_WaitPipe(struct pipe_thread_t* threads)
 
 void pBat_LaunchPipe(struct pipe_launch_data_t* infos)
 {
+    STREAMSTACK* last = lppsStreamStack;
+    int error;
 
     lppsStreamStack = pBat_OpenOutputD(lppsStreamStack, infos->fdout, PBAT_STDOUT);
     close(infos->fdout);
+    error = (lppsStreamStack == last);
 
     if (infos->fdin !=-1) {
+        last = lppsStreamStack;
         lppsStreamStack = pBat_OpenOutputD(lppsStreamStack, infos->fdin, PBAT_STDIN);
         close(infos->fdin);
+        error |= (lppsStreamStack == last);
     }
 
     bIgnoreExit = TRUE;
@@ -276,7 +290,7 @@ void pBat_LaunchPipe(struct pipe_launch_data_t* infos)
        as this function executes the left hand side of a pipe.
 
     */
-    if (!pBat_ExecOutput(infos->stream))
+    if (!error && !pBat_ExecOutput(infos->stream))
         pBat_RunCommand(infos->str, NULL);
 
     /* don't forget to free unneeded memory */
@@ -327,10 +341,19 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 		/* errors that are sent to the output must not follow it */
 		if (fError == _fOutput) {
 
+			last = lppsStreamStack;
 			lppsStreamStack = pBat_OpenOutputD(lppsStreamStack,
 			                fileno(_fOutput),
 			                PBAT_STDERR
 			               );
+
+			if (lppsStreamStack == last) {
+
+				iErrorLevel = PBAT_UNABLE_DUPLICATE_FD;
+				return -1;
+
+			}
+
 			fError = _fError;
 
 		}
@@ -356,10 +379,19 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 		/* the output that is sent to the errors must not follow them */
 		if (fOutput == _fError) {
 
+			last = lppsStreamStack;
 			lppsStreamStack = pBat_OpenOutputD(lppsStreamStack,
 			                fileno(_fError),
 			                PBAT_STDOUT
 			               );
+
+			if (lppsStreamStack == last) {
+
+				iErrorLevel = PBAT_UNABLE_DUPLICATE_FD;
+				return -1;
+
+			}
+
 			fOutput = _fOutput;
 
 		}
diff --git a/pbat/core/pBat_Stream.c b/pbat/core/pBat_Stream.c
index 5f62265..f6b994b 100644
--- a/pbat/core/pBat_Stream.c
+++ b/pbat/core/pBat_Stream.c
@@ -72,6 +72,40 @@ void pBat_FreeStreamStack(STREAMSTACK* stack)
     }
 }
 
+/* Get a copy of the file descriptor of a standard stream, to be restored when
+   the redirection ends. Returns -1 on failure, once the error has been
+   reported. */
+static int pBat_SaveStream(int fd)
+{
+    int copy;
+
+    switch (fd) {
+
+    case PBAT_STDIN:
+        copy = dup(fileno(fInput));
+        break;
+
+    case PBAT_STDOUT:
+        copy = dup(fileno(_fOutput));
+        break;
+
+    case PBAT_STDERR:
+        copy = dup(fileno(_fError));
+        break;
+
+    default:
+        return 0;
+
+    }
+
+    if (copy == -1)
+        pBat_ShowErrorMessage(PBAT_UNABLE_DUPLICATE_FD
+                                | PBAT_PRINT_C_ERROR,
+                                __FILE__ "/pBat_SaveStream()", FALSE);
+
+    return copy;
+}
+
 /* Duplicate file based on a file name or a file descriptor */
 STREAMSTACK* pBat_OpenOutput(STREAMSTACK* stack, char* name, int fd, int mode)
 {
@@ -116,6 +150,15 @@ STREAMSTACK* pBat_OpenOutput(STREAMSTACK* stack, char* name, int fd, int mode)
 
     }
 
+    if ((item->oldfd = pBat_SaveStream(fd)) == -1) {
+
+        close(newfd);
+        free(item);
+        item = stack;
+        goto error;
+
+    }
+
     item->lock = 0;
     item->fd = fd;
     item->subst = PBAT_GET_SUBST();
@@ -124,20 +167,17 @@ STREAMSTACK* pBat_OpenOutput(STREAMSTACK* stack, char* name, int fd, int mode)
     switch (fd) {
 
     case PBAT_STDIN:
-        PBAT_XDUP(item->oldfd, fInput);
         PBAT_DUP_STDIN(newfd, fInput);
         close(newfd);
         break;
 
     case PBAT_STDOUT:
-        PBAT_XDUP(item->oldfd, _fOutput);
         PBAT_DUP_STD(newfd, _fOutput);
         fOutput = _fOutput;
         close(newfd);
         break;
 
     case PBAT_STDERR:
-        PBAT_XDUP(item->oldfd, _fError);
         PBAT_DUP_STD(newfd, _fError);
         fError = _fError;
         close(newfd);
@@ -171,31 +211,37 @@ STREAMSTACK* pBat_OpenOutputD(STREAMSTACK* stack, int newfd, int fd)
     item->fd = fd;
     item->subst = PBAT_GET_SUBST();
 
-    /* Serialize this with pBat_RunFile() */
-    PBAT_RUNFILE_LOCK();
+    /* Serialize this with pBat_RunFile() */
+    PBAT_RUNFILE_LOCK();
+
+    if ((item->oldfd = pBat_SaveStream(fd)) == -1) {
+
+        free(item);
+        item = stack;
+        goto error;
+
+    }
 
     /* do not forget to update the standard thread specific streams */
     switch (fd) {
 
     case PBAT_STDIN:
-        PBAT_XDUP(item->oldfd, fInput);
         PBAT_DUP_STDIN(newfd, fInput);
         break;
 
     case PBAT_STDOUT:
-        PBAT_XDUP(item->oldfd, _fOutput);
         PBAT_DUP_STD(newfd, _fOutput);
         break;
 
     case PBAT_STDERR:
-        PBAT_XDUP(item->oldfd, _fError);
         PBAT_DUP_STD(newfd, _fError);
         break;
 
     default:;
     }
-
-    PBAT_RUNFILE_RELEASE();
+
+error:
+    PBAT_RUNFILE_RELEASE();
 
     return item;
 }
@@ -256,10 +302,13 @@ void pBat_ApplyStreams(STREAMSTACK* stack)
     /* Serialize this with pBat_RunFile() */
     PBAT_RUNFILE_LOCK();
 
-    /* simple fast method */
+#if defined(WIN32)
+    /* simple fast method. Elsewhere, streams are only applied by children that
+       are about to run something else */
     PBAT_XDUP(fdStdin, stdin);
     PBAT_XDUP(fdStdout, stdout);
     PBAT_XDUP(fdStderr, stderr);
+#endif
 
     PBAT_DUP_STDIN(fileno(fInput), stdin);
     PBAT_DUP_STD(fileno(fOutput), stdout);
-- 
2.43.0


From 78ff1bca6e3d60ce8a44fe4ee1c0473959a30b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 64/99] fix: fail only the command for which no thread can be
 started

---
 pbat/command/pBat_For.c   | 16 ++++++++--
 pbat/command/pBat_Start.c | 10 ++++++-
 pbat/core/pBat_Clone.c    | 61 ++++++++++++++++++++++++++++++++++-----
 pbat/core/pBat_Clone.h    |  6 ++--
 pbat/core/pBat_Run.c      | 37 +++++++++++++++++++++---
 5 files changed, 112 insertions(+), 18 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index f6a157a..415ccbb 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1388,11 +1388,12 @@ int pBat_ForInputProcess(ESTR* lpInput, INPUTINFO* lpipInfo, int* iPipeFd)
 {
     struct pipe_launch_data_t* param;
     FILE* pFile;
+    int status;
 
     if (!(pFile=fdopen(iPipeFd[0], "rb"))) {
 
         pBat_ShowErrorMessage(PBAT_UNABLE_DUPLICATE_FD,
-                              iPipeFd[0],
+                              __FILE__ "/pBat_ForInputProcess()",
                               FALSE);
 
         close(iPipeFd[0]);
@@ -1412,8 +1413,17 @@ int pBat_ForInputProcess(ESTR* lpInput, INPUTINFO* lpipInfo, int* iPipeFd)
 
     pBat_EsCpyE(param->str, lpInput);
 
-    lpipInfo->Info.InputFile.handle
-        = pBat_CloneInstance((void (*)(void *))pBat_ExecuteForSubCommand, param);
+    if ((status = pBat_CloneInstance(&(lpipInfo->Info.InputFile.handle),
+                    (void (*)(void *))pBat_ExecuteForSubCommand, param))) {
+
+        fclose(pFile);
+        close(param->fdout);
+        pBat_EsFree(param->str);
+        free(param);
+
+        return status;
+
+    }
 
 	lpipInfo->Info.InputFile.pFile=pFile;
 
diff --git a/pbat/command/pBat_Start.c b/pbat/command/pBat_Start.c
index f1021d7..414c349 100644
--- a/pbat/command/pBat_Start.c
+++ b/pbat/command/pBat_Start.c
@@ -87,6 +87,7 @@ int pBat_StartCommandBackground(const char* cmdline, int wait)
     struct pipe_launch_data_t* data;
     THREAD handle;
     void* ret;
+    int status;
 
     if ((data = malloc(sizeof(struct pipe_launch_data_t))) == NULL)
         pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION,
@@ -96,7 +97,14 @@ int pBat_StartCommandBackground(const char* cmdline, int wait)
     data->str = pBat_EsInit();
     pBat_EsCat(data->str, cmdline);
 
-    handle = pBat_CloneInstance((void(*)(void*))pBat_StartCommandExec, data);
+    if ((status = pBat_CloneInstance(&handle,
+                            (void(*)(void*))pBat_StartCommandExec, data))) {
+
+        pBat_EsFree(data->str);
+        free(data);
+        return status;
+
+    }
 
     /* a thread that has been waited for must not be closed again */
     if (!wait || pBat_WaitForThread(&handle, &ret) != 0)
diff --git a/pbat/core/pBat_Clone.c b/pbat/core/pBat_Clone.c
index 605d8ff..5474f2e 100644
--- a/pbat/core/pBat_Clone.c
+++ b/pbat/core/pBat_Clone.c
@@ -38,24 +38,36 @@
 #include "pBat_Debug.h"
 
 /* Duplicate the current instance of pBat (much like fork() in unix systems) */
-THREAD pBat_CloneInstance(void(*func)(void*), void* arg)
+int pBat_CloneInstance(THREAD* th, void(*func)(void*), void* arg)
 {
     struct clone_data_t* data;
-    THREAD th;
+    int error;
 
     if ((data = malloc(sizeof(struct clone_data_t))) == NULL)
         pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
                                 __FILE__ "/pBat_CloneInstance()", -1);
 
-    pBat_DuplicateData(data);
+    if (pBat_DuplicateData(data)) {
+
+        pBat_FreeClonedData(data);
+        return PBAT_UNABLE_DUPLICATE_FD;
+
+    }
+
     data->fn = func;
     data->arg = arg;
 
-    if (pBat_BeginThread(&th, pBat_CloneTrampoline, 0, data))
+    if ((error = pBat_BeginThread(th, pBat_CloneTrampoline, 0, data))) {
+
+        errno = error;
         pBat_ShowErrorMessage(PBAT_FAILED_FORK | PBAT_PRINT_C_ERROR,
-                                __FILE__ "/pBat_CloneInstance()", -1);
+                                __FILE__ "/pBat_CloneInstance()", FALSE);
+        pBat_FreeClonedData(data);
+        return PBAT_FAILED_FORK;
 
-    return th;
+    }
+
+    return 0;
 }
 
 void* pBat_CloneTrampoline(void* data)
@@ -140,11 +152,17 @@ int pBat_DuplicateData(struct clone_data_t* data)
     data->ifIn.bEof = ifIn.bEof;
     data->ifIn.iPos = ifIn.iPos;
 
+    data->fInput = NULL;
+    data->fOutput = NULL;
+    data->fError = NULL;
+
 #define DUPLICATE_STREAM(dest, s, mode) \
-    if ((fd = dup(fileno(s))) == -1) \
+    if ((fd = dup(fileno(s))) == -1) { \
         pBat_ShowErrorMessage(PBAT_UNABLE_DUPLICATE_FD \
                                | PBAT_PRINT_C_ERROR, \
-                               __FILE__ "/pBat_DuplicateData()", -1); \
+                               __FILE__ "/pBat_DuplicateData()", FALSE); \
+        return -1; \
+    } \
     \
     if ((dest = fdopen(fd, mode)) == NULL) \
         pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION \
@@ -157,3 +175,30 @@ int pBat_DuplicateData(struct clone_data_t* data)
 
     return 0;
 }
+
+/* Free the structures duplicated for an instance that could not be started */
+void pBat_FreeClonedData(struct clone_data_t* data)
+{
+    size_t i;
+
+    pBat_FreeCommandList(data->lpclCommands);
+    pBat_FreeLocalBlock(data->lpvLocalVars);
+    pBat_FreeLocalBlock(data->lpvArguments);
+    pBat_EnvFree(data->lpeEnv);
+
+    for (i = 0; i < data->dsDirStack.count; i++)
+        free(data->dsDirStack.paths[i]);
+
+    free(data->dsDirStack.paths);
+
+    if (data->fInput)
+        fclose(data->fInput);
+
+    if (data->fOutput)
+        fclose(data->fOutput);
+
+    if (data->fError)
+        fclose(data->fError);
+
+    free(data);
+}
diff --git a/pbat/core/pBat_Clone.h b/pbat/core/pBat_Clone.h
index 4c7dff6..ac2574a 100644
--- a/pbat/core/pBat_Clone.h
+++ b/pbat/core/pBat_Clone.h
@@ -46,9 +46,11 @@ struct clone_data_t {
     void* arg;
 };
 
-/* Clone this instance ! */
-THREAD pBat_CloneInstance(void(*func)(void*), void* data);
+/* Clone this instance ! Returns a non-null value if the new instance can not be
+   started, once the error has been reported */
+int pBat_CloneInstance(THREAD* th, void(*func)(void*), void* data);
 int pBat_DuplicateData(struct clone_data_t* data);
+void pBat_FreeClonedData(struct clone_data_t* data);
 
 void* pBat_CloneTrampoline(void* data);
 #endif
diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index caad5b7..7ab87f3 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -175,6 +175,7 @@ int pBat_ExecOperators(PARSED_LINE** lpLine, struct pipe_thread_t** lppThreads)
             pBat_ShowErrorMessage(PBAT_CREATE_PIPE | PBAT_PRINT_C_ERROR,
                                     __FILE__ "/pBat_ExecOperators()",
                                     FALSE);
+            error = PBAT_CREATE_PIPE;
             status |= EXECOPERATORS_ERROR;
             break;
 
@@ -199,7 +200,22 @@ int pBat_ExecOperators(PARSED_LINE** lpLine, struct pipe_thread_t** lppThreads)
             pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
                                     __FILE__ "/pBat_ExecOperators()", -1);
 
-        th->thread = pBat_CloneInstance((void(*)(void*))pBat_LaunchPipe, infos);
+        if ((error = pBat_CloneInstance(&th->thread,
+                                    (void(*)(void*))pBat_LaunchPipe, infos))) {
+
+            close(pipedes[0]);
+            close(pipedes[1]);
+
+            pBat_FreeParsedStream(infos->stream);
+            pBat_EsFree(infos->str);
+            free(infos);
+            free(th);
+
+            status |= EXECOPERATORS_ERROR;
+            break;
+
+        }
+
         th->next = *lppThreads;
         *lppThreads = th;
 
@@ -221,7 +237,7 @@ int pBat_ExecOperators(PARSED_LINE** lpLine, struct pipe_thread_t** lppThreads)
             && line->lppsNode->cNodeType == PARSED_STREAM_NODE_PIPE)
             line = *lpLine = line->lppsNode;
 
-        iErrorLevel = PBAT_CREATE_PIPE;
+        iErrorLevel = error;
 
     } else if (lastin != -1) {
 
@@ -907,7 +923,7 @@ int pBat_RunExternalBatch(char* lpFileName, char* lpFullLine, char** lpArguments
 
     THREAD th;
     struct batch_launch_data_t* arg;
-    int size = 0;
+    int size = 0, status;
     void* ret;
 
     while (lpArguments[size])
@@ -933,7 +949,20 @@ int pBat_RunExternalBatch(char* lpFileName, char* lpFullLine, char** lpArguments
 
     arg->lpArguments[size] = NULL;
 
-    th = pBat_CloneInstance((void(*)(void*))pBat_LaunchExternalBatch, arg);
+    if ((status = pBat_CloneInstance(&th,
+                        (void(*)(void*))pBat_LaunchExternalBatch, arg))) {
+
+        for (size = 0; arg->lpArguments[size]; size++)
+            free(arg->lpArguments[size]);
+
+        free(arg->lpArguments);
+        free(arg->lpFileName);
+        free(arg->lpFullLine);
+        free(arg);
+
+        return status;
+
+    }
 
     if (pBat_WaitForThread(&th, &ret) != 0)
         pBat_CloseThread(&th);
-- 
2.43.0


From b9d35a981108df33f835192560d35f2457ba72dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:52 +0000
Subject: [PATCH 65/99] fix: name the function that can not duplicate a
 descriptor

---
 pbat/errors/pBat_Errors.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/errors/pBat_Errors.c b/pbat/errors/pBat_Errors.c
index 2d713e4..fc4261e 100644
--- a/pbat/errors/pBat_Errors.c
+++ b/pbat/errors/pBat_Errors.c
@@ -137,7 +137,7 @@ void pBat_LoadErrors(void)
 	    gettext("Error : \"%s\" is not a valid top-level block.");
 
 	lpErrorMsg[PBAT_UNABLE_DUPLICATE_FD]=
-	    gettext("Error : Unable to duplicate file descriptor (%d).");
+	    gettext("Error : Unable to duplicate a file descriptor (in %s).");
 
 	lpErrorMsg[PBAT_UNABLE_CREATE_PIPE]=
 	    gettext("Error : Unable to create pipe at function (%s).");
-- 
2.43.0


From c0a0bc6de26b0d605dc609ea240af4fbc07e5265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 66/99] fix: show the continuation prompt only for typed lines

---
 pbat/core/pBat_Read.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pbat/core/pBat_Read.c b/pbat/core/pBat_Read.c
index 265486b..d3cc3e6 100644
--- a/pbat/core/pBat_Read.c
+++ b/pbat/core/pBat_Read.c
@@ -262,6 +262,9 @@ int pBat_GetLine_Cmdly(ESTR* lpesLine, INPUT_FILE* pIn)
 
 		}
 
+        if (*(pIn->lpFileName) != '\0')
+            continue; /* nobody types the lines of a script */
+
         lpAltPromptString = ">";
         pBat_OutputPromptString(lpAltPromptString);
 
-- 
2.43.0


From 2b989796c23b8ad61c4769e02a278e5b3f84b097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:49 +0000
Subject: [PATCH 67/99] fix: notice a script replaced while it is being loaded

---
 pbat/core/pBat_ReadScript.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_ReadScript.c b/pbat/core/pBat_ReadScript.c
index 7c7f098..fd1c4c9 100644
--- a/pbat/core/pBat_ReadScript.c
+++ b/pbat/core/pBat_ReadScript.c
@@ -126,6 +126,11 @@ __inline__ size_t pBat_GetScriptSize(struct batch_script_t* script,
     return attr.nFileSizeLow;
 }
 #else
+static long long pBat_GetStatTime(const struct stat* st)
+{
+    return (long long)st->st_mtim.tv_sec * 1000000000 + st->st_mtim.tv_nsec;
+}
+
 __inline__ size_t pBat_GetScriptSize(struct batch_script_t* script,
                             long long* restrict mtime, int* restrict err)
 {
@@ -133,8 +138,7 @@ __inline__ size_t pBat_GetScriptSize(struct batch_script_t* script,
 
     if (stat(script->name, &st) == 0) {
 
-        *mtime = (long long)st.st_mtim.tv_sec * 1000000000
-                    + st.st_mtim.tv_nsec;
+        *mtime = pBat_GetStatTime(&st);
 
         return st.st_size;
 
@@ -170,6 +174,8 @@ int pBat_LoadBatchScript(struct batch_script_t* script)
 
     #ifdef WIN32
     HANDLE h;
+    #else
+    struct stat st;
     #endif
 
     /* Initialize all fields that will be used for parsing */
@@ -184,7 +190,18 @@ int pBat_LoadBatchScript(struct batch_script_t* script)
     if ((file = fopen(script->name, "r")) == NULL)
         goto error;
 
+#ifdef WIN32
     script->size = pBat_GetScriptSize(script, &(script->mtime), &checkres);
+#else
+    /* ask about the file that is going to be read; its name may already
+       refer to a newer one */
+    if ((checkres = (fstat(fileno(file), &st) != 0)) == 0) {
+
+        script->size = st.st_size;
+        script->mtime = pBat_GetStatTime(&st);
+
+    }
+#endif
 
     if (checkres)
         goto error;
-- 
2.43.0


From 65653571a6d049cef52e0838580a52ca15a36bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:42 +0000
Subject: [PATCH 68/99] fix: start a script that calls itself at its first line

---
 pbat/command/pBat_Call.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index 71e5779..95789ec 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -276,6 +276,7 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 
 		ifIn.bEof=FALSE;          /* the file is not at EOF */
 		ifIn.iPos=0;              /* places the cursor at the origin */
+		ifIn.batch.curr = ifIn.batch.cmds; /* in case a script calls itself */
 		snprintf(ifIn.lpFileName,
 		         sizeof(ifIn.lpFileName),
 		         "%s",
-- 
2.43.0


From c58f358fdba63396dcd8f689b6e37e26998c47f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:35 +0000
Subject: [PATCH 69/99] fix: find indented labels in command line compatible
 mode

---
 pbat/core/pBat_Jump.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pbat/core/pBat_Jump.c b/pbat/core/pBat_Jump.c
index 0075721..be88860 100644
--- a/pbat/core/pBat_Jump.c
+++ b/pbat/core/pBat_Jump.c
@@ -108,6 +108,7 @@ int pBat_JumpToLabel_Cmdly(char* lpLabelName, char* lpFileName)
 {
 	size_t iSize=strlen(lpLabelName);
 	char* lpName=lpFileName;
+	char* lpLabel;
 	FILE* pFile;
 	ESTR* lpLine=pBat_EsInit_Cached();
 
@@ -139,9 +140,12 @@ int pBat_JumpToLabel_Cmdly(char* lpLabelName, char* lpFileName)
 	while (!pBat_EsGet(lpLine, pFile)) {
 
         /* Check the label name matches is followed by a delimiter or '\0' */
-		if (!strnicmp(pBat_SkipBlanks(lpLine->str), lpLabelName, iSize)
-            && (pBat_IsDelim(*(lpLine->str + iSize))
-                || *(lpLine->str + iSize) == '\0')) {
+		lpLabel = pBat_SkipBlanks(lpLine->str);
+
+		if (!strnicmp(lpLabel, lpLabelName, iSize)
+            && (pBat_IsDelim(*(lpLabel + iSize))
+                || *(lpLabel + iSize) == '\n'
+                || *(lpLabel + iSize) == '\0')) {
 
 			if (lpFileName) {
 
-- 
2.43.0


From c836c8ece191a7f083de7565311cdd4f43390b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:52 +0000
Subject: [PATCH 70/99] fix: poll for a key only on a terminal, and leave its
 settings alone

---
 libpbat/console/pBat_Console.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libpbat/console/pBat_Console.c b/libpbat/console/pBat_Console.c
index 9ea02d6..fd9306b 100644
--- a/libpbat/console/pBat_Console.c
+++ b/libpbat/console/pBat_Console.c
@@ -92,15 +92,21 @@ LIBPBAT int pBat_Getch(FILE *f)
 /* Morgan McGuire, morgan@cs.brown.edu */
 int pBat_Kbhit(FILE *f)
 {
-  int bytesWaiting;
-  struct termios term;
+  int bytesWaiting = 0;
+  struct termios oldattr, newattr;
+
+  /* There are no keys to be hit when this is not a terminal */
+  if (tcgetattr(fileno(f), &oldattr) == -1)
+    return 0;
 
-  tcgetattr(fileno(f), &term);
-  term.c_lflag &= ~ICANON;
-  tcsetattr(fileno(f), TCSANOW, &term);
+  newattr = oldattr;
+  newattr.c_lflag &= ~ICANON;
+  tcsetattr(fileno(f), TCSANOW, &newattr);
   setbuf(f, NULL);
 
   ioctl(fileno(f), FIONREAD, &bytesWaiting);
+
+  tcsetattr(fileno(f), TCSANOW, &oldattr);
   return bytesWaiting;
 }
 
-- 
2.43.0


From cb23481866c8cd7885b513eef8dbb3d5c5264673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:21 +0000
Subject: [PATCH 71/99] fix: have TIMEOUT wait for the time given, and take the
 key that ends it

---
 libpbat/console/pBat_Console.c |  4 ++--
 pbat/command/pBat_Timeout.c    | 43 +++++++++++++++++++++++++++++-----
 2 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/libpbat/console/pBat_Console.c b/libpbat/console/pBat_Console.c
index fd9306b..b30f791 100644
--- a/libpbat/console/pBat_Console.c
+++ b/libpbat/console/pBat_Console.c
@@ -37,8 +37,8 @@ LIBPBAT int pBat_Getch(FILE *f)
     ch = fgetc(f);
   tcsetattr(fileno(f), TCSANOW, &oldattr);
 
-  /* Handle special chracters */
-  if (ch == '\033' && pBat_Getch(f) == '[') {
+  /* Handle special chracters, unless this is just the escape key */
+  if (ch == '\033' && pBat_Kbhit(f) && pBat_Getch(f) == '[') {
     switch (pBat_Getch(f)) {
       case 'A': /* up arrow */
         return 72;
diff --git a/pbat/command/pBat_Timeout.c b/pbat/command/pBat_Timeout.c
index 17b8e6b..8289a99 100644
--- a/pbat/command/pBat_Timeout.c
+++ b/pbat/command/pBat_Timeout.c
@@ -26,6 +26,10 @@
 #include <string.h>
 #include <errno.h>
 
+#ifdef WIN32
+#include <windows.h>
+#endif
+
 #include <libpBat.h>
 
 #include "../core/pBat_Core.h"
@@ -56,11 +60,27 @@
 
 #define SLEEP_GRANULARITY 0.100
 
+/* The seconds elapsed since some arbitrary point, whatever happens to the
+   date of the system in between. */
+static double pBat_TimeoutClock(void)
+{
+#ifdef WIN32
+    return GetTickCount() / 1000.0;
+#else
+    struct timespec ts;
+
+    clock_gettime(CLOCK_MONOTONIC, &ts);
+
+    return ts.tv_sec + ts.tv_nsec / 1e9;
+#endif
+}
+
 int pBat_CmdTimeout(char* lpLine)
 {
     int status = PBAT_NO_ERROR,
         nobreak = 0;
-    double seconds = 0.0;
+    double seconds = 0.0,
+           until;
     char* p;
 
     ESTR* param = pBat_EsInit_Cached();
@@ -113,17 +133,24 @@ int pBat_CmdTimeout(char* lpLine)
         while(nobreak || !pBat_Kbhit(fInput))
             pBat_Sleep((unsigned int)(SLEEP_GRANULARITY * 1000));
 
+        /* Do not leave this key to the next command that reads one */
+        pBat_Getch(fInput);
+
     } else {
 
         fprintf(fError, nobreak ? lpMsgTimeoutNoBreak : lpMsgTimeout,
                     seconds);
 
-        while (seconds > 0) {
+        until = pBat_TimeoutClock() + seconds;
+
+        while ((seconds = until - pBat_TimeoutClock()) > 0) {
 
             if (seconds > SLEEP_GRANULARITY) {
 
                 pBat_Sleep((unsigned int)(SLEEP_GRANULARITY * 1000));
-                seconds -= SLEEP_GRANULARITY;
+
+                if ((seconds = until - pBat_TimeoutClock()) < 0)
+                    seconds = 0;
 
 #if !defined(LIBPBAT_NO_CONSOLE)
                 pBat_ClearConsoleLine(fOutput);
@@ -133,13 +160,17 @@ int pBat_CmdTimeout(char* lpLine)
 
             } else {
 
-                pBat_Sleep((unsigned int)(seconds * 1000));
-                seconds = -1;
+                pBat_Sleep((unsigned int)ceil(seconds * 1000));
+
             }
 
-            if (!nobreak && pBat_Kbhit(fInput))
+            if (!nobreak && pBat_Kbhit(fInput)) {
+
+                pBat_Getch(fInput);
                 break;
 
+            }
+
         }
     }
 
-- 
2.43.0


From 2811e69af8d01cc7c65dd267c324c1bfffaf5918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:27 +0000
Subject: [PATCH 72/99] fix: leave it to the interpreter to ask about Ctrl-C
 while it starts a command

---
 pbat/core/pBat_Exec.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 41adf84..0212967 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -24,6 +24,8 @@
 #include <errno.h>
 
 #ifndef WIN32
+#include <signal.h>
+#include <pthread.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #endif
@@ -37,6 +39,29 @@
 #include "../init/pBat_Init.h"
 
 
+#if !defined(WIN32)
+/* fork(), except that the son never runs pBat_SigHandlerBreak(): asking the
+   user what to do is up to the father. */
+static pid_t pBat_Fork(void)
+{
+    pid_t pid;
+    sigset_t block, old;
+
+    sigemptyset(&block);
+    sigaddset(&block, SIGINT);
+    pthread_sigmask(SIG_BLOCK, &block, &old);
+
+    pid = fork();
+
+    if (pid == 0)
+        signal(SIGINT, SIG_DFL);
+
+    pthread_sigmask(SIG_SETMASK, &old, NULL);
+
+    return pid;
+}
+#endif
+
 int pBat_ExecuteFile(EXECINFO* info)
 {
     int error = 0,
@@ -301,7 +326,7 @@ int pBat_RunFile(EXECINFO* info, int* error)
 
 	}
 
-	iPid=fork();
+	iPid=pBat_Fork();
 
 	if (iPid == 0 ) {
 		/* if we are in the son */
@@ -564,7 +589,7 @@ int pBat_StartFile(EXECINFO* info, int* error)
     if (!script)
         script = START_SCRIPT;
 
-    pid = fork();
+    pid = pBat_Fork();
 
     if (pid == 0) {
 
-- 
2.43.0


From a57d0ee07a7c52fc95ff9139f1336426816a2ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:16 +0000
Subject: [PATCH 73/99] fix: have PAUSE take a single character of redirected
 input

---
 libpbat/console/pBat_Console.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libpbat/console/pBat_Console.c b/libpbat/console/pBat_Console.c
index b30f791..1539fa3 100644
--- a/libpbat/console/pBat_Console.c
+++ b/libpbat/console/pBat_Console.c
@@ -30,6 +30,11 @@ LIBPBAT int pBat_Getch(FILE *f)
 {
   struct termios oldattr, newattr;
   int ch;
+
+  /* Leave what follows this key to the next reader, which may be another
+     process */
+  setbuf(f, NULL);
+
   tcgetattr(fileno(f), &oldattr);
   newattr = oldattr;
   newattr.c_lflag &= ~( ICANON | ECHO );
-- 
2.43.0


From 9af97d42ecdcbeb17449713e1e401d282713425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:01 +0000
Subject: [PATCH 74/99] fix: ask again where the question was asked

---
 pbat/command/pBat_Ask.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Ask.c b/pbat/command/pBat_Ask.c
index ed8ba57..fff48bd 100644
--- a/pbat/command/pBat_Ask.c
+++ b/pbat/command/pBat_Ask.c
@@ -191,7 +191,7 @@ int pBat_AskConfirmation(int iFlags, void(*lpFn)(char*,size_t),  const char* lpM
 
 			} else {
 
-				fputs(lpAskInvalid, stderr);
+				fputs(lpAskInvalid, fError);
 
 			}
 
-- 
2.43.0


From 296e6509c2c6937481bbd722eddec4f344307e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:01 +0000
Subject: [PATCH 75/99] fix: report the actual reason of failures

---
 pbat/errors/pBat_Errors.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/errors/pBat_Errors.c b/pbat/errors/pBat_Errors.c
index fc4261e..29c6126 100644
--- a/pbat/errors/pBat_Errors.c
+++ b/pbat/errors/pBat_Errors.c
@@ -251,6 +251,7 @@ void pBat_ShowErrorMessage(unsigned int iErrorNumber,
                            int iExitCode)
 {
 	char* msg = "Undefined";
+	int error = errno;
 
 	/* the streams and messages may not be set up yet */
 	if (!fError)
@@ -262,7 +263,7 @@ void pBat_ShowErrorMessage(unsigned int iErrorNumber,
 	pBat_SetConsoleTextColor(fError, PBAT_GET_BACKGROUND(colColor) | PBAT_FOREGROUND_IRED);
 
 	if (iErrorNumber & PBAT_PRINT_C_ERROR)
-        msg = strerror(errno);
+        msg = strerror(error);
 
 	if ((iErrorNumber & ~PBAT_PRINT_C_ERROR) < sizeof(lpErrorMsg)) {
 
-- 
2.43.0


From 4b502d961c34fc91fd0948635986d3b7d3a21d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:05 +0000
Subject: [PATCH 76/99] fix: ask about Ctrl-C on the terminal, not in the files
 of the interrupted command

---
 pbat/core/pBat_Run.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 7ab87f3..c725ce1 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -1036,18 +1036,29 @@ PARSED_LINE* pBat_LookAHeadMakeParsedLine(BLOCKINFO* block, PARSED_LINE* lookahe
    have if we use allocated structures like ENVBUF* */
 void pBat_SigHandlerBreak(int sig)
 {
-    int choice, i;
+    int choice, error = errno;
     ESTR* attr;
+    FILE *input = fInput,
+         *err = fError;
 
     /* using bIsScript is safe because it is inherited on a
        call to pBat_CloneInstance() */
     if (bIsScript) {
 
+        /* ask the user, wherever the current command gets its input from
+           and sends its errors to */
+        fInput = stdin;
+        fError = stderr;
+
         choice = pBat_AskConfirmation(PBAT_ASK_YN
                                 | PBAT_ASK_INVALID_REASK
                                 | PBAT_ASK_DEFAULT_N, NULL,
                                 lpBreakConfirm);
 
+        fInput = input;
+        fError = err;
+        errno = error;
+
         if (choice == PBAT_ASK_NO)
             return;
 
-- 
2.43.0


From 6fe740fb6ee1bf86232320529c449230f87c1a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:26 +0000
Subject: [PATCH 77/99] fix: do not start over on Ctrl-C once the interpreter
 is ending

---
 pbat/core/pBat_ExitInt.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pbat/core/pBat_ExitInt.c b/pbat/core/pBat_ExitInt.c
index 372dbae..dadc8e0 100644
--- a/pbat/core/pBat_ExitInt.c
+++ b/pbat/core/pBat_ExitInt.c
@@ -18,6 +18,7 @@
  *
  */
 
+#include <signal.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -28,6 +29,12 @@
 
 void pBat_Exit(void)
 {
+#if !defined(WIN32)
+    /* pBat_SigHandlerBreak() must not use what is freed here */
+    if (!bIgnoreExit)
+        signal(SIGINT, SIG_IGN);
+#endif
+
 	pBat_ForCloseOpenedInputs();
 
 	pBat_FreeCommandList(lpclCommands);
-- 
2.43.0


From 975c0d16c42fa176b6db5936fe3f71366a42c141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:55 +0000
Subject: [PATCH 78/99] fix: ask about Ctrl-C once at a time

---
 pbat/core/pBat_Run.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index c725ce1..d4e944f 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -1040,13 +1040,19 @@ void pBat_SigHandlerBreak(int sig)
     ESTR* attr;
     FILE *input = fInput,
          *err = fError;
+    static volatile sig_atomic_t asking = 0;
 
     /* using bIsScript is safe because it is inherited on a
        call to pBat_CloneInstance() */
     if (bIsScript) {
 
         /* ask the user, wherever the current command gets its input from
-           and sends its errors to */
+           and sends its errors to. He is already being asked if he
+           presses Ctrl-C again instead of answering */
+        if (asking)
+            return;
+
+        asking = 1;
         fInput = stdin;
         fError = stderr;
 
@@ -1058,6 +1064,7 @@ void pBat_SigHandlerBreak(int sig)
         fInput = input;
         fError = err;
         errno = error;
+        asking = 0;
 
         if (choice == PBAT_ASK_NO)
             return;
-- 
2.43.0


From 542063cdf47f17936a332c041b34d85b03a0606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:02 +0000
Subject: [PATCH 79/99] fix: accept SHIFT /7

---
 pbat/command/pBat_Shift.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Shift.c b/pbat/command/pBat_Shift.c
index cfad794..fdd5ace 100644
--- a/pbat/command/pBat_Shift.c
+++ b/pbat/command/pBat_Shift.c
@@ -76,6 +76,7 @@ int pBat_CmdShift(char* lpLine)
 				case '4':
 				case '5':
 				case '6':
+				case '7':
 				case '8':
 				case '9':
 					iBegin=*lpToken-'0'; /* well, we assume that all numbers
-- 
2.43.0


From b55ed831e6227ba017e1b38ffaf73d262c3acf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:02 +0000
Subject: [PATCH 80/99] fix: do not list removed variables in SET

---
 pbat/command/pBat_Set.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index bd5ff90..3749858 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -203,9 +203,9 @@ int pBat_CmdSet(char *lpLine)
 		   which match with the prefix (if defined)
 		*/
 		for (i=0; i < lpeEnv->index; i++) {
-			if (*lpLine == '\0'
-                || ((lpeEnv->envbuf[i]->name != NULL)
-                    && !strnicmp(lpeEnv->envbuf[i]->name, lpLine, strlen(lpLine)))) {
+			if ((lpeEnv->envbuf[i]->name != NULL)
+                && (*lpLine == '\0'
+                    || !strnicmp(lpeEnv->envbuf[i]->name, lpLine, strlen(lpLine)))) {
 
 				found = TRUE;
 
-- 
2.43.0


From ca4a0f2e0752fbbbfbfe9160678809a9cf68ddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:02 +0000
Subject: [PATCH 81/99] fix: keep the blanks at the end of inherited variables

---
 pbat/core/pBat_Env.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 0d3c1a4..cc229a7 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -193,10 +193,10 @@ error:
 
         }
 
-        pBat_AdjustVarName(pStr);
-
         *(pCh++) = '\0';
 
+        pBat_AdjustVarName(pStr);
+
         pBuf[nb] = pBat_AllocEnvVar(pStr, pCh);
 
         free(pStr);
-- 
2.43.0


From 368b18b1c02536b5a3c9d49a2da2d9f7870576c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:02 +0000
Subject: [PATCH 82/99] fix: do not loop for ever replacing an empty pattern

---
 libpbat/estr/pBat_Estr.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libpbat/estr/pBat_Estr.c b/libpbat/estr/pBat_Estr.c
index c649590..39ec331 100644
--- a/libpbat/estr/pBat_Estr.c
+++ b/libpbat/estr/pBat_Estr.c
@@ -415,7 +415,13 @@ LIBPBAT int pBat_EsReplace(ESTR* ptrESTR, const char* ptrPattern, const char* pt
 {
     char* lpBuffer=pBat_EsToChar(ptrESTR), *lpToken;
     int iLength=strlen(ptrPattern);
-    ESTR *lpReturn=pBat_EsInit();
+    ESTR *lpReturn;
+
+    /* there is nothing to look for */
+    if (iLength == 0)
+        return 0;
+
+    lpReturn=pBat_EsInit();
 
     while ((lpToken=strstr(lpBuffer, ptrPattern))) {
 
-- 
2.43.0


From a2f8c3b547c62170b3799ce3502f9480e39fb247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:19 +0000
Subject: [PATCH 83/99] fix: find the local variables of procedures whatever
 the other names

---
 pbat/core/pBat_Env.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index cc229a7..96e8dfe 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -25,6 +25,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <ctype.h>
 
 #include "../errors/pBat_Errors.h"
 #include "pBat_Core.h"
@@ -49,7 +50,9 @@ int pBat_EnvCompLocal(const void* p1, const void* p2)
     if ((pVar2->name == NULL))
         return - PBAT_ENV_LOCAL_PREFIX;
 
-    return *(pVar2->name) - PBAT_ENV_LOCAL_PREFIX;
+    /* follow the order given by pBat_EnvCompName() */
+    return PBAT_ENV_LOCAL_PREFIX
+                - tolower(*((unsigned char*)pVar2->name));
 }
 
 #define PBAT_ENV_BLOCK_MASK 0x7F
-- 
2.43.0


From cec431b9616e893fcb02415a60d77676b54d59f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:32 +0000
Subject: [PATCH 84/99] fix: do not let new variables inherit because removed
 ones did

---
 pbat/core/pBat_Env.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 96e8dfe..4c743d3 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -318,7 +318,7 @@ error:
 
         (*pRes)->name = namecpy;
         (*pRes)->previous = NULL;
-        (*pRes)->inherit |= inherit;
+        (*pRes)->inherit = inherit;
 
     } else {
 
-- 
2.43.0


From 6fbf797a778f68515690e78d6c00e5e328ef5d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:32 +0000
Subject: [PATCH 85/99] fix: let procedures remove their local variables

---
 pbat/command/pBat_Set.c | 1 +
 pbat/core/pBat_Env.c    | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 3749858..dd0042d 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -204,6 +204,7 @@ int pBat_CmdSet(char *lpLine)
 		*/
 		for (i=0; i < lpeEnv->index; i++) {
 			if ((lpeEnv->envbuf[i]->name != NULL)
+                && (*(lpeEnv->envbuf[i]->content) != '\0')
                 && (*lpLine == '\0'
                     || !strnicmp(lpeEnv->envbuf[i]->name, lpLine, strlen(lpLine)))) {
 
diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 4c743d3..4d85b64 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -238,7 +238,8 @@ char* pBat_GetEnv(ENVBUF* pEnv, const char* name)
 
     //printf ("got : pRes->")
 
-    if (!pRes)
+    /* a variable that is empty is not defined */
+    if (!pRes || *((*pRes)->content) == '\0')
         return NULL;
 
     return (*pRes)->content;
@@ -378,6 +379,12 @@ void  pBat_UnSetEnv(ENVBUF* pEnv, char* name)
 
         qsort(pEnv->envbuf, pEnv->index, sizeof(ENVVAR*), pBat_EnvCompName);
 
+    } else if (pRes) {
+
+        /* the procedure has lost its variable, but the one of the previous
+           context has to be found when the procedure ends */
+        *((*pRes)->content) = '\0';
+
     }
 }
 
-- 
2.43.0


From 7c7ec0e3521b2644a689ced468b00369a3553b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:49 +0000
Subject: [PATCH 86/99] fix: do not pass removed variables to external programs

---
 pbat/core/pBat_Env.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 4d85b64..65de8b7 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -413,6 +413,11 @@ void pBat_ApplyEnv(ENVBUF* pEnv)
     int i;
     ESTR* exp = pBat_EsInit_Cached();
 
+#if !defined(WIN32)
+    /* the variables removed by the script are not to be found */
+    clearenv();
+#endif
+
     for (i=0; i < pEnv->index; i++) {
 
         if (pEnv->envbuf[i]->name == NULL)
-- 
2.43.0


From b9f37b1ec0deab0a5b42325152410f56d9d79e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:03 +0000
Subject: [PATCH 87/99] fix: keep the empty arguments after the ninth

---
 pbat/command/pBat_Call.c | 4 ++++
 pbat/init/pBat_Init.c    | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index 95789ec..b549ecf 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -331,6 +331,10 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
             pBat_EsReplace(lpEsParam, "\t", "^\t");
             pBat_EsReplace(lpEsParam, "\"", "^\"");
 
+            /* an empty parameter is a parameter too */
+            if (*(lpEsParam->str) == '\0')
+                pBat_EsCat(lpEsCmd, "\"\"");
+
             pBat_EsCatE(lpEsCmd, lpEsParam);
             pBat_EsCat(lpEsCmd, " ");
 
diff --git a/pbat/init/pBat_Init.c b/pbat/init/pBat_Init.c
index 7277e51..b448418 100644
--- a/pbat/init/pBat_Init.c
+++ b/pbat/init/pBat_Init.c
@@ -65,7 +65,7 @@ void pBat_AssignCommandLine(int c, char** argv)
         pBat_EsCpy(lpEsParam, *argv);
         pBat_EsReplace(lpEsParam, "\"", "^\""); /* escape parenthesis */
 
-        if (strpbrk(*argv, delims)) {
+        if (**argv == '\0' || strpbrk(*argv, delims)) {
 
             pBat_EsCat(lpEsStr, "\"");
             pBat_EsCatE(lpEsStr, lpEsParam);
-- 
2.43.0


From f1781ecb39d325e8433f99ffa1ac8be02d1bdbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:24 +0000
Subject: [PATCH 88/99] fix: do not skip the empty lines of the input of FOR /F

---
 pbat/command/pBat_For.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 415ccbb..c589da3 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -593,7 +593,7 @@ int pBat_CmdForF(ESTR* lpInput, PARSED_LINE* lpplLine, FORINFO* lpfrInfo)
 		} else {
 
             /* If the line starts with one of the EOL characters, just skip it */
-            if ((lpfrInfo->lpEol[0] != '\0')
+            if ((lpInputToP->str[0] != '\0')
                 && (strchr(lpfrInfo->lpEol, *(lpInputToP->str))))
                 continue;
 
-- 
2.43.0


From c1fc5ba3d1b531a13a153466daec9d59259189b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:38 +0000
Subject: [PATCH 89/99] fix: MORE prints a screen of lines before its first
 prompt

---
 pbat/command/pBat_More.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 7357e9d..46947c8 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -251,7 +251,7 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
     /* char buf[80]; */
     int status=0,
         ok=1,
-        toprint;
+        toprint=23; /* a whole screen, to begin with */
 
     if (filename) {
 
-- 
2.43.0


From 919516ea7a3123b990349a15a6c339c0333fa048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:38 +0000
Subject: [PATCH 90/99] fix: end MORE when the user quits and when the input of
 its prompt ends

---
 pbat/command/pBat_More.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 46947c8..d4af4c7 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -46,6 +46,8 @@ static __thread int blank=0,
                     cr=0; /* a carriot return was included at the end of
                              the preceding line */
 
+static __thread int quit=0; /* the user asked to quit at the prompt */
+
 static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file);
 static int pBat_MorePrompt(FILE* fIn, int* toprint, int* skip, int* ok);
 
@@ -175,6 +177,8 @@ int pBat_CmdMore(char* line)
         flags |= PBAT_MORE_CLEAR;
     #endif /* LIBPBAT_NO_CONSOLE */
 
+    quit = 0;
+
     if (isatty(fileno(fOutput))) {
         flags |= PBAT_MORE_INTERACTIVE;
 
@@ -192,7 +196,10 @@ int pBat_CmdMore(char* line)
         else if (!(fIn = fopen(PBAT_MORE_INPUT_PATH, "r"))) {
 
             pBat_ShowErrorMessage(PBAT_FILE_ERROR,
-                                        PBAT_MORE_INPUT_PATH, -1);
+                                        PBAT_MORE_INPUT_PATH, FALSE);
+
+            /* nobody to ask */
+            flags &= ~ PBAT_MORE_INTERACTIVE;
 
         }
 
@@ -226,7 +233,7 @@ int pBat_CmdMore(char* line)
 
         next = list;
 
-        while (next) {
+        while (next && !quit) {
 
             status |= pBat_MoreFile(fIn, flags, tabsize, begin, next->lpFileName);
             next = next->lpflNext;
@@ -533,6 +540,16 @@ static int pBat_MorePrompt(FILE* in, int* toprint, int* skip, int* ok)
 
             case 'q':
             case 'Q':
+                quit = 1;
+                return 1;
+
+            case EOF:
+                /* some keys are reported this way as well */
+                if (!feof(in) && !ferror(in))
+                    break;
+
+                clearerr(in);
+                quit = 1;
                 return 1;
 
             case 'f':
-- 
2.43.0


From 7163fc6ba3bd5c1d291d7f7c585f617e216917e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:48 +0000
Subject: [PATCH 91/99] fix: CD and PUSHD to the root directory and through
 ".." above it

---
 pbat/command/pBat_Cd.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pbat/command/pBat_Cd.c b/pbat/command/pBat_Cd.c
index 754cd2b..bd4a892 100644
--- a/pbat/command/pBat_Cd.c
+++ b/pbat/command/pBat_Cd.c
@@ -121,11 +121,9 @@ reloop:
 
                     /* this is not meant to happen unless if .. follows directly the root
                        remove it then */
-#ifdef WIN32
-                    *path = '\0';
-#else
-                    *(path + 1) = '\0';
-#endif // WIN32
+                    memmove(path, path + 3, size - ((path + 3) - orig));
+                    size -= 3;
+                    continue;
 
                 } else {
 
@@ -150,6 +148,12 @@ reloop:
             path ++;
     }
 
+#ifndef WIN32
+    /* everything was swallowed, this is the root */
+    if (*orig == '\0')
+        strcpy(orig, "/");
+#endif // WIN32
+
     /* Wait ... */
 
     return 0;
-- 
2.43.0


From 7a0cf0b2216dfb314cf73c163535669052462d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:54 +0000
Subject: [PATCH 92/99] fix: do not take absolute paths as relative ones in CD
 and PUSHD

---
 pbat/command/pBat_Cd.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pbat/command/pBat_Cd.c b/pbat/command/pBat_Cd.c
index bd4a892..23c06d7 100644
--- a/pbat/command/pBat_Cd.c
+++ b/pbat/command/pBat_Cd.c
@@ -191,6 +191,13 @@ int pBat_SetCurrentDir(char* lpLine)
 
     }
 
+    if (PBAT_TEST_ABSOLUTE_PATH(lpLine)) {
+
+        errno = ENOENT;
+        return -1;
+
+    }
+
     /* find the end of the current dir */
     p = lpCurrentDir;
     while (*p)
-- 
2.43.0


From 43409bc92d31bbb6623411b2c1efd5da695dcaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:13 +0000
Subject: [PATCH 93/99] fix: report the exit code of programs run by the start
 script

---
 pbat/core/pBat_Exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 0212967..14c336a 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -652,7 +652,7 @@ int pBat_StartFile(EXECINFO* info, int* error)
 
     }
 
-    return status;
+    return WEXITSTATUS(status);
 
 }
 
-- 
2.43.0


From 23c351eb14891fa0df4e0f4a80f134aa70d89c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:13 +0000
Subject: [PATCH 94/99] fix: do not go on as an interpreter when the start
 script cannot be run

---
 pbat/core/pBat_Exec.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 14c336a..87126c5 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -597,7 +597,10 @@ int pBat_StartFile(EXECINFO* info, int* error)
         if (info->dir && chdir(info->dir) == -1) {
             pBat_ShowErrorMessage(PBAT_DIRECTORY_ERROR | PBAT_PRINT_C_ERROR,
                                     info->dir,
-                                    -1);
+                                    FALSE);
+
+            fflush(fError);
+            _exit(-1);
 
         }
 
@@ -633,7 +636,12 @@ int pBat_StartFile(EXECINFO* info, int* error)
         if (execv(script, arg) == -1) {
             pBat_ShowErrorMessage(PBAT_COMMAND_ERROR | PBAT_PRINT_C_ERROR,
                                     script,
-                                    -1);
+                                    FALSE);
+
+            /* exit() would flush a second time the streams copied
+               from the father */
+            fflush(fError);
+            _exit(-1);
 
         }
 
-- 
2.43.0


From 8404523fa6e81621679ab86ba3fcefe1184039dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:13 +0000
Subject: [PATCH 95/99] fix: do not hand descriptors of the interpreter down to
 the start script

---
 pbat/core/pBat_Exec.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 87126c5..cccc5a1 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -633,6 +633,10 @@ int pBat_StartFile(EXECINFO* info, int* error)
         pBat_ApplyEnv(lpeEnv);
         pBat_ApplyStreams(lppsStreamStack);
 
+        /* as in pBat_RunFile(), do not let pipes be held open */
+        for (i=3;i < 2048; i++)
+            fcntl(i, F_SETFD, FD_CLOEXEC);
+
         if (execv(script, arg) == -1) {
             pBat_ShowErrorMessage(PBAT_COMMAND_ERROR | PBAT_PRINT_C_ERROR,
                                     script,
-- 
2.43.0


From e0f03f81a9dd02f2ae28be388d9fe43502c7c8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:13 +0000
Subject: [PATCH 96/99] fix: ignore /MIN and /MAX of START, as documented

---
 pbat/command/pBat_Start.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Start.c b/pbat/command/pBat_Start.c
index 414c349..bf12aab 100644
--- a/pbat/command/pBat_Start.c
+++ b/pbat/command/pBat_Start.c
@@ -157,7 +157,9 @@ int pBat_CmdStart(char* line)
 
             info.flags &= ~PBAT_EXEC_SEPARATE_WINDOW;
 
-        } else if (!stricmp(param->str, "/NORMAL")              /* \        */
+        } else if (!stricmp(param->str, "/MIN")                 /* \        */
+                    || !stricmp(param->str, "/MAX")             /* |        */
+                    || !stricmp(param->str, "/NORMAL")          /* |        */
                     ||!stricmp(param->str, "/SHARED")           /* |        */
                     || !stricmp(param->str, "/SEPARATE")        /* |        */
                     || !stricmp(param->str, "/HIGH")            /* |        */
-- 
2.43.0


From f13820ff89250c034c3fe5dfb7fb127b26c68325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:52 +0000
Subject: [PATCH 97/99] fix: do not ask for the end of file twice in TYPE

---
 pbat/command/pBat_Type.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Type.c b/pbat/command/pBat_Type.c
index 4fada1f..686e674 100644
--- a/pbat/command/pBat_Type.c
+++ b/pbat/command/pBat_Type.c
@@ -56,7 +56,8 @@ int pBat_TypeFileF(FILE* pFile, const char* lpFileName)
     size_t size;
     int status = 0;
 
-    while ((size = fread(buf, 1, sizeof(buf), pFile)))
+    /* once the end is reached, do not ask a terminal for more */
+    while (!feof(pFile) && (size = fread(buf, 1, sizeof(buf), pFile)))
         fwrite(buf, 1, size, fOutput);
 
     if (ferror(pFile)) {
-- 
2.43.0


From 4c6f05798e202d1a7f7e0239f4c2cc4450d54be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:42 +0000
Subject: [PATCH 98/99] fix: expand the arguments of programs only once

---
 pbat/core/pBat_Args.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pbat/core/pBat_Args.c b/pbat/core/pBat_Args.c
index b6f8f4e..b075a54 100644
--- a/pbat/core/pBat_Args.c
+++ b/pbat/core/pBat_Args.c
@@ -309,8 +309,6 @@ struct PARAMLIST* pBat_GetParamList(char* lpLine)
         next->next = NULL;
         next->param = lpParam;
 
-		pBat_DelayedExpand(lpParam);
-
 		lpParam=pBat_EsInit_Cached();
 
 		lpLine=lpNext;
-- 
2.43.0


From 292479369bbac45428d9f3e4d7d8bc997aeb7fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:42 +0000
Subject: [PATCH 99/99] fix: ignore DISABLEEXTENSIONS in SETLOCAL, as
 documented

---
 pbat/command/pBat_Setlocal.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pbat/command/pBat_Setlocal.c b/pbat/command/pBat_Setlocal.c
index 7fc7272..72eee63 100644
--- a/pbat/command/pBat_Setlocal.c
+++ b/pbat/command/pBat_Setlocal.c
@@ -106,6 +106,8 @@ int pBat_CmdSetLocal(char* lpLine)
             return PBAT_UNABLE_SET_OPTION;
 #endif
 		}  else if (!stricmp(lpName, "ENABLEEXTENSIONS")
+             || !stricmp(lpName, "DISABLEEXTENSIONS")
+             || !stricmp(lpName, "ENABLEEXTENSION")
              || !stricmp(lpName, "DISABLEEXTENSION")) {
 
 			/* provided for backward compatibility. The ENABLEEXTENSIONS
-- 
2.43.0

