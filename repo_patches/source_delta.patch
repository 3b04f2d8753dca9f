From 03a79c72bd8191d4d0a519653d20f64814d67cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 01/88] fix: clear the end-of-file state of stdin when it is
 redirected

Once a command had read a redirected input or a pipe up to its end, the
EOF flag stuck to fInput and every later `<' or `|' looked empty.
---
 pbat/core/pBat_Stream.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Stream.h b/pbat/core/pBat_Stream.h
index 2dc1805..326cee3 100644
--- a/pbat/core/pBat_Stream.h
+++ b/pbat/core/pBat_Stream.h
@@ -89,8 +89,9 @@
                 lseek(fileno(s), ftell(s), SEEK_SET); \
             fflush(s); \
             __PBAT_DUP_STD(fd, s) \
-            PBAT_RESET_BUFFERING(fd, s)
-
+            clearerr(s); \
+            PBAT_RESET_BUFFERING(fd, s)
+
 #define PBAT_XDUP(fd, s) \
             if (((fd) = dup(fileno(s))) == -1) \
                 pBat_ShowErrorMessage(PBAT_UNABLE_DUPLICATE_FD \
-- 
2.43.0


From d4a8492e5fc493d10ccc69b8f314ae4a96f805ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 02/88] fix: IF ERRORLEVEL dereferences a NULL pointer

ERRORLEVEL is not stored in the environment, so that the test always
crashed. Compare with iErrorLevel (true if greater or equal) instead.
---
 pbat/command/pBat_If.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_If.h b/pbat/command/pBat_If.h
index 16c279e..5e5aca1 100644
--- a/pbat/command/pBat_If.h
+++ b/pbat/command/pBat_If.h
@@ -55,7 +55,7 @@
     ret = (pBat_GetEnv(env, var) != NULL);
 
 #define PBAT_IF_ERRORLEVEL_TEST(ret, val, env) \
-    ret = !stricmp(val, pBat_GetEnv(env, "ERRORLEVEL"));
+    ret = (iErrorLevel >= (int)strtol(val, NULL, 0));
 
 int pBat_PerformExtendedTest(const char* lpCmp, const char* lpParam1, const char* lpParam2, int iFlag);
 
-- 
2.43.0


From 82f75790c6844d9aa59a23896bc296534c720d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 03/88] fix: jumping to a missing label frees an uninitialized
 script

---
 pbat/core/pBat_Jump.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Jump.c b/pbat/core/pBat_Jump.c
index 29349be..96f4995 100644
--- a/pbat/core/pBat_Jump.c
+++ b/pbat/core/pBat_Jump.c
@@ -81,7 +81,8 @@ int pBat_JumpToLabel(char* lpLabelName, char* lpFileName)
 
     if (lbl == NULL) {
 
-        pBat_FreeBatchScript(&script);
+        if (new)
+            pBat_FreeBatchScript(&script);
         return -1;
 
     }
-- 
2.43.0


From 65c5d9775b1e91bf8de8b294ec612c9e760627b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 04/88] fix: `exit code' ignores the code

---
 pbat/command/pBat_Exit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Exit.c b/pbat/command/pBat_Exit.c
index cccd839..a80ff71 100644
--- a/pbat/command/pBat_Exit.c
+++ b/pbat/command/pBat_Exit.c
@@ -91,7 +91,7 @@ int pBat_CmdExit(char* lpLine)
 
 		} else {
 
-			ret = atoi(ntoken);
+			ret = atoi(param->str);
 
 		}
 	}
-- 
2.43.0


From e766fef8fedd904177b27cd765773c7fc613f415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 05/88] fix: return the last ERRORLEVEL as exit status

The status given to a top level `exit /b' (which is the same as `exit'
there) was lost.
---
 pbat/pBat.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pbat/pBat.c b/pbat/pBat.c
index fc53329..d44fdb3 100644
--- a/pbat/pBat.c
+++ b/pbat/pBat.c
@@ -74,7 +74,8 @@ int main(int argc, char *argv[])
 
 
     int bQuiet=FALSE,
-        bExitAfterCmd=TRUE;
+        bExitAfterCmd=TRUE,
+        iStatus;
 
     ESTR* lpesCmd;
 
@@ -198,10 +199,12 @@ int main(int argc, char *argv[])
 
 skip:
 
+    iStatus = iErrorLevel;
+
     pBat_Exit();
 
     pBat_LibClose();
 
-    return 0;
+    return iStatus;
 
 }
-- 
2.43.0


From e3fd1f10ef8cdf285f031fc7fb7ccf1765af3e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 06/88] fix: ENDLOCAL does not restore the options changed by
 SETLOCAL

---
 pbat/command/pBat_Setlocal.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_Setlocal.c b/pbat/command/pBat_Setlocal.c
index 3ed91e5..9e7026f 100644
--- a/pbat/command/pBat_Setlocal.c
+++ b/pbat/command/pBat_Setlocal.c
@@ -60,7 +60,9 @@ int pBat_CmdSetLocal(char* lpLine)
 	char lpName[FILENAME_MAX];
 	char* lpNext=lpLine+8;
 	int push = 1,
-        status = PBAT_NO_ERROR;
+        status = PBAT_NO_ERROR,
+        oldDelayed = bDelayedExpansion,
+        oldCmdly = bCmdlyCorrect;
 
 	while ((lpNext=pBat_GetNextParameter(lpNext, lpName, FILENAME_MAX))) {
 
@@ -124,9 +126,16 @@ int pBat_CmdSetLocal(char* lpLine)
 
 	}
 
-	if (push)
+	if (push) {
+
         pBat_PushEnvStack();
 
+        /* ENDLOCAL must restore options as they were before SETLOCAL */
+        lpesEnv->bDelayedExpansion = oldDelayed;
+        lpesEnv->bCmdlyCorrect = oldCmdly;
+
+	}
+
 	return iErrorLevel;
 }
 
-- 
2.43.0


From 854dc42c8d57965064851f71116d444c80c6823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 07/88] fix: SHIFT rejects /7

---
 pbat/command/pBat_Shift.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Shift.c b/pbat/command/pBat_Shift.c
index cfad794..fdd5ace 100644
--- a/pbat/command/pBat_Shift.c
+++ b/pbat/command/pBat_Shift.c
@@ -76,6 +76,7 @@ int pBat_CmdShift(char* lpLine)
 				case '4':
 				case '5':
 				case '6':
+				case '7':
 				case '8':
 				case '9':
 					iBegin=*lpToken-'0'; /* well, we assume that all numbers
-- 
2.43.0


From e892fc0e9d3535671414c0bb5e803ca05092cf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 08/88] fix: IF and FOR discard the ERRORLEVEL of the commands
 they run

Returning 0 threw away the status of the last command of the body,
including the code given to `exit /b' in an IF.
---
 pbat/command/pBat_For.c | 2 +-
 pbat/command/pBat_If.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 092cb61..2556018 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -358,7 +358,7 @@ error:
 	if (!lpplLine && line)
         pBat_FreeParsedStream(line);
 
-	return status;
+	return status ? status : iErrorLevel;
 }
 
 int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 6bb22fc..00d9897 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -431,7 +431,7 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
     if (lpplLine)
         *lpplLine = NULL;
 
-	return 0;
+	return iErrorLevel;
 }
 
 /* Get the value from the chain pointed to by *number and return a value
-- 
2.43.0


From ea769d13d16ff5f884bcef406ca2e8eebf51edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 09/88] fix: a silenced failed GOTO /Q modifies ERRORLEVEL

---
 pbat/command/pBat_Goto.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_Goto.c b/pbat/command/pBat_Goto.c
index 1b97add..7f57394 100644
--- a/pbat/command/pBat_Goto.c
+++ b/pbat/command/pBat_Goto.c
@@ -111,10 +111,13 @@ int pBat_CmdGoto(char* lpLine)
 
     if ((pBat_JumpToLabel(lpLabelName, *lpFileName ? lpFileName : NULL) == -1)) {
 
-        if (! quiet)
+        if (! quiet) {
+
             pBat_ShowErrorMessage(PBAT_LABEL_ERROR, lpLabelName, 0);
+            iErrorLevel = PBAT_LABEL_ERROR;
+
+        }
 
-        iErrorLevel = PBAT_LABEL_ERROR;
         goto err;
 
     }
-- 
2.43.0


From 15acd0313dc8fe65f1826a711d6bebcda8bee12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 10/88] fix: ENDLOCAL in a CALL reverts SETLOCAL commands of
 the caller

---
 pbat/command/pBat_Call.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index caac732..44db0d3 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -237,6 +237,7 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 	LOCAL_VAR_BLOCK lpvTmpBlock[LOCAL_VAR_BLOCK_SIZE]={NULL};
 	LOCAL_VAR_BLOCK* lpvOldArgs;
 	LOCAL_VAR_BLOCK lpvTmpArgs[LOCAL_VAR_BLOCK_SIZE]={NULL};
+	ENVSTACK *lpesOld, **lplpesEnd;
 	char lpAbsPath[FILENAME_MAX];
 	int status = PBAT_NO_ERROR;
 
@@ -360,10 +361,18 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 
 	/* run the  command */
 
+	/* ENDLOCAL can not revert SETLOCAL calls older than this CALL */
+	lpesOld = lpesEnv;
+	lpesEnv = NULL;
+
 	pBat_RunBatch(&ifIn);
 
     bAbortCommand=FALSE;
 
+	for (lplpesEnd = &lpesEnv; *lplpesEnd; lplpesEnd = &((*lplpesEnd)->previous));
+
+	*lplpesEnd = lpesOld;
+
 	/* restore the stream stack */
 
 	pBat_SetStreamStackLockState(lppsStreamStack, iLockState);
-- 
2.43.0


From 9885dbbe0a98428d644635bf780f1d6e380d1d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 11/88] fix: FOR never ends if its list contains ':'

pBat_GetParameterPointers() does not skip such delimiters, so that an
empty item was found again and again.
---
 pbat/command/pBat_For.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 2556018..204f0fd 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -394,6 +394,14 @@ int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
 
         } else {
 
+            if (lpToken == lpBegin) {
+
+                /* a delimiter that is not skipped as a blank (eg. ':') */
+                lpToken ++;
+                continue;
+
+            }
+
             if (lpToken == NULL) {
 
                 pBat_EsCpy(lpesStr, lpBegin);
-- 
2.43.0


From 86fa9f93b3a0ec83dff0f0e09d8b7a659c2b09f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 12/88] fix: SET /A crashes on integer division by zero

---
 libfasteval/lib/parser.y | 12 ++++++++++--
 pbat/command/pBat_Set.c  |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/libfasteval/lib/parser.y b/libfasteval/lib/parser.y
index 3e1e63e..b3ba2b0 100644
--- a/libfasteval/lib/parser.y
+++ b/libfasteval/lib/parser.y
@@ -140,12 +140,20 @@ expression
   INT_FLOAT_OP(*, $$, $1, $3);
 }
 | expression '/' expression {
-  INT_FLOAT_OP(/, $$, $1, $3);
+
+  /* integer division by zero is undefined, get inf or nan */
+  if (!($1.is_double) && !($3.is_double) && $3.i == 0) {
+    $$.is_double = 1;
+    $$.d = (double)$1.i / 0.0;
+  } else {
+    INT_FLOAT_OP(/, $$, $1, $3);
+  }
+
 }
 | expression '%' expression {
 
   /* modulo may use integer operator % or fmod function */
-  $$.is_double  = $1.is_double || $3.is_double;
+  $$.is_double  = $1.is_double || $3.is_double || $3.i == 0;
   if (!($$.is_double))
     $$.i = $1.i % $3.i;
   $$.d = fmod($1.d, $3.d);
diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 8443b6c..6ba2a98 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -459,7 +459,7 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 
 				case '/':
 					dVal = OPERATE(dVal, /,
-                                    dResult, fmode);
+                                    dResult, fmode || dResult == 0);
 					break;
 
                 case '%':
-- 
2.43.0


From 5590cb1c3a18da8046a8cdc09413c3cb5f3a3856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 13/88] fix: COPY and MOVE swap the meaning of /Y and /-Y

---
 pbat/command/pBat_Copy.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 184b788..373156b 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -136,7 +136,10 @@ int pBat_CmdCopy(char* line)
         if (!stricmp("/Y", str)
             || !stricmp("/-Y", str)) {
 
-            flags |= (*(str+1)=='-') ? PBAT_COPY_SILENCE : 0;
+            if (*(str+1)=='-')
+                flags &= ~PBAT_COPY_SILENCE;
+            else
+                flags |= PBAT_COPY_SILENCE;
 
         } else if (!strnicmp("/A", str, 2)) {
 
-- 
2.43.0


From 45208d2967cf30700d7540d8937b3744e312fdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 14/88] fix: confirmation prompts loop for ever at the end of
 the input

---
 pbat/command/pBat_Ask.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Ask.c b/pbat/command/pBat_Ask.c
index cfa28f9..d0170c4 100644
--- a/pbat/command/pBat_Ask.c
+++ b/pbat/command/pBat_Ask.c
@@ -63,7 +63,12 @@ void pBat_AskConfirmationRead(char* buffer, size_t size)
 
     while (1) {
 
+#if defined(WIN32) && defined(PBAT_USE_LIBCU8)
         xread(fileno(fInput), &c, 1);
+#else
+        if (xread(fileno(fInput), &c, 1) <= 0)
+            break; /* end of input */
+#endif
 
         if (c == '\r')
             continue;
@@ -90,7 +95,7 @@ int pBat_AskConfirmation(int iFlags, void(*lpFn)(char*,size_t),  const char* lpM
 	const char *lpChoices=NULL;
 	/* char *lpLf; */
 
-	int iRet;
+	int iRet = 0;
 	char lpInput[30];
 
 	if (iFlags & PBAT_ASK_YNA) {
-- 
2.43.0


From daa79cf6b54a2418ed7791db149f05b902df6897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 15/88] fix: RD succeeds even if the directory could not be
 removed

---
 pbat/command/pBat_Rmdir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Rmdir.c b/pbat/command/pBat_Rmdir.c
index c8c9065..25c1205 100644
--- a/pbat/command/pBat_Rmdir.c
+++ b/pbat/command/pBat_Rmdir.c
@@ -153,7 +153,7 @@ int pBat_CmdRmdir(char* lpLine)
 
         /* This is simple case where we just need to remove the dir */
         choice = PBAT_ASK_ALL;
-        pBat_CmdRmdirFile(name[0], param, &choice);
+        status = pBat_CmdRmdirFile(name[0], param, &choice);
 
     } else if (n == 0) {
 
-- 
2.43.0


From 6c739b289315ad1013774254d60a4e76f08df159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 16/88] fix: IF [ a or b ] reads an uninitialized result

---
 pbat/command/pBat_IfExp.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index cce9da2..ef873c2 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -134,12 +134,17 @@ int pBat_IfExp_Evaluate(ifexp_t* exp, int flags)
 
     /* take a shortcut here, on some occasions you don't have to
        evaluate the left hand side of the expression */
-    if (exp->type == IFEXP_AND )
+    if (exp->type == IFEXP_AND) {
+
         if (!res1)
             return 0;
-    else if (res2)
+
+    } else if (res1) {
+
         return 1;
 
+    }
+
     if (exp->child2.type == IFEXP_NODE_OPS) {
 
         res2 = pBat_IfExp_ExecuteTest(exp->child2.child.ops, flags);
-- 
2.43.0


From 3c7d1f592591131d03cdcded4b2f3c4de3d2ace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 17/88] fix: AND has precedence over OR in IF expressions

---
 pbat/command/pBat_IfExp.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index ef873c2..ce6efd0 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -242,23 +242,23 @@ ifexp_t* pBat_IfExp_Parse(ifexp_line_t* line)
     if (!(exp = malloc(sizeof(ifexp_t))))
         return NULL;
 
-    if (pBat_IfExp_Cut("AND", &line, &rhs)) {
+    if (pBat_IfExp_Cut("OR", &line, &rhs)) {
 
         if (line == NULL || rhs == NULL)
             goto error;
 
-        exp->type = IFEXP_AND;
+        exp->type = IFEXP_OR;
 
         pBat_IfExp_FillChild(&(exp->child1), line);
         pBat_IfExp_FillChild(&(exp->child2), rhs);
 
 
-    } else if (pBat_IfExp_Cut("OR", &line, &rhs)) {
+    } else if (pBat_IfExp_Cut("AND", &line, &rhs)) {
 
         if (line == NULL || rhs == NULL)
             goto error;
 
-        exp->type = IFEXP_OR;
+        exp->type = IFEXP_AND;
 
         pBat_IfExp_FillChild(&(exp->child1), line);
         pBat_IfExp_FillChild(&(exp->child2), rhs);
-- 
2.43.0


From 733f708e8019cad127f7e6406275fb54f90506b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 18/88] fix: detection of script changes reads an uninitialized
 variable

---
 pbat/core/pBat_ReadScript.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_ReadScript.c b/pbat/core/pBat_ReadScript.c
index b187949..5f5bb56 100644
--- a/pbat/core/pBat_ReadScript.c
+++ b/pbat/core/pBat_ReadScript.c
@@ -322,7 +322,7 @@ int pBat_ReloadBatchScript(struct batch_script_t* script)
 /* Check batch script changes */
 int pBat_CheckBatchScriptChanges(struct batch_script_t* script)
 {
-    int ret, err;
+    int ret, err = 0;
 
     ret = (script->size != pBat_GetScriptSize(script, &err));
 
-- 
2.43.0


From 3384464daa4a9e424ebcfbf6f52545e2995daf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 19/88] fix: %var:~-m,n% is empty if m characters are left but
 m > len-n

---
 pbat/core/pBat_Var.c | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index fff0263..8923f2b 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -230,21 +230,8 @@ int pBat_GetVar(char* lpName, ESTR* lpRecieve)
         iTotalLen=strlen(lpVarContent);
 #endif // PBAT_USE_LIBCU8
 
-		if (iBegin < 0) {
-
-            if (iLen > 0) {
-
-                if ( (iTotalLen+iBegin) >= iLen)
-                    iBegin = iTotalLen + iBegin;
-
-            } else {
-
-                if ( iBegin <= iLen )
-                    iBegin = iTotalLen + iBegin;
-
-            }
-
-        }
+		if (iBegin < 0)
+            iBegin = iTotalLen + iBegin;
 
         if (iBegin < 0 || iBegin > iTotalLen) {
 
-- 
2.43.0


From 65dd8b4fa9138ff8c354a27b076a7934ab2ccaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 20/88] fix: environment is sorted according to truncated
 pointers differences

---
 pbat/core/pBat_Env.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index f598f00..ff582ae 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -36,8 +36,9 @@ int pBat_EnvCompName(const void* p1, const void* p2)
 {
     ENVVAR *pVar1=*((ENVVAR**)p1), *pVar2=*((ENVVAR**)p2);
 
+    /* unused entries are always at the end of the buffer */
     if ((pVar1->name == NULL) || (pVar2->name == NULL))
-        return pVar2->name - pVar1->name;
+        return (pVar1->name == NULL) - (pVar2->name == NULL);
 
     return stricmp(pVar1->name, pVar2->name);
 }
-- 
2.43.0


From 78e63dcb7ad42a6401f3e9c1df2ca7b62bd0907e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 21/88] fix: local variables of DEF may not be found if
 lower-case variables exist

---
 pbat/core/pBat_Env.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index ff582ae..de64e28 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -22,6 +22,7 @@
  #define _XOPEN_SOURCE 700
  #endif
 
+#include <ctype.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -50,7 +51,8 @@ int pBat_EnvCompLocal(const void* p1, const void* p2)
     if ((pVar2->name == NULL))
         return - PBAT_ENV_LOCAL_PREFIX;
 
-    return *(pVar2->name) - PBAT_ENV_LOCAL_PREFIX;
+    /* use the same order as pBat_EnvCompName() */
+    return PBAT_ENV_LOCAL_PREFIX - tolower((unsigned char)*(pVar2->name));
 }
 
 #define PBAT_ENV_BLOCK_MASK 0x7F
-- 
2.43.0


From 95064595ce3083f3b8f2f83c96797c5980e678b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 22/88] fix: a new variable gets the inherit flag of a deleted
 one

---
 pbat/core/pBat_Env.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index de64e28..a601ad1 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -318,7 +318,7 @@ error:
 
         (*pRes)->name = namecpy;
         (*pRes)->previous = NULL;
-        (*pRes)->inherit |= inherit;
+        (*pRes)->inherit = inherit;
 
     } else {
 
-- 
2.43.0


From 08a3353c58c17388212afe6adb3e94570a036d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 23/88] fix: `set var =' does not remove the variable

---
 pbat/core/pBat_Env.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index a601ad1..611b1fb 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -264,18 +264,19 @@ void pBat_SetEnvEx(ENVBUF* pEnv, char* name, const char* content, int inherit)
 
     /* int i; */
 
+    if (!(namecpy = strdup(name)))
+        goto error;
+
+    pBat_AdjustVarName(namecpy);
+
     if (content == NULL || *content == '\0') {
 
-        pBat_UnSetEnv(pEnv, name);
+        pBat_UnSetEnv(pEnv, namecpy);
+        free(namecpy);
     	return;
 
     }
 
-    if (!(namecpy = strdup(name)))
-        goto error;
-
-    pBat_AdjustVarName(namecpy);
-
     key.content = NULL;
     key.name = namecpy;
 
-- 
2.43.0


From 7065e18f4a7eef518236756df89428771e65bb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 24/88] fix: children processes get the inherited variables
 that have been unset

---
 pbat/core/pBat_Env.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 611b1fb..ab88383 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -33,6 +33,10 @@
 
 #include <libpBat.h>
 
+#if !defined(WIN32)
+extern char** environ;
+#endif
+
 int pBat_EnvCompName(const void* p1, const void* p2)
 {
     ENVVAR *pVar1=*((ENVVAR**)p1), *pVar2=*((ENVVAR**)p2);
@@ -407,6 +411,13 @@ void pBat_ApplyEnv(ENVBUF* pEnv)
     int i;
     ESTR* exp = pBat_EsInit_Cached();
 
+#if !defined(WIN32)
+    static char* empty[] = {NULL};
+
+    /* forget inherited variables that have been removed since */
+    environ = empty;
+#endif
+
     for (i=0; i < pEnv->index; i++) {
 
         if (pEnv->envbuf[i]->name == NULL)
-- 
2.43.0


From 2af5ae881dea79888fa9f5af5c6d003f85acb42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 25/88] fix: left side of pipes is run even if a GOTO aborted
 the line

---
 pbat/core/pBat_Run.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 63f51fc..bdc5f9a 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -332,6 +332,10 @@ void pBat_RunParsedLine(PARSED_LINE* line)
 	/* loop though operators */
 	do {
 
+        /* do not launch the pipes that follow a GOTO or an EXIT */
+        if (bAbortCommand)
+            break;
+
 		lock = pBat_GetStreamStackLockState(lppsStreamStack);
 		pBat_SetStreamStackLockState(lppsStreamStack, 1);
 
-- 
2.43.0


From 75137275ba47aae8d32607eb7dea200ec0cbc142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 26/88] fix: commands run by FOR are altered by their first
 iteration

---
 pbat/core/pBat_Run.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index bdc5f9a..2d6b331 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -328,6 +328,7 @@ void pBat_RunParsedLine(PARSED_LINE* line)
 {
 	int lock, ok;
 	char *pch;
+	PARSED_LINE item, *next;
 
 	/* loop though operators */
 	do {
@@ -378,7 +379,19 @@ void pBat_RunParsedLine(PARSED_LINE* line)
             || (!strnicmp(pch, "for", 3) && pBat_IsDelim(*(pch + 3)))))
             pBat_ExecOutput(line->sStream);
 
-		pBat_RunCommand(line->lpCmdLine, &line);
+		/* Run a copy of the element, because the commands may modify it while
+		   the line may have to be run again (eg. inside a FOR) */
+		item = *line;
+		item.lpCmdLine = pBat_EsInit_Cached();
+		pBat_EsCpyE(item.lpCmdLine, line->lpCmdLine);
+		next = &item;
+
+		pBat_RunCommand(item.lpCmdLine, &next);
+
+		pBat_EsFree_Cached(item.lpCmdLine);
+
+		if (next == NULL)
+			line = NULL;
 
 		lppsStreamStack = pBat_PopStreamStackUntilLock(lppsStreamStack);
 		pBat_SetStreamStackLockState(lppsStreamStack, lock);
-- 
2.43.0


From a34e2ecb614f4595062801204a0013cacdc3505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 27/88] fix: a script that CALLs itself is not run from its
 beginning

---
 pbat/command/pBat_Call.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index 44db0d3..fdcd570 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -275,6 +275,8 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 		         "%s",
 		         lpAbsPath
 		        );               /* sets input to given file */
+		*(ifIn.batch.name)='\0'; /* run the file from its beginning, even if
+                                    it is already the current one */
 
 		pBat_SetLocalVar(lpvTmpArgs, '0', lpAbsPath);
 
-- 
2.43.0


From cbe14796e6d9e5bb1063698e0c6d1325124661a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 28/88] fix: IF and FOR reached through an operator may skip
 the commands they run

The first element of the line run by IF and FOR kept the operator on the left
of the IF or FOR, so that their commands were never run at the right side of a
pipe, and the iterations of FOR were tested against && and ||.
---
 pbat/core/pBat_Run.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 2d6b331..b8abe03 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -861,6 +861,9 @@ PARSED_LINE* pBat_LookAHeadMakeParsedLine(BLOCKINFO* block, PARSED_LINE* lookahe
 
     lookahead->lpCmdLine = cmd;
 
+    /* the operator on the left of the lookahead command is already processed */
+    lookahead->cNodeType = PARSED_STREAM_NODE_NONE;
+
     return lookahead;
 }
 
-- 
2.43.0


From bfa96b444ad9ab8600566a038eaa1b8bebfbaea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 29/88] fix: SET lists a (null) variable once a variable has
 been removed

---
 pbat/command/pBat_Set.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 6ba2a98..ed78ee6 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -203,9 +203,9 @@ int pBat_CmdSet(char *lpLine)
 		   which match with the prefix (if defined)
 		*/
 		for (i=0; i < lpeEnv->index; i++) {
-			if (*lpLine == '\0'
-                || ((lpeEnv->envbuf[i]->name != NULL)
-                    && !strnicmp(lpeEnv->envbuf[i]->name, lpLine, strlen(lpLine)))) {
+			if ((lpeEnv->envbuf[i]->name != NULL)
+                && (*lpLine == '\0'
+                    || !strnicmp(lpeEnv->envbuf[i]->name, lpLine, strlen(lpLine)))) {
 
 				found = TRUE;
 
-- 
2.43.0


From 926a66e90a84557d10e076c9550b43ed42ac6528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 30/88] fix: FOR /F skips empty lines

---
 pbat/command/pBat_For.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 204f0fd..505f97f 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -596,6 +596,7 @@ int pBat_CmdForF(ESTR* lpInput, PARSED_LINE* lpplLine, FORINFO* lpfrInfo)
 
             /* If the line starts with one of the EOL characters, just skip it */
             if ((lpfrInfo->lpEol[0] != '\0')
+                && (*(lpInputToP->str) != '\0')
                 && (strchr(lpfrInfo->lpEol, *(lpInputToP->str))))
                 continue;
 
-- 
2.43.0


From c88abdbf294794ee1d094d6c7804f48b33417d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 31/88] fix: tokens= option of FOR /F is mixed up with its
 default value

---
 pbat/command/pBat_For.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 505f97f..57fa37c 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -868,7 +868,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                     goto infos_overflow;
 
                 /* write a single token to infos */
-                infos->lpToken[i]|=TOHIGH(start)+TOLOW(start);
+                infos->lpToken[i]=TOHIGH(start)+TOLOW(start);
                 i++;
 
                 last = start;
@@ -891,7 +891,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                         goto infos_overflow;
 
                     /* write a cat token to infos */
-                    infos->lpToken[i]|=TOHIGH(start)+TOLOW(end);
+                    infos->lpToken[i]=TOHIGH(start)+TOLOW(end);
                     i++;
 
                 } else {
@@ -904,7 +904,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                         if (i >= TOKENINFO_NB_MAX )
                             goto infos_overflow;
 
-                        infos->lpToken[i]|=TOHIGH(start)+TOLOW(start);
+                        infos->lpToken[i]=TOHIGH(start)+TOLOW(start);
                         i++;
 
                         start ++;
@@ -972,7 +972,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                     goto infos_overflow;
 
                 /* write a single token to infos */
-                infos->lpToken[i]|=TOHIGH(start)+TOLOW(start);
+                infos->lpToken[i]=TOHIGH(start)+TOLOW(start);
                 i++;
 
                 start ++;
-- 
2.43.0


From a578d044657cdb1ce6f080965d6ae0f08e5fd206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 32/88] fix: FOR /F overwrites variables that are already
 assigned

Only the first variable was checked.
---
 pbat/command/pBat_For.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 57fa37c..8779034 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1167,7 +1167,7 @@ int pBat_ForVarCheckAssignment(FORINFO* lpfrInfo)
 	    iMax=lpfrInfo->iTokenNb;
 	char cVarName=lpfrInfo->cFirstVar;
 
-	for (i=0; i<iMax; i++) {
+	for (i=0; i<iMax; i++, cVarName++) {
 
 		if ((pBat_GetLocalVarPointer(lpvLocalVars, cVarName))) {
 
-- 
2.43.0


From d1de4fa37e68104d23c347b6d4de95d9df312a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 33/88] fix: TYPE loses files if it is given more than two
 parameters

---
 pbat/command/pBat_Type.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pbat/command/pBat_Type.c b/pbat/command/pBat_Type.c
index 87af0ff..d923aba 100644
--- a/pbat/command/pBat_Type.c
+++ b/pbat/command/pBat_Type.c
@@ -146,6 +146,9 @@ int pBat_CmdType(char* lpLine)
             else
                 pEnd->lpflNext = pTmp; /* catenate the lists */
 
+            while (pEnd->lpflNext)
+                pEnd = pEnd->lpflNext;
+
         }
 
     }
-- 
2.43.0


From 0c320a51eb9391965486c7234dfd9786dded0666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:49 +0000
Subject: [PATCH 34/88] fix: DEF /F may replace a command which name is only a
 prefix

DEF /F setlocal=... replaced SET, and DEF /F rename=... replaced REN.
---
 libpbat/cmdlist/pBat_CmdList.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libpbat/cmdlist/pBat_CmdList.c b/libpbat/cmdlist/pBat_CmdList.c
index 7963c12..d45d73a 100644
--- a/libpbat/cmdlist/pBat_CmdList.c
+++ b/libpbat/cmdlist/pBat_CmdList.c
@@ -280,9 +280,9 @@ LIBPBAT int				pBat_ReplaceCommand(LPCOMMANDINFO lpciCommand, LPCOMMANDLIST lpcl
 
     while (lpclCommandList) {
 
-        iRet=strnicmp(lpCommandLine,
-                      lpclCommandList->ptrCommandName,
-                      lpclCommandList->iLenght);
+        /* the name must match exactly, not only begin with
+           the name of the command */
+        iRet=stricmp(lpCommandLine, lpclCommandList->ptrCommandName);
 
         if (iRet>0) {
 
-- 
2.43.0


From 57df03ad5600b1cfe2e7b183133e5a266235bc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 35/88] fix: SET /A reads the wrong variable for &&= and ||=

The variable was looked up while its name still had the first character of
the operator, so that `set /a "x&&=1"' always gave 0.
---
 pbat/command/pBat_Set.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index ed78ee6..0eec503 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -491,9 +491,6 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 
 			*(lpEqual-1)='\0';
 
-			pBat_AdjustVarName(lpVarName);
-			dVal=_pBat_SetGetVar(lpVarName);
-
 			if (lpVarName != (lpEqual-1)) {
 
 				if (*(lpEqual-2) == cLeftAssign) {
@@ -505,6 +502,9 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 
 			}
 
+			pBat_AdjustVarName(lpVarName);
+			dVal=_pBat_SetGetVar(lpVarName);
+
 			switch (cLeftAssign) {
 
 				case '|':
-- 
2.43.0


From 8e56cbe7efe680b8ca41ae7a2c907ee6a79c75ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 36/88] fix: output written before a program or a script runs
 comes after its output

When the output is not a terminal, it was kept in the buffer of the interpreter
while the external program or batch script it had started was writing.
---
 pbat/core/pBat_Clone.c | 4 ++++
 pbat/core/pBat_Exec.c  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pbat/core/pBat_Clone.c b/pbat/core/pBat_Clone.c
index 7b63111..927056c 100644
--- a/pbat/core/pBat_Clone.c
+++ b/pbat/core/pBat_Clone.c
@@ -47,6 +47,10 @@ THREAD pBat_CloneInstance(void(*func)(void*), void* arg)
         pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
                                 __FILE__ "/pBat_CloneInstance()", -1);
 
+    /* what has been written so far must precede the output of the clone */
+    fflush(fOutput);
+    fflush(fError);
+
     pBat_DuplicateData(data);
     data->fn = func;
     data->arg = arg;
diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 7481b63..9e215b1 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -291,6 +291,10 @@ int pBat_RunFile(EXECINFO* info, int* error)
                                 __FILE__ "/pBat_RunFile()",
                                 -1);
 
+	/* what has been written so far must precede the output of the program */
+	fflush(fOutput);
+	fflush(fError);
+
 	iPid=fork();
 
 	if (iPid == 0 ) {
-- 
2.43.0


From 6be750423a30f6be0bd18fa77dbca40250daadf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 37/88] fix: EXIT crashes in a subroutine

The blocks of variables of a CALL were on the stack, and EXIT frees the current
ones.
---
 pbat/command/pBat_Call.c | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index fdcd570..5b1cbdf 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -234,9 +234,9 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 {
 	INPUT_FILE ifOldFile;
 	LOCAL_VAR_BLOCK* lpvOldBlock;
-	LOCAL_VAR_BLOCK lpvTmpBlock[LOCAL_VAR_BLOCK_SIZE]={NULL};
+	LOCAL_VAR_BLOCK* lpvTmpBlock=pBat_GetLocalBlock();
 	LOCAL_VAR_BLOCK* lpvOldArgs;
-	LOCAL_VAR_BLOCK lpvTmpArgs[LOCAL_VAR_BLOCK_SIZE]={NULL};
+	LOCAL_VAR_BLOCK* lpvTmpArgs=pBat_GetLocalBlock();
 	ENVSTACK *lpesOld, **lplpesEnd;
 	char lpAbsPath[FILENAME_MAX];
 	int status = PBAT_NO_ERROR;
@@ -379,20 +379,6 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 
 	pBat_SetStreamStackLockState(lppsStreamStack, iLockState);
 
-	/* free variables that have been allocated while
-	   executing the batch script (or the function) */
-
-	for (c=0; c < LOCAL_VAR_BLOCK_SIZE; c++) {
-
-        if (pBat_IsLocalVarValid(c)) {
-            /* This is really important to prevent any kind of memory
-               leakage */
-
-            pBat_SetLocalVar(lpvLocalVars, c, NULL);
-            pBat_SetLocalVar(lpvArguments, c, NULL);
-        }
-	}
-
 	/* free the newly allocated batch script */
     pBat_FreeBatchScript(&(ifIn.batch));
 
@@ -403,6 +389,11 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 	lpvArguments = lpvOldArgs;
 
 error:
+	/* This is really important to prevent any kind of memory
+	   leakage */
+	pBat_FreeLocalBlock(lpvTmpBlock);
+	pBat_FreeLocalBlock(lpvTmpArgs);
+
 	pBat_EsFree_Cached(lpEsParam);
 	return status ? status : iErrorLevel; /* do not affect errorlevel */
 }
-- 
2.43.0


From 0ec17d9e7607b6b5f1de543994612ea71906c47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:27 +0000
Subject: [PATCH 38/88] fix: %~z of a file that does not exist is uninitialized
 memory

---
 pbat/core/pBat_Var.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index 8923f2b..ad9eb2b 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -485,7 +485,8 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
             lpPos=pBat_EsToFullPath(lpRecieve);
 
 
-		stat(lpRecieve->str, &stFileInfo);
+		if (stat(lpRecieve->str, &stFileInfo) == -1)
+			memset(&stFileInfo, 0, sizeof(stFileInfo));
 
 #if defined WIN32
 		stFileInfo.st_mode=GetFileAttributes(lpRecieve->str);
-- 
2.43.0


From 61ac50e132bc1b2b0244e71a0fd28f7b34dfd713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 39/88] fix: FOR selects the files a pattern matches on
 uninitialized memory

---
 pbat/command/pBat_For.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 8779034..234b6e3 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -448,8 +448,7 @@ int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
 
                 /* We came across a reg expression, just launch a search */
                 files = pBat_GetMatchFileList(pBat_EsToFullPath(lpesStr),
-                                                PBAT_SEARCH_NO_PSEUDO_DIR
-                                                | PBAT_SEARCH_NO_STAT);
+                                                PBAT_SEARCH_NO_PSEUDO_DIR);
 
                 pBat_AttributesSplitFileList(PBAT_ATTR_NO_DIR,
                                              files,
-- 
2.43.0


From 14cfb50eab5fe1d4e9fb79d29d1dd972c94d3756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 40/88] fix: SET /P assigns text left in memory when there is
 no more input

---
 pbat/command/pBat_Set.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 0eec503..9682f81 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -325,6 +325,9 @@ int pBat_CmdSetP(char* lpLine)
 
 		fprintf(fOutput, "%s", lpEqual);
 
+		/* nothing may be left to read */
+		pBat_EsCpy(lpEsInput, "");
+
 
 #if !defined(WIN32) && !defined(PBAT_NO_LINENOISE)
         /* If fInput is a tty, use Linenoise ! */
-- 
2.43.0


From 0689493cafb22cbdbaffaaa7a8aaf9d42bfb9151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 41/88] fix: text read ahead of a pipe is taken for the input
 redirected afterwards

---
 pbat/core/pBat_Stream.h | 10 +++++++++-
 pbat/init/pBat_Init.c   |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Stream.h b/pbat/core/pBat_Stream.h
index 326cee3..48d211c 100644
--- a/pbat/core/pBat_Stream.h
+++ b/pbat/core/pBat_Stream.h
@@ -67,6 +67,14 @@
             else \
                 setvbuf(s, NULL, _IOFBF, PBAT_DEF_BUF)
 
+/* What has been read ahead of a pipe cannot be given back, so do not read
+   ahead if there is no way to seek */
+#define PBAT_RESET_INPUT_BUFFERING(fd, s) \
+            if (isatty(fd) || lseek(fd, 0, SEEK_CUR) == -1) \
+                setvbuf(s, NULL, _IONBF, 0); \
+            else \
+                setvbuf(s, NULL, _IOFBF, PBAT_DEF_BUF)
+
 #define __PBAT_DUP_STD(fd, s) \
             if (dup2(fd, fileno(s)) == -1) \
                 pBat_ShowErrorMessage(PBAT_UNABLE_DUPLICATE_FD \
@@ -90,7 +98,7 @@
             fflush(s); \
             __PBAT_DUP_STD(fd, s) \
             clearerr(s); \
-            PBAT_RESET_BUFFERING(fd, s)
+            PBAT_RESET_INPUT_BUFFERING(fd, s)
 
 #define PBAT_XDUP(fd, s) \
             if (((fd) = dup(fileno(s))) == -1) \
diff --git a/pbat/init/pBat_Init.c b/pbat/init/pBat_Init.c
index 7277e51..a7838e9 100644
--- a/pbat/init/pBat_Init.c
+++ b/pbat/init/pBat_Init.c
@@ -124,6 +124,8 @@ void pBat_DuplicateStdStreams(void)
 
     if (isatty(newErr))
         setvbuf(fError, NULL, _IONBF, 0);
+
+    PBAT_RESET_INPUT_BUFFERING(newInput, fInput);
 }
 
 void pBat_Init(void)
-- 
2.43.0


From bff6004f4c0236bb7eefd1e9bec895ac751747dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:55 +0000
Subject: [PATCH 42/88] fix: input of a file redirected twice goes on from the
 first time

---
 pbat/core/pBat_Stream.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pbat/core/pBat_Stream.h b/pbat/core/pBat_Stream.h
index 48d211c..7f53d0e 100644
--- a/pbat/core/pBat_Stream.h
+++ b/pbat/core/pBat_Stream.h
@@ -87,18 +87,23 @@
             PBAT_RESET_BUFFERING(fd, s)
 
 /* The trick here is that ftell(s) takes account of buffering situation so that
-   fseek can set positions accurately, but however, the FILE structure does not
-   contains any absolute counter for file pos.
+   fseek can set positions accurately.
 
-   Hence here we reset the postion of the file descriptor and then use fflush()
-   to clear any buffering information still in the FILE */
+   Hence here we use fflush() to clear any buffering information still in the
+   FILE and then reset the postion of the file descriptor. Once the descriptor
+   is replaced, the position the FILE may remember is updated as well */
 #define PBAT_DUP_STDIN(fd, s) \
-            if (!isatty(fileno(s))) \
-                lseek(fileno(s), ftell(s), SEEK_SET); \
-            fflush(s); \
-            __PBAT_DUP_STD(fd, s) \
-            clearerr(s); \
-            PBAT_RESET_INPUT_BUFFERING(fd, s)
+            do { \
+                long __pos = isatty(fileno(s)) ? -1 : ftell(s); \
+                fflush(s); \
+                if (__pos != -1) \
+                    lseek(fileno(s), __pos, SEEK_SET); \
+                __PBAT_DUP_STD(fd, s) \
+                if ((__pos = lseek(fileno(s), 0, SEEK_CUR)) != -1) \
+                    fseek(s, __pos, SEEK_SET); \
+                clearerr(s); \
+                PBAT_RESET_INPUT_BUFFERING(fd, s); \
+            } while (0)
 
 #define PBAT_XDUP(fd, s) \
             if (((fd) = dup(fileno(s))) == -1) \
-- 
2.43.0


From 1e5abbc3f20067084d3929d45f074122a7f47b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 43/88] fix: nested 1>&2 and 2>&1 redirections ignore each
 other

---
 pbat/core/pBat_Run.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index b8abe03..e3fb0b0 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -286,7 +286,7 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 		                -1,
 		                -1
 		               );
-        fError = _fOutput;
+        fError = fOutput;
         break;
 
     case PARSED_STREAM_STDOUT2STDERR:
@@ -294,7 +294,7 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 		                -1 ,
 		                -1
 		               );
-        fOutput = _fError;
+        fOutput = fError;
 
     }
 
-- 
2.43.0


From 2ec875b1205ec048809fbff7bb05041abb461b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 44/88] fix: output sent to the other stream by 1>&2 or 2>&1
 follows its redirections

---
 pbat/core/pBat_Stream.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pbat/core/pBat_Stream.c b/pbat/core/pBat_Stream.c
index 5f62265..f16c548 100644
--- a/pbat/core/pBat_Stream.c
+++ b/pbat/core/pBat_Stream.c
@@ -116,6 +116,21 @@ STREAMSTACK* pBat_OpenOutput(STREAMSTACK* stack, char* name, int fd, int mode)
 
     }
 
+    /* If the other output is currently sent to the stream that is about to be
+       redirected (because of 2>&1 or 1>&2), it must not follow it */
+    if (fd == PBAT_STDOUT && fError == _fOutput) {
+
+        stack = pBat_OpenOutputD(stack, fileno(_fOutput), PBAT_STDERR);
+        fError = _fError;
+
+    } else if (fd == PBAT_STDERR && fOutput == _fError) {
+
+        stack = pBat_OpenOutputD(stack, fileno(_fError), PBAT_STDOUT);
+        fOutput = _fOutput;
+
+    }
+
+    item->previous = stack;
     item->lock = 0;
     item->fd = fd;
     item->subst = PBAT_GET_SUBST();
-- 
2.43.0


From ef4a97e9fc7802ba0d3a6b0be4b0cdd105b1e109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 45/88] fix: a pipe still ending while the interpreter exits
 does not abort it

The threads of a pipe are detached; pthread_exit() unwinds their stack, which
fails, aborting the process, once exit() has unregistered the unwind tables
of the (static) program. Returning from the thread does not unwind.
---
 pbat/core/pBat_Clone.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Clone.c b/pbat/core/pBat_Clone.c
index 927056c..231cff6 100644
--- a/pbat/core/pBat_Clone.c
+++ b/pbat/core/pBat_Clone.c
@@ -105,8 +105,8 @@ void* pBat_CloneTrampoline(void* data)
 
     pBat_Exit();
 
-    pBat_EndThread((void*)iErrorLevel);
-
+    /* Do not call pBat_EndThread() here: it unwinds the stack of the thread,
+       which aborts the process when the main thread is exiting */
     return (void*)iErrorLevel;
 }
 
-- 
2.43.0


From 0e0a03aea54e2901c3009b950126176f99cb1c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 46/88] fix: COPY concatenates any number of files above one

The number of matching files was counted from the number of arguments, so
that two files matching a pattern, or more than two files given by name, were
copied one over the other instead of being concatenated as the manual says;
MOVE did the same, losing all the files but the last one.
---
 pbat/command/pBat_Copy.c | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 373156b..4fd4f2e 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -277,17 +277,6 @@ int pBat_CmdCopy(char* line)
                                     &files,
                                     &next);
 
-    end = files;
-
-    while (end) {
-        end = end->lpflNext;
-    }
-
-    end = files;
-
-    /* actual matching items */
-    while (end && (end = end->lpflNext) && (i++ < 2));
-
     /* Cmd does not accept several file names used in with a
        single *COPY* but for it, several files from a regular expression
        mean concatenation of file, which is somehow strange. */
@@ -296,7 +285,8 @@ int pBat_CmdCopy(char* line)
         flags |= PBAT_COPY_MULTIPLE;
     }
 
-    if (i == 3) {
+    /* more than one matching item */
+    if (files && files->lpflNext) {
 
         if (!(flags & PBAT_COPY_MULTIPLE)
             && !(flags & PBAT_COPY_MOVE))
-- 
2.43.0


From 67619a1e3df9f516fb59fc2ed22e3d01d5693507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 47/88] fix: a MOVE that fails does not remove the destination

The destination was removed before the file was renamed, so that moving a file
onto itself destroyed it, and a MOVE that failed destroyed the destination.
---
 pbat/command/pBat_Copy.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 4fd4f2e..79201eb 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -483,9 +483,14 @@ end:
 
 int pBat_MoveFile(const char* file, const char* dest)
 {
-    if ((pBat_FileExists(dest)
-         && remove(dest))
-        || rename(file, dest)) {
+    if (
+#ifdef WIN32
+        /* rename() can not replace a file on windows */
+        (pBat_FileExists(dest)
+         && stricmp(file, dest)
+         && remove(dest)) ||
+#endif
+        rename(file, dest)) {
 
         pBat_ShowErrorMessage(PBAT_UNABLE_MOVE | PBAT_PRINT_C_ERROR,
                                 file,
-- 
2.43.0


From ddc7e1271d950dfc3cca05b967bbf14f11a5c040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 48/88] fix: COPY /R and MOVE /R create the root of the tree
 they copy

Only the subfolders of a tree were created in the destination, so that copying
a tree that has none failed. The failures of all the sources but the last one
were forgotten too.
---
 pbat/command/pBat_Copy.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 79201eb..b71a6bc 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -231,7 +231,7 @@ int pBat_CmdCopy(char* line)
     if (flags & PBAT_COPY_RECURSIVE) {
 
         for (i=0;i < len - 1 ; i++)
-            status = pBat_CmdCopyRecursive(file[i],
+            status |= pBat_CmdCopyRecursive(file[i],
                         file[len-1], attr, &flags);
 
         goto end;
@@ -401,6 +401,7 @@ int pBat_CmdCopyRecursive(char* file, const char* dest, short attr, int* flags)
     ESTR* real_dest = pBat_EsInit_Cached();
 
     int  status = 0;
+    char* sep;
     size_t size  = pBat_GetStaticLength(file);
 
     if (size != 0)
@@ -449,6 +450,17 @@ int pBat_CmdCopyRecursive(char* file, const char* dest, short attr, int* flags)
     while (item) {
 
         pBat_MakePath(real_dest, 2, dest, (item->lpFileName)+(size));
+
+        /* the folder of the file may not have been duplicated, eg. if it is
+           the root of the tree */
+        if ((sep = strrchr(real_dest->str, *PBAT_DEF_DELIMITER))) {
+
+            *sep = '\0';
+            pBat_CmdMakeDirs(real_dest->str);
+            *sep = *PBAT_DEF_DELIMITER;
+
+        }
+
         status |= pBat_CmdCopyFile(item->lpFileName, real_dest->str, flags);
 
         item = item->lpflNext;
-- 
2.43.0


From 26b6bc35387c1ca7b0df85d694dc40110bb95fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 49/88] fix: MOVE /R removes the folders it emptied

It tried to remove paths made of the destination and truncated names instead
of the folders of the source, and only kept the outcome of the last removal.
---
 pbat/command/pBat_Copy.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index b71a6bc..535364e 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -473,9 +473,7 @@ int pBat_CmdCopyRecursive(char* file, const char* dest, short attr, int* flags)
 
         while (item) {
 
-            pBat_MakePath(real_dest, 2, dest, (item->lpFileName)+(size+1));
-
-            status = pBat_Rmdir(real_dest->str);
+            status |= pBat_Rmdir(item->lpFileName);
 
             item = item->lpflNext;
 
-- 
2.43.0


From b16509f5b5a000b8552d820e8f8364a019db55a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 50/88] fix: the message about an invalid answer follows
 redirections

It was written to the standard error of the process instead of the error
stream of the script.
---
 pbat/command/pBat_Ask.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Ask.c b/pbat/command/pBat_Ask.c
index d0170c4..379e18c 100644
--- a/pbat/command/pBat_Ask.c
+++ b/pbat/command/pBat_Ask.c
@@ -196,7 +196,7 @@ int pBat_AskConfirmation(int iFlags, void(*lpFn)(char*,size_t),  const char* lpM
 
 			} else {
 
-				fputs(lpAskInvalid, stderr);
+				fputs(lpAskInvalid, fError);
 
 			}
 
-- 
2.43.0


From 97d7fa72a25c82832b41d9d253ad1aa8ff890e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 51/88] fix: COPY does not destroy a file copied onto itself

COPY f f emptied the file, COPY a + b a lost the content of a, and COPY a + b b
appended b to itself until the disk was full.
---
 pbat/command/pBat_Copy.c | 46 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 535364e..0b8bc9b 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -512,6 +512,21 @@ int pBat_MoveFile(const char* file, const char* dest)
     return PBAT_NO_ERROR;
 }
 
+/* check if dest is the file referred to by file, which has status info */
+static int pBat_IsSameFile(const char* file, const struct stat* info,
+                            const char* dest)
+{
+    struct stat other;
+
+    if (!strcmp(file, dest))
+        return 1;
+
+    /* st_ino is not always relevant */
+    return info->st_ino && !stat(dest, &other)
+            && other.st_ino == info->st_ino
+            && other.st_dev == info->st_dev;
+}
+
 int pBat_CopyFile(const char* file, const char* dest)
 {
     int old, new;
@@ -537,6 +552,17 @@ int pBat_CopyFile(const char* file, const char* dest)
 
     }
 
+    /* opening dest would empty the file */
+    if (pBat_IsSameFile(file, &info, dest)) {
+
+        close(old);
+
+        pBat_ShowErrorMessage(PBAT_UNABLE_COPY, file, 0);
+
+        return PBAT_UNABLE_COPY;
+
+    }
+
 #ifdef WIN32
     new = open(dest, O_WRONLY | O_CREAT  | O_TRUNC | O_BINARY, info.st_mode);
 #else
@@ -628,6 +654,26 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
 
     }
 
+    if (pBat_IsSameFile(file, &info, dest)) {
+
+        close(old);
+
+        /* The first file is already where it has to be. If it is another one,
+           its content has been replaced, and appending a file to itself
+           would not end */
+        if (!(*flags & PBAT_COPY_CAT_2ND)) {
+
+            *flags |= PBAT_COPY_CAT_2ND;
+            return PBAT_NO_ERROR;
+
+        }
+
+        pBat_ShowErrorMessage(PBAT_UNABLE_CAT, file, 0);
+
+        return PBAT_UNABLE_CAT;
+
+    }
+
 #ifdef WIN32
     attr = O_WRONLY | O_BINARY | O_CREAT ;
 #else
-- 
2.43.0


From 815f5ceff4f34fbd9e58a641d9119e47c358aac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 52/88] fix: COPY does not ask about the file it is
 concatenating into

The file made from the first source was said to exist already for each other
source, which was skipped unless the user agreed.
---
 pbat/command/pBat_Copy.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 0b8bc9b..c679151 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -345,7 +345,8 @@ int pBat_CmdCopyFile(char* file, const char* dest, int* flags)
     }
 
     if (pBat_FileExists(pBat_EsToChar(dest_real))
-        && !(*flags & PBAT_COPY_SILENCE)) {
+        && !(*flags & PBAT_COPY_SILENCE)
+        && !(*flags & PBAT_COPY_CAT_2ND)) {
 
         ok = pBat_AskConfirmation(PBAT_ASK_YNA | PBAT_ASK_DEFAULT_N
                                     | PBAT_ASK_INVALID_REASK, NULL,
-- 
2.43.0


From a2b6f1978198d1c2c330dc0bd0b01b753fa9bed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 53/88] fix: a final * of a regular expression accepts an empty
 sequence

---
 libpbat/dir/pBat_Dir.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index 4b95267..fdd9bdd 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -697,6 +697,10 @@ LIBPBAT int pBat_RegExpMatch(const char* restrict regexp, const char* restrict m
 
     }
 
+    /* "*" accepts an empty sequence */
+    while (*regexp == '*')
+        regexp ++;
+
     if (*match || *regexp)
         return 0;
 
@@ -816,6 +820,10 @@ LIBPBAT int pBat_RegExpCaseMatch(const char* restrict regexp, const char* restri
 
     }
 
+    /* "*" accepts an empty sequence */
+    while (*regexp == '*')
+        regexp ++;
+
     if (*match || *regexp)
         return 0;
 
-- 
2.43.0


From faa6b4221e4fc25a268e892012a11f2988b24f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 54/88] fix: DEL /P asks for confirmation

---
 pbat/command/pBat_Del.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Del.c b/pbat/command/pBat_Del.c
index 95ab3c4..194dba7 100644
--- a/pbat/command/pBat_Del.c
+++ b/pbat/command/pBat_Del.c
@@ -93,6 +93,7 @@ int pBat_CmdDel(char* lpLine)
 
 			/* Ask before suppressing */
 			param|=PBAT_ASK_CONFIRMATION;
+			choice = 0;
 
 		} else if (!stricmp(lpToken, "/F")) {
 
-- 
2.43.0


From a25cfd708b5f427e8088f44a0cc4f86632515fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 55/88] fix: WC counts a word which ends a file

---
 pbat/command/pBat_Wc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/command/pBat_Wc.c b/pbat/command/pBat_Wc.c
index 8c882cd..67c26b8 100644
--- a/pbat/command/pBat_Wc.c
+++ b/pbat/command/pBat_Wc.c
@@ -145,6 +145,10 @@ int pBat_FileCounts(int mode, const char* file, struct wc_count_t* cnt)
 
     }
 
+    /* the last word may not be followed by anything */
+    if (inword)
+        cnt->words ++;
+
     /* Wait ... Fool, were you just about to close a file that could refer
        to stdin ? double check it's not so before closing the file */
     if (fd != fileno(fInput)) {
-- 
2.43.0


From 507ba0209a98168e1d1d7bc5f15b290b938899db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 56/88] fix: WC without switch counts the bytes of the standard
 input

---
 pbat/command/pBat_Wc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Wc.c b/pbat/command/pBat_Wc.c
index 67c26b8..3f49f61 100644
--- a/pbat/command/pBat_Wc.c
+++ b/pbat/command/pBat_Wc.c
@@ -297,6 +297,10 @@ int pBat_CmdWc(char* line)
         }
     }
 
+    /* Count bytes by default */
+    if (mode == 0)
+        mode = PBAT_WC_BYTES;
+
     /* Display no error about file given ... */
     if (match == NULL) {
         /* Something to do with stdin */
@@ -304,10 +308,6 @@ int pBat_CmdWc(char* line)
         pBat_PrintCounts(mode, &cnt, NULL);
     }
 
-    /* Count bytes by default */
-    if (mode == 0)
-        mode = PBAT_WC_BYTES;
-
     /* Perform count on files */
     item = match;
     while (item) {
-- 
2.43.0


From 23e9909e2f9b93db94a1873b8c94b7bf7f0e79f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 57/88] fix: FIND crashes on a file it can not open

---
 pbat/command/pBat_Find.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Find.c b/pbat/command/pBat_Find.c
index a58cfa4..f63d979 100644
--- a/pbat/command/pBat_Find.c
+++ b/pbat/command/pBat_Find.c
@@ -93,9 +93,9 @@ int pBat_FileFind(char* restrict str, char* restrict name, int count, int flag,
                                 name,
                                 FALSE
                                 );
-        i = 0;
+        pBat_EsFree_Cached(lpEsLine);
 
-        goto end;
+        return 1;
 
     }
 
@@ -147,8 +147,6 @@ int pBat_FileFind(char* restrict str, char* restrict name, int count, int flag,
     if (count == 2)
         fprintf(fOutput, "%d" PBAT_NL, i);
 
-
-end:
     pBat_EsFree_Cached(lpEsLine);
     if (name)
         fclose(pFile); /* do no close stdin, please */
-- 
2.43.0


From 2ae7277873d5003aa36e33430d25aa0f191d877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 58/88] fix: TYPE sends the names of files to the standard
 error, as documented

---
 pbat/command/pBat_Type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Type.c b/pbat/command/pBat_Type.c
index d923aba..65fd63f 100644
--- a/pbat/command/pBat_Type.c
+++ b/pbat/command/pBat_Type.c
@@ -198,7 +198,7 @@ int pBat_CmdType(char* lpLine)
 
             while (pTmp) {
 
-                fprintf(fOutput, "---------- %s" PBAT_NL , pTmp->lpFileName);
+                fprintf(fError, "---------- %s" PBAT_NL , pTmp->lpFileName);
                 status |= pBat_TypeFile(pTmp->lpFileName);
 
                 pTmp = pTmp->lpflNext;
-- 
2.43.0


From 12a04a572a010e2a3dfcc8e0d949f1dfd6b38f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 59/88] fix: a redirection is relative to the directory its
 command is run from

---
 pbat/core/pBat_Parse.c |  6 +++---
 pbat/core/pBat_Run.c   | 33 ++++++++++++++++++---------------
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/pbat/core/pBat_Parse.c b/pbat/core/pBat_Parse.c
index 93ac257..962bce2 100644
--- a/pbat/core/pBat_Parse.c
+++ b/pbat/core/pBat_Parse.c
@@ -214,9 +214,9 @@ PARSED_STREAM* pBat_ParseOutput(ESTR* lpesLine)
 			}
 
 			if ((cChar != '2' && !(lppssStart->lpOutputFile =
-                                pBat_FullPathDup(pBat_EsToChar(lpesParam))))
+                                strdup(pBat_EsToChar(lpesParam))))
                 || (cChar == '2' && !(lppssStart->lpErrorFile =
-                                pBat_FullPathDup(pBat_EsToChar(lpesParam))))) {
+                                strdup(pBat_EsToChar(lpesParam))))) {
 
 				pBat_FreeParsedStream(lppssStart);
 
@@ -255,7 +255,7 @@ PARSED_STREAM* pBat_ParseOutput(ESTR* lpesLine)
 
 			}
 
-			if (!(lppssStart->lpInputFile=pBat_FullPathDup(pBat_EsToChar(lpesParam)))) {
+			if (!(lppssStart->lpInputFile=strdup(pBat_EsToChar(lpesParam)))) {
 
 				pBat_FreeParsedStream(lppssStart);
 
diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index e3fb0b0..20231df 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -242,6 +242,21 @@ void pBat_LaunchPipe(struct pipe_launch_data_t* infos)
 
 }
 
+/* Redirect fd to (or from) name, which is relative to the directory the
+   command is run from, not to the one its line was parsed in */
+static void pBat_OpenRedirection(char* name, int fd, int mode)
+{
+    char* full = pBat_FullPathDup(name);
+
+    if (!full)
+        pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
+                                __FILE__ "/pBat_OpenRedirection()", -1);
+
+    lppsStreamStack = pBat_OpenOutput(lppsStreamStack, full, fd, mode);
+
+    free(full);
+}
+
 int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 {
 
@@ -258,25 +273,13 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 
 	/* open the redirections */
 	if (lppssStart->lpInputFile)
-		lppsStreamStack = pBat_OpenOutput(lppsStreamStack,
-		                lppssStart->lpInputFile,
-		                PBAT_STDIN,
-		                0
-		               );
+		pBat_OpenRedirection(lppssStart->lpInputFile, PBAT_STDIN, 0);
 
 	if (lppssStart->lpOutputFile)
-		lppsStreamStack = pBat_OpenOutput(lppsStreamStack,
-		                lppssStart->lpOutputFile,
-		                PBAT_STDOUT,
-		                lppssStart->cOutputMode
-		               );
+		pBat_OpenRedirection(lppssStart->lpOutputFile, PBAT_STDOUT, lppssStart->cOutputMode);
 
     if (lppssStart->lpErrorFile)
-		lppsStreamStack = pBat_OpenOutput(lppsStreamStack,
-		                lppssStart->lpErrorFile,
-		                PBAT_STDERR,
-		                lppssStart->cErrorMode
-		               );
+		pBat_OpenRedirection(lppssStart->lpErrorFile, PBAT_STDERR, lppssStart->cErrorMode);
 
     switch (lppssStart->cRedir) {
 
-- 
2.43.0


From 5c454bf4359364a13334cc164f014a46202b8cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 60/88] fix: MORE crashes on a file it can not open

---
 pbat/command/pBat_More.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 8dabdb0..f31125c 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -303,9 +303,9 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
      }
 
 end:
-     if (file != fInput)
+     if (file && file != fInput)
         fclose(file);
-     else if (isatty(fileno(fInput)))
+     else if (file && isatty(fileno(fInput)))
         clearerr(fInput);
 
      return status;
-- 
2.43.0


From 1d83e8c23be0afba5ac7f9a45df1c53d9f445b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 61/88] fix: MORE refuses a tabulation size that is not
 positive

---
 pbat/command/pBat_More.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index f31125c..86abde1 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -104,7 +104,7 @@ int pBat_CmdMore(char* line)
 
             tabsize = strtol(ptr, &ret, 0);
 
-            if (*ret) {
+            if (*ret || tabsize <= 0) {
 
                 pBat_ShowErrorMessage(PBAT_INVALID_NUMBER,
                                         ptr,
-- 
2.43.0


From caea1e85d33237c52b4960e0fd0fe3bc26bd8966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 62/88] fix: MORE keeps the empty lines that follow a line it
 has cut

---
 pbat/command/pBat_More.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 86abde1..d2cfb2c 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -452,8 +452,11 @@ static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file)
                     if (blank && (flags & PBAT_MORE_SQUEEZE))
                         continue;
 
-                    if (cr)
+                    if (cr) {
+                        /* only the end of the line that has been cut */
+                        cr = 0;
                         continue;
+                    }
 
                     blank = 1;
 
-- 
2.43.0


From 776890f98d1844f824b3fd8a05d5b9a6ebc88f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 63/88] fix: MORE /S keeps the first empty line of a file

---
 pbat/command/pBat_More.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index d2cfb2c..7231383 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -41,6 +41,10 @@
 
 #include "../../config.h"
 
+/* State of the preceding line of the file being printed */
+static __thread int blank=0, /* it is empty */
+                    cr=0; /* a carriot return was included at its end */
+
 static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file);
 static int pBat_MorePrompt(FILE* fIn, int* toprint, int* skip, int* ok);
 
@@ -268,6 +272,8 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
 
      }
 
+     blank = cr = 0;
+
      if (!(flags & PBAT_MORE_INTERACTIVE)) {
 
         /* if we do not output in a tty, do not perform user interaction */
@@ -368,10 +374,6 @@ static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file)
         col=0,
         ncol;
 
-    static __thread int blank=0,
-                cr=0; /* a carriot return was included at the end of
-                         the preceding line */
-
     int(*more_fputc)(int,FILE*)=fputc;
 
 #ifdef WIN32
-- 
2.43.0


From 24d2f844ba2a3747bbe4ebe2940d8a82c1f5701e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 64/88] fix: FIND leaves the directories out of its files

---
 pbat/command/pBat_Find.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Find.c b/pbat/command/pBat_Find.c
index f63d979..d7ff081 100644
--- a/pbat/command/pBat_Find.c
+++ b/pbat/command/pBat_Find.c
@@ -283,7 +283,7 @@ int pBat_CmdFind(char* lpLine)
     }
 
     /* split directories from input */
-    pBat_AttributesSplitFileList(PBAT_CMD_ATTR_DIR_N,
+    pBat_AttributesSplitFileList(PBAT_ATTR_NO_DIR,
                                     pBegin,
                                     &pBegin,
                                     &pTmp
-- 
2.43.0


From 9be8780f5d9979884acfc1a11ec624c36fc6cce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 65/88] fix: MORE accepts files whose path starts with /t

---
 pbat/command/pBat_More.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 7231383..5e9f13c 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -25,6 +25,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <ctype.h>
 #include <fcntl.h>
 
 #ifndef WIN32
@@ -99,7 +100,8 @@ int pBat_CmdMore(char* line)
 
             flags &= ~ PBAT_MORE_ANSICODES;
 
-        } else if (!strnicmp(pBat_EsToChar(param), "/T", 2)) {
+        } else if (!strnicmp(pBat_EsToChar(param), "/T", 2)
+                    && (param->str[2] == ':' || isdigit(param->str[2]))) {
 
             ptr = pBat_EsToChar(param) + 2;
 
-- 
2.43.0


From dd1a23c897788da6d2fdd80f294139e234da0704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 66/88] fix: negated attributes are those that have been asked
 for

---
 libpbat/dir/pBat_Attr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libpbat/dir/pBat_Attr.c b/libpbat/dir/pBat_Attr.c
index 237d15e..89174c7 100644
--- a/libpbat/dir/pBat_Attr.c
+++ b/libpbat/dir/pBat_Attr.c
@@ -85,13 +85,13 @@ int pBat_CheckFileAttributes(short wAttr, const FILELIST* lpflList)
 
     if (wAttr & PBAT_CMD_ATTR_SYSTEM) {
         iResult=iAttributes & PBAT_FILE_SYSTEM;
-        if (wAttr & PBAT_CMD_ATTR_HIDEN_N) iResult=!iResult;
+        if (wAttr & PBAT_CMD_ATTR_SYSTEM_N) iResult=!iResult;
         iReturn=iReturn && iResult;
     }
 
     if (wAttr & PBAT_CMD_ATTR_VOID) {
         iResult=(pBat_GetFileSize(lpflList)==0);
-        if (wAttr & PBAT_CMD_ATTR_HIDEN_N) iResult=!iResult;
+        if (wAttr & PBAT_CMD_ATTR_VOID_N) iResult=!iResult;
         iReturn=iReturn && iResult;
     }
 
-- 
2.43.0


From 1ea7477c36328efa194a37dc3f0409c3002c695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 67/88] fix: a program ended by a signal does not leave
 ERRORLEVEL to 0

---
 pbat/core/pBat_Exec.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 9e215b1..0c9cc51 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -369,6 +369,11 @@ int pBat_RunFile(EXECINFO* info, int* error)
 			if (info->flags & PBAT_EXEC_WAIT)
                 waitpid(iPid, &iResult, 0);
 
+			/* a program that has been killed did not succeed, use the
+			   same status as shells */
+			if (WIFSIGNALED(iResult))
+                return 128 + WTERMSIG(iResult);
+
 		}
 
 	}
-- 
2.43.0


From c88d7b0afea96a570cc09e5bcee8043ae1760680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 68/88] fix: programs read the input from where the script left
 it

---
 pbat/core/pBat_Exec.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 0c9cc51..de0865e 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -275,6 +275,7 @@ int pBat_RunFile(EXECINFO* info, int* error)
 	pid_t iPid;
 	int fds[2], i;
 	char c;
+	long pos;
 
 	int iResult = 0;
 
@@ -295,6 +296,13 @@ int pBat_RunFile(EXECINFO* info, int* error)
 	fflush(fOutput);
 	fflush(fError);
 
+	/* it reads the input from where it has been read so far, and not from
+	   where it has been read ahead */
+	if ((pos = ftell(fInput)) != -1) {
+        fflush(fInput);
+        lseek(fileno(fInput), pos, SEEK_SET);
+	}
+
 	iPid=fork();
 
 	if (iPid == 0 ) {
@@ -369,6 +377,11 @@ int pBat_RunFile(EXECINFO* info, int* error)
 			if (info->flags & PBAT_EXEC_WAIT)
                 waitpid(iPid, &iResult, 0);
 
+			/* go on from where it left it */
+			if (pos != -1
+                && (pos = lseek(fileno(fInput), 0, SEEK_CUR)) != -1)
+                fseek(fInput, pos, SEEK_SET);
+
 			/* a program that has been killed did not succeed, use the
 			   same status as shells */
 			if (WIFSIGNALED(iResult))
-- 
2.43.0


From 1ea182cfee0668cb0695a6d1448bc1a2087ea13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:36 +0000
Subject: [PATCH 69/88] fix: replacing an empty string in a variable does not
 hang

%var:=text% (or %var:%%i=text% where %%i is empty) looped for ever,
eating all the memory, because the empty string is found again and
again at the same place.
---
 libpbat/estr/pBat_Estr.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libpbat/estr/pBat_Estr.c b/libpbat/estr/pBat_Estr.c
index c649590..1f11412 100644
--- a/libpbat/estr/pBat_Estr.c
+++ b/libpbat/estr/pBat_Estr.c
@@ -415,7 +415,13 @@ LIBPBAT int pBat_EsReplace(ESTR* ptrESTR, const char* ptrPattern, const char* pt
 {
     char* lpBuffer=pBat_EsToChar(ptrESTR), *lpToken;
     int iLength=strlen(ptrPattern);
-    ESTR *lpReturn=pBat_EsInit();
+    ESTR *lpReturn;
+
+    /* an empty pattern is found everywhere, for ever */
+    if (iLength == 0)
+        return 0;
+
+    lpReturn=pBat_EsInit();
 
     while ((lpToken=strstr(lpBuffer, ptrPattern))) {
 
@@ -464,7 +470,13 @@ LIBPBAT int pBat_EsReplaceI(ESTR* ptrESTR, const char* ptrPattern, const char* p
 {
     char* lpBuffer=pBat_EsToChar(ptrESTR), *lpToken;
     int iLength=strlen(ptrPattern);
-    ESTR *lpReturn=pBat_EsInit();
+    ESTR *lpReturn;
+
+    /* an empty pattern is found everywhere, for ever */
+    if (iLength == 0)
+        return 0;
+
+    lpReturn=pBat_EsInit();
 
     while ((lpToken=(char *)stristr(lpBuffer, ptrPattern))) {
 
-- 
2.43.0


From 8fcb4edbc237bb6121f7a10885448318da2fd1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 70/88] fix: an IF whose comparator is wrong drops the rest of
 its line

As for the other malformed conditions, the commands that follow belong
to the IF and can not be run.
---
 pbat/command/pBat_If.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 00d9897..f117645 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -295,6 +295,11 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
                 if (iResult == -1) {
 
                     /* there is a syntax error, obviously */
+                    pBat_EsFree_Cached(lpComparison);
+
+                    if (lpplLine)
+                        *lpplLine = NULL;
+
                     return -1;
 
                 }
-- 
2.43.0


From d171bc3ead83b8f5099547581ddb1843a98a8e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 71/88] fix: SET /A never gives -0

The operators that assign compute with floating-point numbers, so that
"set /a v*=0" stored -0 when v was negative.
---
 pbat/command/pBat_Set.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 9682f81..7006fbf 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -533,6 +533,10 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 
 	}
 
+	/* 0 has no sign (-1*0 is -0 for floating-point numbers) */
+	if (dVal == 0)
+        dVal = 0;
+
 	snprintf(lpResult, sizeof(lpResult), "%.14g", dVal);
 
     if (!bIsScript)
-- 
2.43.0


From 71a3cf469b54240ba9e15e533a055972ae1260f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 72/88] fix: SET /A keeps the decimals of the variables it
 reads

A variable that holds a floating-point number was read as an integer:
after "set /a x=2.5", "set /a y=x*2" gave 4.
---
 libfasteval/lib/parser.y | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libfasteval/lib/parser.y b/libfasteval/lib/parser.y
index b3ba2b0..5913181 100644
--- a/libfasteval/lib/parser.y
+++ b/libfasteval/lib/parser.y
@@ -219,10 +219,9 @@ expression
   $$ = $3;
 }
 | VARIABLE {
-  /* TODO: Improve this */
-  $$.is_double = 0;
   $$.d = get_var($1);
-  $$.i = (int)$$.d;
+  $$.is_double = !(fabs($$.d) < 9007199254740992.0 && $$.d == floor($$.d));
+  $$.i = $$.is_double ? 0 : (long long)$$.d;
 }
 ;
 
-- 
2.43.0


From f71a54bb27158a6011b6f3c30d70efae74279e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 73/88] fix: SET /A follows the documented precedence of its
 operators

|, || and ^, as & and &&, were read from left to right whatever the
operator: "set /a v=1|2&&0" gave 1.
---
 libfasteval/lib/parser.y | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libfasteval/lib/parser.y b/libfasteval/lib/parser.y
index 5913181..01242bc 100644
--- a/libfasteval/lib/parser.y
+++ b/libfasteval/lib/parser.y
@@ -104,8 +104,11 @@ extern void input_reset (void);
 /* Grammar terminal symbols.  */
 %token <number> NUMBER CONSTANT
 %token <name> FUNCTION VARIABLE
-%left '|' 'o' '^'
-%left '&' 'a'
+%left 'o'
+%left 'a'
+%left '|'
+%left '^'
+%left '&'
 %left '>' '<'
 %left '-' '+'
 %left '*' '/' '%'
-- 
2.43.0


From 4e66698373b4267dc9c123a24245ae6115c7166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:41 +0000
Subject: [PATCH 74/88] fix: SET /A var/=0 crashes

The argument of the OPERATE() macro was not parenthesized, hence the
integer division was done precisely when the divisor was 0.
---
 pbat/command/pBat_Set.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 7006fbf..5b1d082 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -435,7 +435,7 @@ int pBat_CmdSetEval(ESTR* lpExpression)
     (double)(((int)op1) op ((int)(op2)))
 
 #define OPERATE(op1, op, op2, mode) \
-    ((!mode) ? \
+    (!(mode) ? \
         (OPERATE_INT(op1, op, op2)) \
         : \
         (op1 op op2))
-- 
2.43.0


From 1d9e549c3052f97b696b987072175d34b87beaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:41 +0000
Subject: [PATCH 75/88] fix: SET /A takes the quote that ends an expression for
 a variable

When blanks follow it, the last operand was read as a variable whose name
ended with the quote: set /a with v=3 + 1 quoted gave 3.
---
 pbat/command/pBat_Set.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 5b1d082..ef8ff4f 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -395,6 +395,11 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 
 	lpVarName=pBat_EsToChar(lpExpression);
 
+	/* the quote that ends an expression may be followed by blanks */
+	lpEqual = strrchr(lpVarName, '"');
+	if (lpEqual && !*pBat_SkipBlanks(lpEqual + 1))
+        *lpEqual = '\0';
+
 	lpVarName=pBat_SkipBlanks(lpVarName);
 
 	/* if we don't have expression, end-up with an error */
-- 
2.43.0


From 079e1251a152ed00c140bec0f2c622995e2a7bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 76/88] fix: COPY and MOVE /A:D do not select everything that
 is not a directory

---
 pbat/command/pBat_Copy.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index c679151..9114ed3 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -272,7 +272,14 @@ int pBat_CmdCopy(char* line)
     }
 
     /* Get matching attributes */
-    pBat_AttributesSplitFileList(attr | PBAT_ATTR_NO_DIR,
+    pBat_AttributesSplitFileList(attr,
+                                    files,
+                                    &files,
+                                    &next);
+    pBat_FreeFileList(next);
+
+    /* and leave directories out, even those that have been asked for */
+    pBat_AttributesSplitFileList(PBAT_ATTR_NO_DIR,
                                     files,
                                     &files,
                                     &next);
-- 
2.43.0


From 353bfbac8a11a157354c4b479b9b1a85090503a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 77/88] fix: scripts launched by another share its input

---
 pbat/core/pBat_Clone.c   |  6 ++++++
 pbat/core/pBat_Exec.c    | 11 +----------
 pbat/core/pBat_ExitInt.c |  5 +++++
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/pbat/core/pBat_Clone.c b/pbat/core/pBat_Clone.c
index 231cff6..e15bcdc 100644
--- a/pbat/core/pBat_Clone.c
+++ b/pbat/core/pBat_Clone.c
@@ -51,6 +51,12 @@ THREAD pBat_CloneInstance(void(*func)(void*), void* arg)
     fflush(fOutput);
     fflush(fError);
 
+#if !defined(WIN32)
+    /* and the clone goes on reading from where the input has been read so far,
+       not from where it has been read ahead */
+    fflush(fInput);
+#endif
+
     pBat_DuplicateData(data);
     data->fn = func;
     data->arg = arg;
diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index de0865e..03b9bc7 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -275,7 +275,6 @@ int pBat_RunFile(EXECINFO* info, int* error)
 	pid_t iPid;
 	int fds[2], i;
 	char c;
-	long pos;
 
 	int iResult = 0;
 
@@ -298,10 +297,7 @@ int pBat_RunFile(EXECINFO* info, int* error)
 
 	/* it reads the input from where it has been read so far, and not from
 	   where it has been read ahead */
-	if ((pos = ftell(fInput)) != -1) {
-        fflush(fInput);
-        lseek(fileno(fInput), pos, SEEK_SET);
-	}
+	fflush(fInput);
 
 	iPid=fork();
 
@@ -377,11 +373,6 @@ int pBat_RunFile(EXECINFO* info, int* error)
 			if (info->flags & PBAT_EXEC_WAIT)
                 waitpid(iPid, &iResult, 0);
 
-			/* go on from where it left it */
-			if (pos != -1
-                && (pos = lseek(fileno(fInput), 0, SEEK_CUR)) != -1)
-                fseek(fInput, pos, SEEK_SET);
-
 			/* a program that has been killed did not succeed, use the
 			   same status as shells */
 			if (WIFSIGNALED(iResult))
diff --git a/pbat/core/pBat_ExitInt.c b/pbat/core/pBat_ExitInt.c
index f9090c9..5d2a448 100644
--- a/pbat/core/pBat_ExitInt.c
+++ b/pbat/core/pBat_ExitInt.c
@@ -39,6 +39,11 @@ void pBat_Exit(void)
 
     /* pBat_WaitForAllThreads(); */
 
+#if !defined(WIN32)
+    /* let the others read what has only been read ahead */
+    fflush(fInput);
+#endif
+
     fclose(fInput);
     fclose(fOutput);
     fclose(fError);
-- 
2.43.0


From f319f9170c5c29fd9971cd46494162260f4e4bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:47 +0000
Subject: [PATCH 78/88] fix: WC counts what a previous command has taken ahead
 from the input

---
 pbat/command/pBat_Wc.c | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/pbat/command/pBat_Wc.c b/pbat/command/pBat_Wc.c
index 3f49f61..0e21c0d 100644
--- a/pbat/command/pBat_Wc.c
+++ b/pbat/command/pBat_Wc.c
@@ -64,20 +64,14 @@
 
 int pBat_FileCounts(int mode, const char* file, struct wc_count_t* cnt)
 {
-    int fd,
-        inword = 0; /* true if within a word */
+    FILE* pFile = fInput;
+    int inword = 0; /* true if within a word */
     char buf[1024], *pch;
     size_t size;
 
-#ifndef WIN32
-#define O_BINARY 0
-#endif // WIN32
-
-    if (file == NULL) {
-
-        fd = fileno(fInput);
-
-    } else if ((fd = open(file, O_RDONLY | O_BINARY)) == -1) {
+    /* the standard input must be read through its stream, which may already
+       hold data taken ahead by a previous command */
+    if (file != NULL && (pFile = fopen(file, "rb")) == NULL) {
 
         pBat_ShowErrorMessage(PBAT_FILE_ERROR, file,0);
         return PBAT_FILE_ERROR;
@@ -90,7 +84,7 @@ int pBat_FileCounts(int mode, const char* file, struct wc_count_t* cnt)
     cnt->words = 0;
     cnt->lines = 0;
 
-    while ((size = read(fd, buf, sizeof(buf))) && size != -1) {
+    while ((size = fread(buf, 1, sizeof(buf), pFile))) {
 
         /* add bytes */
         cnt->bytes += size;
@@ -151,8 +145,8 @@ int pBat_FileCounts(int mode, const char* file, struct wc_count_t* cnt)
 
     /* Wait ... Fool, were you just about to close a file that could refer
        to stdin ? double check it's not so before closing the file */
-    if (fd != fileno(fInput)) {
-        close(fd);
+    if (file != NULL) {
+        fclose(pFile);
     } else if (isatty(fileno(fInput))) {
         clearerr(fInput);
     }
-- 
2.43.0


From 67d5fecded755da149cfa1c9bc4c9f0df4109b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:48 +0000
Subject: [PATCH 79/88] fix: confirmations are read through the input stream,
 like SET /P

---
 pbat/command/pBat_Ask.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Ask.c b/pbat/command/pBat_Ask.c
index 379e18c..b4897b8 100644
--- a/pbat/command/pBat_Ask.c
+++ b/pbat/command/pBat_Ask.c
@@ -51,14 +51,12 @@ void xread(int fd, void* p, size_t sz)
     } while (!cnt);
 
 }
-#else
-#define xread(fd, p, n) read(fd, p, n)
 #endif // defined
 
 void pBat_AskConfirmationRead(char* buffer, size_t size)
 {
 
-    int i = 0;
+    int i = 0, ch;
     char c;
 
     while (1) {
@@ -66,8 +64,12 @@ void pBat_AskConfirmationRead(char* buffer, size_t size)
 #if defined(WIN32) && defined(PBAT_USE_LIBCU8)
         xread(fileno(fInput), &c, 1);
 #else
-        if (xread(fileno(fInput), &c, 1) <= 0)
+        /* other commands read this stream too, and it may already hold data
+           taken ahead for them */
+        if ((ch = fgetc(fInput)) == EOF)
             break; /* end of input */
+
+        c = ch;
 #endif
 
         if (c == '\r')
-- 
2.43.0


From 0c4fc5562b5551285e7feec36b5ab1ea6cf1e94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 80/88] fix: SET /A has the logical negation operator its
 documentation lists

---
 libfasteval/lib/scanner.l | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libfasteval/lib/scanner.l b/libfasteval/lib/scanner.l
index 87e4b08..f57f7b4 100644
--- a/libfasteval/lib/scanner.l
+++ b/libfasteval/lib/scanner.l
@@ -74,8 +74,8 @@ integer ((0x[0-9a-fA-F]+)|{digit}+)
 float ({digit}+\.{digit}*|{digit}*\.{digit}+)([Ee][+\-]?{digit}+)?
 constant "e"|"log2e"|"log10e"|"ln2"|"ln10"|"pi"|"pi_2"|"pi_4"|"1_pi"|"2_pi"|"2_sqrtpi"|"sqrt2"|"sqrt1_2"
 function "exp"|"log"|"sqrt"|"sin"|"cos"|"tan"|"cot"|"sec"|"csc"|"asin"|"acos"|"atan"|"acot"|"asec"|"acsc"|"sinh"|"cosh"|"tanh"|"coth"|"sech"|"csch"|"asinh"|"acosh"|"atanh"|"acoth"|"asech"|"acsch"|"abs"|"step"|"delta"|"nandelta"|"erf"
-nodelim	   [^+\-*%/&>~<%\|=()^\n\t ]
-nodelimnb  [^+\-*%/&>~<%\|=()^\n\t 0-9]
+nodelim	   [^+\-*%/&>~<%\|=()^!\n\t ]
+nodelimnb  [^+\-*%/&>~<%\|=()^!\n\t 0-9]
 identifier {nodelim}*{nodelimnb}*{nodelim}*
 %%
 
@@ -115,6 +115,10 @@ identifier {nodelim}*{nodelimnb}*{nodelim}*
 		return '~';
 }
 
+"!" {
+  return '!';
+}
+
 ">>" {
   return '>';
 }
-- 
2.43.0


From ad9ee438c29293215c4fd591b2e24fae87b05128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:01 +0000
Subject: [PATCH 81/88] fix: a joker in a directory of a pattern does not stand
 for . and ..

---
 libpbat/dir/pBat_Dir.c        | 5 +++--
 libpbat/dir/pBat_UnicodeDir.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index fdd9bdd..65856d9 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -391,8 +391,9 @@ static FILELIST* pBat_GetMatch(char* restrict base, char* restrict up, struct ma
     /* loop through the directory entities */
     while ((ent = readdir(dir))) {
 
-        /* skip basic pseudo dirs */
-        if ((arg->flags & PBAT_SEARCH_NO_PSEUDO_DIR)
+        /* skip basic pseudo dirs, which are never browsed on behalf of a
+           joker */
+        if (((arg->flags & PBAT_SEARCH_NO_PSEUDO_DIR) || up != NULL)
             && (!strcmp(ent->d_name, ".") || !strcmp(ent->d_name, "..")))
             continue;
 
diff --git a/libpbat/dir/pBat_UnicodeDir.c b/libpbat/dir/pBat_UnicodeDir.c
index 2538229..649631f 100644
--- a/libpbat/dir/pBat_UnicodeDir.c
+++ b/libpbat/dir/pBat_UnicodeDir.c
@@ -429,8 +429,9 @@ static FILELIST* pBat_GetMatch(wchar_t* restrict base, wchar_t* restrict up, str
     /* loop through the directory entities */
     while (loop) {
 
-        /* skip basic pseudo dirs */
-        if ((arg->flags & PBAT_SEARCH_NO_PSEUDO_DIR)
+        /* skip basic pseudo dirs, which are never browsed on behalf of a
+           joker */
+        if (((arg->flags & PBAT_SEARCH_NO_PSEUDO_DIR) || up != NULL)
             && (!wcscmp(ent.cFileName, L".") || !wcscmp(ent.cFileName, L".."))) {
             loop = FindNextFileW(dir, &ent);
             continue;
-- 
2.43.0


From 275f16362fc67c3ea3dc6f76cf77842ede087e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:11 +0000
Subject: [PATCH 82/88] fix: the interpreter can exit while a stage of a pipe
 waits for its input

---
 pbat/command/pBat_Exit.c |  2 +-
 pbat/core/pBat_ExitInt.c | 17 +++++++++++++++++
 pbat/core/pBat_ExitInt.h |  1 +
 pbat/pBat.c              |  2 ++
 4 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Exit.c b/pbat/command/pBat_Exit.c
index a80ff71..fc80cfb 100644
--- a/pbat/command/pBat_Exit.c
+++ b/pbat/command/pBat_Exit.c
@@ -103,7 +103,7 @@ int pBat_CmdExit(char* lpLine)
 	if (bIgnoreExit)
         pBat_EndThread((void*)ret);
     else {
-        exit(ret);
+        pBat_ExitProcess(ret);
     }
 
     /* this statement is never reached \o/ */
diff --git a/pbat/core/pBat_ExitInt.c b/pbat/core/pBat_ExitInt.c
index 5d2a448..af7dda4 100644
--- a/pbat/core/pBat_ExitInt.c
+++ b/pbat/core/pBat_ExitInt.c
@@ -21,6 +21,10 @@
 #include <stdio.h>
 #include <stdlib.h>
 
+#if !defined(WIN32)
+#include <unistd.h>
+#endif
+
 #include "pBat_Core.h"
 #include "../../config.h"
 
@@ -48,3 +52,16 @@ void pBat_Exit(void)
     fclose(fOutput);
     fclose(fError);
 }
+
+/* Ends the process once pBat_Exit() has run.
+
+   exit() waits for the locks of every stream that is still opened, and so
+   never returns when the thread of a pipe is blocked reading one of them. */
+void pBat_ExitProcess(int iStatus)
+{
+#if !defined(WIN32)
+    _exit(iStatus);
+#else
+    exit(iStatus);
+#endif
+}
diff --git a/pbat/core/pBat_ExitInt.h b/pbat/core/pBat_ExitInt.h
index 5b2fc81..37a993d 100644
--- a/pbat/core/pBat_ExitInt.h
+++ b/pbat/core/pBat_ExitInt.h
@@ -22,5 +22,6 @@
 #define PBAT_EXIT_H
 
 void pBat_Exit(void);
+void pBat_ExitProcess(int iStatus);
 
 #endif // PBAT_EXIT_H
diff --git a/pbat/pBat.c b/pbat/pBat.c
index d44fdb3..0c976ee 100644
--- a/pbat/pBat.c
+++ b/pbat/pBat.c
@@ -205,6 +205,8 @@ skip:
 
     pBat_LibClose();
 
+    pBat_ExitProcess(iStatus);
+
     return iStatus;
 
 }
-- 
2.43.0


From 094735a1c4d13962c7f526085cd355112fc9d72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:38 +0000
Subject: [PATCH 83/88] fix: PECHO.text is not found although documented

---
 pbat/command/pBat_CommandInfo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_CommandInfo.c b/pbat/command/pBat_CommandInfo.c
index e2976be..26bfc07 100644
--- a/pbat/command/pBat_CommandInfo.c
+++ b/pbat/command/pBat_CommandInfo.c
@@ -74,7 +74,7 @@ COMMANDINFO lpCmdInfo[]= {
 	{"WC", pBat_CmdWc, STRLEN("WC")},
 	{"XARGS", pBat_CmdXargs, STRLEN("XARGS")},
 	{"PROMPT", pBat_CmdPrompt, STRLEN("PROMPT")},
-	{"PECHO", pBat_CmdPecho, STRLEN("PECHO")},
+	{"PECHO", pBat_CmdPecho, 0},
 	{"TIMEOUT", pBat_CmdTimeout, STRLEN("TIMEOUT")},
 	{"MOD", pBat_CmdMod, STRLEN("MOD")},
 	{"LOCALE", pBat_CmdLocale, STRLEN("LOCALE")},
-- 
2.43.0


From c13ea60496dcee0e3bfdef1378b4decce1a7445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:17 +0000
Subject: [PATCH 84/88] fix: PECHO without a text reads behind the end of the
 command

---
 pbat/command/pBat_Pecho.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Pecho.c b/pbat/command/pBat_Pecho.c
index 8bc36b7..045e014 100644
--- a/pbat/command/pBat_Pecho.c
+++ b/pbat/command/pBat_Pecho.c
@@ -58,7 +58,7 @@ int pBat_CmdPecho(char* lpLine)
 
 	lpEsParameter=pBat_EsInit_Cached();
 
-    pBat_GetEndOfLine(lpLine+1, lpEsParameter);
+    pBat_GetEndOfLine(*lpLine ? lpLine+1 : lpLine, lpEsParameter);
 
     if (!ispunct(*lpLine) &&
         !strcmp(lpEsParameter->str, "/?")) {
-- 
2.43.0


From 094b8a87b43146bc747458af43c0408b9f638988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:51 +0000
Subject: [PATCH 85/88] fix: outputs merged by 2>&1 stay in order in scripts
 launched by another

---
 pbat/command/pBat_For.c  |  5 +++++
 pbat/core/pBat_Clone.c   | 14 ++++++++++----
 pbat/core/pBat_Clone.h   |  4 ++++
 pbat/core/pBat_ExitInt.c |  4 ++--
 pbat/core/pBat_Run.c     |  5 +++++
 5 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 234b6e3..9aac950 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1359,6 +1359,11 @@ void pBat_ExecuteForSubCommand(struct pipe_launch_data_t* arg)
 {
     BLOCKINFO bkBlock;
 
+    /* the error output is not to be read, even though both outputs were going
+       to the same place */
+    fOutput = _fOutput;
+    fError = _fError;
+
     lppsStreamStack = pBat_OpenOutputD(lppsStreamStack, arg->fdout, PBAT_STDOUT);
     close(arg->fdout);
 
diff --git a/pbat/core/pBat_Clone.c b/pbat/core/pBat_Clone.c
index e15bcdc..461e509 100644
--- a/pbat/core/pBat_Clone.c
+++ b/pbat/core/pBat_Clone.c
@@ -93,10 +93,10 @@ void* pBat_CloneTrampoline(void* data)
     ifIn.iPos = cloned->ifIn.iPos;
     *(ifIn.batch.name) = '\0';
     fInput = cloned->fInput;
-    fOutput = cloned->fOutput;
-    fError = cloned->fError;
-    _fError = fError;
-    _fOutput = fOutput;
+    _fOutput = cloned->fOutput;
+    _fError = cloned->fError;
+    fOutput = (cloned->iSubst & PBAT_CLONE_OUTPUT_TO_ERROR) ? _fError : _fOutput;
+    fError = (cloned->iSubst & PBAT_CLONE_ERROR_TO_OUTPUT) ? _fOutput : _fError;
 
     lpAltPromptString = NULL;
 
@@ -156,6 +156,12 @@ int pBat_DuplicateData(struct clone_data_t* data)
                                 | PBAT_PRINT_C_ERROR, \
                                 __FILE__ "/pBat_DuplicateData()", -1)
 
+    /* outputs that are the same stream (because of 2>&1 or 1>&2) must remain so,
+       or what is written to them gets out of order */
+    data->iSubst = (fError != fOutput) ? 0
+                 : (fError == _fOutput) ? PBAT_CLONE_ERROR_TO_OUTPUT
+                 : PBAT_CLONE_OUTPUT_TO_ERROR;
+
     DUPLICATE_STREAM(data->fInput, fInput, "r");
     DUPLICATE_STREAM(data->fOutput, fOutput, "w");
     DUPLICATE_STREAM(data->fError, fError, "w");
diff --git a/pbat/core/pBat_Clone.h b/pbat/core/pBat_Clone.h
index 4c7dff6..92c4e91 100644
--- a/pbat/core/pBat_Clone.h
+++ b/pbat/core/pBat_Clone.h
@@ -23,6 +23,9 @@
 #include <libpBat.h>
 #include "pBat_Core.h"
 
+#define PBAT_CLONE_OUTPUT_TO_ERROR 1
+#define PBAT_CLONE_ERROR_TO_OUTPUT 2
+
 struct clone_data_t {
     int bDelayedExpansion;
     int bEchoOn;
@@ -39,6 +42,7 @@ struct clone_data_t {
     FILE* fInput; /* current thread input stream */
     FILE* fOutput; /* current thread output stream */
     FILE* fError; /* current thread error stream */
+    int iSubst; /* whether an output is substituted to the other */
     ENVBUF* lpeEnv;
     INPUT_FILE ifIn;
     char lpCurrentDir[FILENAME_MAX];
diff --git a/pbat/core/pBat_ExitInt.c b/pbat/core/pBat_ExitInt.c
index af7dda4..0f94ac6 100644
--- a/pbat/core/pBat_ExitInt.c
+++ b/pbat/core/pBat_ExitInt.c
@@ -49,8 +49,8 @@ void pBat_Exit(void)
 #endif
 
     fclose(fInput);
-    fclose(fOutput);
-    fclose(fError);
+    fclose(_fOutput);
+    fclose(_fError);
 }
 
 /* Ends the process once pBat_Exit() has run.
diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 20231df..77cc37b 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -208,6 +208,11 @@ int pBat_ExecOperators(PARSED_LINE** lpLine)
 void pBat_LaunchPipe(struct pipe_launch_data_t* infos)
 {
 
+    /* the error output does not go through the pipe, even though both outputs
+       were going to the same place */
+    fOutput = _fOutput;
+    fError = _fError;
+
     lppsStreamStack = pBat_OpenOutputD(lppsStreamStack, infos->fdout, PBAT_STDOUT);
     close(infos->fdout);
 
-- 
2.43.0


From 6d13af4ee50b15808b1afe51cef8d6192e493d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:41 +0000
Subject: [PATCH 86/88] fix: relative directories of PATH are relative to the
 current directory

---
 pbat/core/pBat_FilePath.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/core/pBat_FilePath.c b/pbat/core/pBat_FilePath.c
index 3cd435a..0e6d67a 100644
--- a/pbat/core/pBat_FilePath.c
+++ b/pbat/core/pBat_FilePath.c
@@ -252,6 +252,10 @@ int pBat_GetFilePath(char* lpFullPath, const char* lpPartial, size_t iBufSize)
 
 			pBat_MakePath(lpEsTmp, 2, pBat_EsToChar(lpEsPart), lpPartial);
 
+			/* relative parts of %PATH% are relative to the directory of
+			   the script, not to the one of the process */
+			pBat_EsToFullPath(lpEsTmp);
+
 		}
 
 		bFinalSubLoop=TRUE;
-- 
2.43.0


From dda7588c242f62bb47ec94b281d61b74b345e5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:27 +0000
Subject: [PATCH 87/88] fix: stages of a pipe that end do not move the input of
 the interpreter

---
 pbat/core/pBat_ExitInt.c |  7 +++++--
 pbat/core/pBat_Stream.c  | 22 +++++++++++++++-------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/pbat/core/pBat_ExitInt.c b/pbat/core/pBat_ExitInt.c
index 0f94ac6..36b2834 100644
--- a/pbat/core/pBat_ExitInt.c
+++ b/pbat/core/pBat_ExitInt.c
@@ -32,7 +32,6 @@
 void pBat_Exit(void)
 {
 	pBat_FreeCommandList(lpclCommands);
-	pBat_FreeStreamStack(lppsStreamStack);
 	pBat_FreeLocalBlock(lpvLocalVars);
 	pBat_FreeLocalBlock(lpvArguments);
 	pBat_FreeEnvStack();
@@ -48,9 +47,13 @@ void pBat_Exit(void)
     fflush(fInput);
 #endif
 
+    /* Once the outputs are closed, those that wait for them go on, and may read
+       what this input is shared with: it must not be used any longer */
     fclose(fInput);
-    fclose(_fOutput);
     fclose(_fError);
+    fclose(_fOutput);
+
+    pBat_FreeStreamStack(lppsStreamStack);
 }
 
 /* Ends the process once pBat_Exit() has run.
diff --git a/pbat/core/pBat_Stream.c b/pbat/core/pBat_Stream.c
index f16c548..4bac197 100644
--- a/pbat/core/pBat_Stream.c
+++ b/pbat/core/pBat_Stream.c
@@ -56,18 +56,26 @@ STREAMSTACK* pBat_InitStreamStack(void)
 /* frees the stream stack */
 void pBat_FreeStreamStack(STREAMSTACK* stack)
 {
-    /* STREAMSTACK* tmp; */
+    STREAMSTACK* previous;
 
-    /* Here, speed is not critical at all, so do things
-       consciously, hopefully, it is simple, normally no
-       file redirection is on, so just close descriptors */
+    /* Nothing more is read nor written, so just close descriptors instead of
+       restoring the streams */
 
     while (stack) {
 
-        if (pBat_GetStreamStackLockState(stack))
-            pBat_SetStreamStackLockState(stack, 0);
+        previous = stack->previous;
 
-        stack = pBat_PopStreamStack(stack);
+        switch (stack->fd) {
+
+        case PBAT_STDIN:
+        case PBAT_STDOUT:
+        case PBAT_STDERR:
+            close(stack->oldfd);
+
+        }
+
+        free(stack);
+        stack = previous;
 
     }
 }
-- 
2.43.0


From f6ee6c61837b0385d5296ea9b4edda3ec2a30763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 88/88] fix: a stage of a pipe that starts late does not move
 the input of the interpreter

---
 pbat/core/pBat_Stream.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pbat/core/pBat_Stream.h b/pbat/core/pBat_Stream.h
index 7f53d0e..0a07544 100644
--- a/pbat/core/pBat_Stream.h
+++ b/pbat/core/pBat_Stream.h
@@ -86,6 +86,21 @@
             __PBAT_DUP_STD(fd, s) \
             PBAT_RESET_BUFFERING(fd, s)
 
+/* Give back what has been read ahead. Where fflush() does it, the position must
+   not be set once more: it is shared with the threads that use this input, and
+   may have changed since */
+#ifdef WIN32
+#define PBAT_SYNC_STDIN(s) \
+            do { \
+                long __cur = isatty(fileno(s)) ? -1 : ftell(s); \
+                fflush(s); \
+                if (__cur != -1) \
+                    lseek(fileno(s), __cur, SEEK_SET); \
+            } while (0)
+#else
+#define PBAT_SYNC_STDIN(s) fflush(s)
+#endif
+
 /* The trick here is that ftell(s) takes account of buffering situation so that
    fseek can set positions accurately.
 
@@ -94,10 +109,8 @@
    is replaced, the position the FILE may remember is updated as well */
 #define PBAT_DUP_STDIN(fd, s) \
             do { \
-                long __pos = isatty(fileno(s)) ? -1 : ftell(s); \
-                fflush(s); \
-                if (__pos != -1) \
-                    lseek(fileno(s), __pos, SEEK_SET); \
+                long __pos; \
+                PBAT_SYNC_STDIN(s); \
                 __PBAT_DUP_STD(fd, s) \
                 if ((__pos = lseek(fileno(s), 0, SEEK_CUR)) != -1) \
                     fseek(s, __pos, SEEK_SET); \
-- 
2.43.0

