"""writes ../properties.jsonl and ../MANIFEST.json from the texts below"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import suites

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = ("The tests of the repository run a few dozens of fixed scripts and compare their output with a "
     "stored one; ")


def P(id, title, statement, over, text, why, files, mech, state=()):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": T + why,
            "anchors": {"files": files,
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                        "mechanism": [{"name": a, "where": b} for a, b in mech],
                        "observe_at": ["standard output and error, exit status and files left by `pbat script`"],
                        "hook_needed": None}}


C = "pbat/core/"
K = "pbat/command/"
PROPS = [
 P("C01", "Operators and blocks run exactly the commands they have to",
   "The commands of a line combined with &, && and || run from left to right without precedence: one after && runs only if "
   "ERRORLEVEL is 0, one after || only if it is not, one after & always, and a command that is not run changes nothing, "
   "ERRORLEVEL included. A block between parentheses, on one or several lines, nested or followed by operators, behaves as the lines it holds and "
   "leaves the ERRORLEVEL of the last command run in it. IF and FOR reached through an operator take the rest of the line with them.",
   ["programs"], "every line made of commands that succeed or fail, operators and nested blocks",
   "what matters is every combination of operators, outcomes and nesting, of which they contain about ten.",
   [C + "pBat_Run.c", C + "pBat_Parse.c", C + "pBat_ParseBlock.c", K + "pBat_Block.c"],
   [("operators of a parsed line", C + "pBat_Run.c pBat_RunParsedLine()"), ("splitting of a line", C + "pBat_Parse.c"),
    ("blocks", C + "pBat_Run.c pBat_RunBlock()")],
   [("iErrorLevel", "status of the last command", C + "pBat_Context.h")]),
 P("C02", "GOTO resumes at its label and abandons everything it interrupts",
   "GOTO to an existing label goes on right after the first matching label of the script, whatever its letter case, from any depth of blocks, "
   "IF, FOR or operators, of which nothing more is run, and leaves ERRORLEVEL as it was; GOTO :EOF ends the script or subroutine. "
   "GOTO to a missing label prints an error, unless /Q silences it, and execution goes on with the next command.",
   ["programs", "histories"], "every position of the jump in nested structures and every layout of labels",
   "no test jumps out of nested loops, blocks and operators in more than one way.",
   [K + "pBat_Goto.c", C + "pBat_Jump.c", C + "pBat_ReadScript.c", C + "pBat_Run.c", K + "pBat_For.c"],
   [("jump", C + "pBat_Jump.c"), ("abort flag honoured by lines, blocks and loops", C + "pBat_Run.c, " + K + "pBat_For.c")],
   [("bAbortCommand", "what is being aborted", C + "pBat_Context.h"), ("ifIn", "script, labels and position", C + "pBat_Read.h")]),
 P("C03", "CALL runs its target and gives the caller back as it was",
   "CALL of a label or of a script runs it with its own arguments and no FOR variable of the caller; at its end (end of the file, EXIT /B, "
   "GOTO :EOF) the caller resumes right after the CALL with its own arguments, FOR variables and script position, while variables, current directory and ERRORLEVEL "
   "are as the callee left them. CALL of what does not exist prints an error, sets a non-zero ERRORLEVEL and runs nothing. "
   "This holds for nested calls, calls inside loops and blocks, and calls of a label of another script.",
   ["programs", "histories"], "every nesting of calls of labels and scripts in loops, blocks and operators",
   "they call a subroutine once or twice, never with the whole context compared before and after.",
   [K + "pBat_Call.c", C + "pBat_Jump.c", C + "pBat_Args.c", C + "pBat_ReadScript.c"],
   [("saving and restoring the context", K + "pBat_Call.c"), ("arguments of the callee", K + "pBat_Call.c")],
   [("lpvArguments", "arguments", C + "pBat_Context.h"), ("lpvLocalVars", "FOR variables", C + "pBat_Context.h")]),
 P("C04", "ERRORLEVEL and the exit status tell the outcome of commands",
   "Each command sets ERRORLEVEL: 0 if it succeeded, its non-zero code if it failed; GOTO that jumps, SETLOCAL, ENDLOCAL, EXIT without a code and an "
   "IF that runs nothing leave it as it was, and the commands run by IF, FOR, CALL and blocks decide it otherwise. "
   "EXIT /B n ends the script or subroutine with ERRORLEVEL n, EXIT n ends the interpreter with status n, and the exit status of "
   "the interpreter is the last ERRORLEVEL.",
   ["programs", "histories"], "every sequence of succeeding and failing commands in every control structure",
   "few of them look at ERRORLEVEL and none at the exit status of a script that fails in different ways.",
   [C + "pBat_Run.c", K + "pBat_Exit.c", K + "pBat_If.c", K + "pBat_For.c", K + "pBat_Call.c", "pbat/pBat.c"],
   [("status of commands", C + "pBat_Run.c pBat_RunCommand()"), ("exit status", "pbat/pBat.c main()")],
   [("iErrorLevel", "status of the last command", C + "pBat_Context.h")]),
 P("C05", "Variables hold the last value given to them",
   "SET name=value gives exactly that value, keeping inner and trailing blanks, quotation marks being removed only when they enclose the whole expression, to the variable of that "
   "name whatever its letter case, and changes no other variable; an empty value removes it. SET prefix lists exactly the variables whose name "
   "starts with it, sorted, and fails when there is none. SET /P stores one line of the input, prompting first.",
   ["programs", "histories", "inputs"], "every sequence of assignments, removals and listings on any names",
   "they set a handful of distinct names and never list or remove them after long histories.",
   [C + "pBat_Env.c", K + "pBat_Set.c"],
   [("ordered buffer of variables", C + "pBat_Env.c"), ("SET", K + "pBat_Set.c")],
   [("lpeEnv", "the environment", C + "pBat_Env.h")]),
 P("C06", "ENDLOCAL undoes what was set since its SETLOCAL",
   "ENDLOCAL restores every variable (values, additions and removals) and the options (delayed expansion, command extensions) to what they "
   "were at the matching SETLOCAL, properly nested; options given to SETLOCAL apply from there on. ENDLOCAL without a SETLOCAL in the current script or subroutine changes nothing, "
   "in particular it never undoes a SETLOCAL of a caller. Neither of them changes ERRORLEVEL.",
   ["programs", "histories"], "every interleaving of SETLOCAL, ENDLOCAL, assignments, calls and jumps",
   "they contain single SETLOCAL/ENDLOCAL pairs.",
   [K + "pBat_Setlocal.c", C + "pBat_EnvStack.c", C + "pBat_Env.c", K + "pBat_Call.c"],
   [("stack of environments", C + "pBat_EnvStack.c")],
   [("lpEnvStack", "saved environments and options", C + "pBat_EnvStack.h")]),
 P("C07", "Every form of % reference is replaced by the text it denotes",
   "%name% gives the value of the variable, or nothing if there is none; %name:~n%, %name:~n,m% (negative counts from the end) its substrings; %name:a=b% "
   "the value with each a replaced by b; %0 to %9, %* and %+ the arguments; %% a percent sign. "
   "FOR variables and arguments accept the modifiers ~ (no quotation marks), f, d, p, n, x and z.",
   ["inputs", "programs"], "every value, bound and pattern, in particular at and beyond the ends of the value",
   "they have one example of each form.",
   [C + "pBat_Expand.c", C + "pBat_Var.c", C + "pBat_SplitPath.c", C + "pBat_Env.c"],
   [("expansion of a line", C + "pBat_Expand.c"), ("modifiers", C + "pBat_Var.c, " + C + "pBat_SplitPath.c")]),
 P("C08", "References are replaced when the language says so",
   "%name% is replaced when the line or the whole block is read, before any of its commands runs; !name!, when delayed expansion is enabled, right before the "
   "command that contains it runs, so it sees every change made before, in the same block or loop; with delayed expansion "
   "disabled the exclamation mark is an ordinary character. Text obtained by !name! is never parsed again for operators or redirections.",
   ["programs", "histories"], "every mix of both forms in blocks, loops and calls, under both settings",
   "a few tests show the difference in one loop each.",
   [C + "pBat_Expand.c", C + "pBat_Run.c", C + "pBat_ReadScript.c"],
   [("conventional expansion", C + "pBat_Expand.c pBat_ReplaceVars()"), ("delayed expansion", C + "pBat_Expand.c pBat_ExpandDelayed()")],
   [("bDelayedExpansion", "delayed expansion is enabled", C + "pBat_Context.h")]),
 P("C09", "Lines are assembled and cut into commands as the syntax says",
   "A logical line goes on until all its blocks are closed; outside of quotation marks and unless escaped by ^, the characters & | < > ( ) and the operators they form separate "
   "commands, redirections and blocks, and everywhere else they are plain text that reaches the command unchanged. @ suppresses the echo of a line, labels and :: lines are not commands, "
   "command names match whatever their letter case.",
   ["inputs", "programs"], "every nesting of blocks and every placement of quotation marks, escapes and operators",
   "they have a few fixed layouts.",
   [C + "pBat_Parse.c", C + "pBat_ParseBlock.c", C + "pBat_Args.c", C + "pBat_ReadScript.c", K + "pBat_Echo.c"],
   [("complete lines", C + "pBat_ReadScript.c, " + C + "pBat_ParseBlock.c"), ("cutting at operators", C + "pBat_Parse.c")]),
 P("C10", "FOR visits its items and ranges once each and in order",
   "FOR %%v IN (list) DO runs its commands once for each item of the list, in order, items being separated by blanks, commas, semicolons or colons and kept whole by quotation marks, a pattern standing for the "
   "files (not directories) that match it; FOR /L counts from start by step while the value has not passed the end. "
   "The variable has the value of the current item in the whole body, nested loops keep theirs, and none is left set afterwards.",
   ["inputs", "programs"], "every list, range, body and nesting",
   "they loop over one or two fixed lists.",
   [K + "pBat_For.c", C + "pBat_Args.c", "libpbat/dir/pBat_Dir.c"],
   [("FOR", K + "pBat_For.c pBat_CmdForSimple(), pBat_CmdForL()")],
   [("lpvLocalVars", "FOR variables", C + "pBat_Context.h")]),
 P("C11", "FOR /F gives each line's tokens to its variables",
   "FOR /F runs its commands once for each line of the files, of the string or of the output of the command it is given, empty lines included, except the first skip= lines and those starting with "
   "an eol= character (by default ;). Each variable gets the tokens that tokens= tells (n, n-p, n.p, n*, *), cut at runs of the delims= characters (by default space and tab), "
   "an absent token being empty. A variable already in use makes it fail without running anything; a command used as source cannot change the variables, directory or ERRORLEVEL of the script.",
   ["inputs", "programs"], "every input text and set of options",
   "they use a few texts and options.",
   [K + "pBat_For.c"],
   [("options", K + "pBat_For.c pBat_ForMakeInfo()"), ("tokens", K + "pBat_For.c pBat_CmdForF()")]),
 P("C12", "IF runs the branch its condition selects",
   "IF compares strings (== , /I ignoring case), values (EQU NEQ LSS LEQ GTR GEQ: as numbers when both are numbers, as strings otherwise), tests DEFINED, EXIST (patterns included) and ERRORLEVEL n (greater or equal), negated by NOT, "
   "and combined by AND and OR, from left to right, between brackets. It runs its first command or block if the condition holds, the one after ELSE otherwise, and never both.",
   ["inputs", "programs"], "every condition, nesting and branch shape",
   "each comparator is tested on one or two operands.",
   [K + "pBat_If.c", K + "pBat_IfExp.c"],
   [("conditions", K + "pBat_If.c"), ("boolean expressions", K + "pBat_IfExp.c")]),
 P("C13", "Redirections send each stream where they say and then end",
   "While a command or block runs, > sends its output to the file, emptied first (>> keeps its content), 2> its errors, 1>&2 and 2>&1 one where the other goes, < reads its input from "
   "the file, nested redirections taking precedence; afterwards each stream is again what it was before, also after errors, jumps and calls. No byte is lost, duplicated, or reordered within a stream.",
   ["programs", "histories"], "every nesting and succession of redirections on commands, blocks, loops and calls",
   "they redirect single commands.",
   [C + "pBat_Stream.c", C + "pBat_Stream.h", C + "pBat_Run.c", C + "pBat_Parse.c"],
   [("stack of redirections", C + "pBat_Stream.c")],
   [("lppsStreamStack", "redirections in force", C + "pBat_Stream.h")]),
 P("C14", "Each stage of a pipe reads exactly what the one before wrote",
   "In a | b | c the output of each command or block, whole, in order and whatever its size, is the input of the next one, which sees its end; redirections of a stage apply to that stage. "
   "The stages on the left run in copies of the interpreter, whose variables, directory and ERRORLEVEL are lost, the last one runs in the script itself and decides ERRORLEVEL. "
   "Pipes always terminate, whatever the stages read or write, in blocks, loops, conditions and subroutines too.",
   ["programs", "schedules"], "every number, kind and nesting of stages and amount of data, including more than the system's pipe buffer",
   "they contain a few pipes of two stages that carry one line.",
   [C + "pBat_Run.c", C + "pBat_Clone.c", C + "pBat_Stream.c", "libpbat/thread"],
   [("pipes", C + "pBat_Run.c pBat_LaunchPipe()"), ("copies of the interpreter", C + "pBat_Clone.c")]),
 P("C15", "Arguments reach scripts and subroutines unchanged and SHIFT moves them",
   "A script or subroutine gets in %1 to %9 the arguments of its invocation, in order, quotation marks kept, those beyond the ninth in %+, all of them in %*; absent ones are empty. "
   "SHIFT moves them one place to the left, /n from argument n on only, /S:n and /D:m setting where and how far, and brings in those beyond the ninth; %* does not change.",
   ["inputs", "histories"], "every number and text of arguments and sequence of shifts",
   "at most three arguments and one SHIFT are tested.",
   [K + "pBat_Shift.c", K + "pBat_Call.c", C + "pBat_Args.c", "pbat/init/pBat_Init.c"],
   [("SHIFT", K + "pBat_Shift.c"), ("arguments", C + "pBat_Args.c")],
   [("lpvArguments", "arguments", C + "pBat_Context.h")]),
 P("C16", "A script run without CALL cannot change the script that runs it",
   "A script run by its name, without CALL, gets its arguments and a copy of the variables, and whatever it does - variables, current directory, directory stack, options, DEF routines, GOTO, EXIT - the script that ran it "
   "resumes with the next command and finds its own state unchanged, except ERRORLEVEL, which is the status the child ended with. Both read the same input, each from where the other left it.",
   ["programs", "histories"], "every child script and every position it is run from",
   "no test compares the state around a child that changes everything.",
   [C + "pBat_Run.c", C + "pBat_Clone.c", C + "pBat_Exec.c"],
   [("copy of the interpreter", C + "pBat_Clone.c"), ("external commands", C + "pBat_Run.c")]),
 P("C17", "DEF routines take parameters and keep local variables to themselves",
   "After DEF name=body, name arguments runs body with $1 to $9, $: and $* replaced by the arguments; an existing name is redefined only with /F, DEF /L lists the routines. "
   "Variables whose name starts with _ that a routine creates or changes are gone, or back to their former value, when it ends, unless they were set with SET /X, which hands them to the caller; all other variables are shared with the caller.",
   ["programs", "histories"], "every nesting of routines and sequence of assignments",
   "there is one example.",
   [K + "pBat_Def.c", C + "pBat_ExpandDef.c", C + "pBat_Env.c"],
   [("local variables", C + "pBat_Env.c pBat_PushEnvLocals(), pBat_PopEnvLocals()"), ("parameters", C + "pBat_ExpandDef.c")]),
 P("C18", "The current directory and the directory stack follow CD, PUSHD and POPD",
   "CD and PUSHD make an existing directory current and fail, changing nothing, on any other path; PUSHD stacks the previous one, POPD returns to the last one stacked and fails when there is none. "
   "Relative paths, %CD% and the commands run always refer to that directory.",
   ["histories", "programs"], "every sequence of CD, PUSHD and POPD, also in blocks, calls and child scripts",
   "the directory stack is not tested.",
   [K + "pBat_Cd.c", K + "pBat_Pushd.c", C + "pBat_DirStack.c"],
   [("directory stack", C + "pBat_DirStack.c"), ("CD", K + "pBat_Cd.c")],
   [("lpCurrentDir", "current directory", C + "pBat_Context.h"), ("dsDirStack", "directory stack", C + "pBat_DirStack.h")]),
 P("C19", "File commands change exactly the files they are told to",
   "MD makes the directories it is given with their missing parents; RD removes empty directories, and whole trees only with /S; DEL removes the files (never the directories) its names and patterns designate, /S at every depth; "
   "REN changes the name of an entry within its directory; COPY and MOVE give the destination exactly the content of the source, MOVE removing it from its old place, several sources being concatenated or put in the folder named last. "
   "What is asked about and refused, what fails and everything not named stays as it was, and the status tells whether the command succeeded.",
   ["histories", "inputs"], "every tree of files, every combination of names, patterns and switches, every sequence of answers",
   "they copy and move one or two files with one form of each command, without overwriting, refusals, failures or trees.",
   [K + "pBat_Mkdir.c", K + "pBat_Rmdir.c", K + "pBat_Del.c", K + "pBat_Ren.c", K + "pBat_Copy.c", "libpbat/dir"],
   [("COPY and MOVE", K + "pBat_Copy.c"), ("DEL and RD", K + "pBat_Del.c, " + K + "pBat_Rmdir.c"), ("questions", K + "pBat_Ask.c"), ("directory walks", "libpbat/dir")]),
 P("C20", "SET /A computes expressions by the documented rules and assigns the result",
   "SET /A evaluates each name=expression, separated by commas, in order, with the documented precedence (unary operators, then * / %, + -, << >>, &, ^, |, &&, ||) and parentheses, on integers and decimals; "
   "a word stands for the number in the variable of that name, 0 when there is none. += -= *= /= %= &= |= ^= <<= >>= apply to the former value; the result becomes the value of the variable, whole results being written without decimals; an expression that assigns nothing is an error.",
   ["inputs", "histories"], "every expression of numbers, variables, operators and parentheses, and every sequence of assignments",
   "they evaluate about ten expressions, with one operator each.",
   [K + "pBat_Set.c", "libfasteval/lib"],
   [("SET /A", K + "pBat_Set.c pBat_CmdSetEval()"), ("expressions", "libfasteval/lib/parser.y, scanner.l, fasteval.c")]),
 P("C21", "TYPE, FIND, WC, MORE and XARGS transform their input as documented",
   "TYPE copies the files or the input it is given; FIND shows, numbers or counts the lines that contain its string or match its pattern, or with /V the others, and tells by its status whether there was any; WC counts lines, words, bytes and characters, with a total over several files; "
   "MORE copies text with tabulations expanded, long lines cut, runs of empty lines squeezed by /S and the first lines skipped by +n; XARGS runs its command with each line of the input as one argument. "
   "Files that do not exist are reported and make them fail.",
   ["inputs"], "every text (empty, without final newline, long lines, tabulations), set of files and combination of switches",
   "they filter one or two small texts with one switch each.",
   [K + "pBat_Type.c", K + "pBat_Find.c", K + "pBat_Wc.c", K + "pBat_More.c", K + "pBat_Xargs.c"],
   [("FIND", K + "pBat_Find.c pBat_FileFind()"), ("MORE", K + "pBat_More.c pBat_MoreWriteLine()"), ("WC", K + "pBat_Wc.c pBat_FileCounts()")]),
 P("C22", "DIR lists exactly the entries that its path and switches designate",
   "DIR shows once each entry of the directory, or each one its name or pattern matches (current directory by default), /S at every depth, /A only those that have, or do not have, the attributes given; nothing else is shown and nothing is changed. "
   "/B shows bare names, usable from the current directory; otherwise each comes with its size or mark of directory, after a title and before the number of files and directories. "
   "An entry that does not exist is not an error; a second path is.",
   ["inputs", "histories"], "every tree, path, pattern and combination of switches",
   "they list one directory that never changes.",
   [K + "pBat_Dir.c", "libpbat/dir"],
   [("DIR", K + "pBat_Dir.c"), ("attributes", "libpbat/dir/pBat_Attr.c"), ("walks and patterns", "libpbat/dir/pBat_Dir.c")]),
P("C24", "Programs get the command line, streams, directory and environment of the script",
  "A word that is neither a command nor a DEF names a program, looked for in the directory it is given with, then along PATH with the extensions of PATHEXT; a script found so runs in a copy of the interpreter, anything else as a process that gets its arguments split as quotes say, the variables as they are, the current directory and the streams of the command. "
  "Its exit status becomes ERRORLEVEL (a program killed by a signal leaves a status that is not 0), and it reads the input where the script left it. "
  "A name that nothing carries gives an error and a status that is not 0.",
  ["inputs", "schedules"], "every program name, argument, redirection, directory and environment",
  "they run one script of the same folder.",
  ["pbat/core/pBat_Exec.c", "pbat/core/pBat_Run.c", "pbat/core/pBat_FilePath.c"],
  [("running programs", "pbat/core/pBat_Exec.c, pbat/core/pBat_Run.c pBat_RunExternalCommand()"), ("finding programs", "pbat/core/pBat_FilePath.c pBat_GetFilePath()")]),
P("C25", "Commands come from the command line, the input or a script, as documented",
  "/C runs the command given by the words that follow and ends with its status, /K then goes on with the commands of the input, a script name (followed by its arguments) runs that script; wrong options or a script that does not exist give an error and a status that is not 0. "
  "Without a script, commands are read from the input, lines being joined until their blocks are closed, each after a prompt in the format of PROMPT while ECHO is on; a command that reads the input gets what follows its own line, and the commands go on from where it stopped. "
  "ECHO ON, ECHO OFF, PECHO, PROMPT and PAUSE do what the manual says in each of these modes.",
  ["inputs", "histories"], "every command line, input, prompt format and interleaving of commands and data on the input",
  "they run scripts by their names, nothing else.",
  ["pbat/init/pBat_Init.c", "pbat/core/pBat_Args.c", "pbat/core/pBat_Read.c", "pbat/core/pBat_Run.c", "pbat/core/pBat_Prompt.c", "pbat/command/pBat_Pecho.c"],
  [("command line", "pbat/init/pBat_Init.c"), ("reading commands", "pbat/core/pBat_Read.c"), ("prompt", "pbat/core/pBat_Prompt.c")]),
]

NA = {}
NOTE = ("Behaviours of the TLA+ specification (TLC: all interleavings of a bounded instance, or the one behaviour of each program) "
        "compared with those of the interpreter built from the working tree: output, errors, exit status, files. "
        "Assurance is within the programs generated (bounded size, seeded) and the domain the specification covers.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as h:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            h.write(json.dumps(p) + "\n")
    checks = []
    for p in PROPS:
        if p["id"] in suites.CHECKS:
            c = suites.CHECKS[p["id"]]
            checks.append({"property": p["id"],
                           "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                           "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                           "technique": "TLA+ specification, TLC; its behaviours replayed on the code",
                           "level": "model_checking", "level_note": c.get("note", NOTE)})
    m = {"version": 1, "setup_cmd": "python3 lib/setup.py",
         "checks": checks,
         "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
         "notes": "No hooks: the checks observe the unmodified program."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


main()
