#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over.split(), "text": quant},
      "why_tests_cant": why,
      "anchors": {"files": files.split(),
                  "state": [dict(zip(("name","meaning","where"), s)) for s in state],
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": list(observe), "hook_needed": hook}})

RD = "internal/reader/lexer/lexer.go internal/reader/parser/parser.go internal/reader/reader.go"
ACT = "internal/engine/task/action.go"
BOOT = "internal/engine/boot/boot.oh"

prop("C01", "Data written to a pipe or file reads back as equal data",
 "Any datum made of strings (any bytes), numbers, statuses, symbols, the empty list, proper and improper lists nested to any depth, written with write and read back with read or read-list by the same or another oh process, is equal to the original and of the same types. Writing what was read produces the same text again, and consecutive data come back one at a time in the order written.",
 "inputs", "all finite data built from strings over arbitrary bytes, rational numbers, statuses, symbols and cons cells; symbols containing the joining characters , . / : = @ ~ together with others are a recorded known finding",
 "The parser tests reparse eleven fixed texts and compare print against print, so they never compare the value read with the value written and never leave ASCII.",
 RD+" internal/common/type/pair/pair.go internal/common/type/sym/sym.go internal/common/type/str/str.go internal/common/type/num/num.go internal/common/type/status/status.go internal/common/type/pipe/pipe.go",
 [("literal printers","Literal methods of pair, sym, str, num, status"),("banana-clip meta syntax","parser.meta, lexer.afterOpenParen"),("dollar-quote decoding","parser.word via adapted.ActualBytes")],
 observe=["output of write","value returned by read-list"])

prop("C02", "Surface syntax always means its documented expansion",
 "Every command built from words, quotes, $ references, backquotes, blocks, trailing-colon sublists, redirections, pipelines, ;, &&, ||, &, process substitutions and prefix assignments is read as exactly the nested list the language gives it, whatever spaces, tabs, comments, blank lines and backslash-newlines surround its words. Binding strength from tightest to loosest is substitution, redirection, ;, |, &&, ||, &.",
 "inputs programs", "all syntactically valid command texts over the operator and quoting grammar and all their whitespace/comment layouts",
 "Eleven parser tests reparse their own output; lexer tests check a handful of token lists. No test states which tree an operator combination must produce.",
 RD, [("recursive descent precedence","parser.possibleBackground ... statement"),("implicit join","parser.implicitJoin"),("block and sublist handling","parser.braces, subStatement")],
 observe=["write of a quoted command","literal form of parsed commands"])

prop("C03", "Reading any text terminates: commands, more input wanted, or an error",
 "For every byte string given to the reader, reading finishes having produced only well-formed commands and then either a request for more input or an error naming what was unexpected. It never crashes, never loops, never produces a command from an incomplete text, and what it produced prints in a form it reads back identically.",
 "inputs", "all byte strings, valid UTF-8 or not, including mutated valid scripts and NULs",
 "Tests feed only well-formed text; unbalanced closers, missing operands, bad escapes and broken UTF-8 never reach the reader.",
 RD, [("error recovery","parser.Parse recover, parser.check, parser.expect"),("state machine end of input","lexer.Token, lexer actions returning nil at eof")],
 observe=["commands emitted","error returned","process exit"])

prop("C04", "How input is split into reads never changes the commands read",
 "The commands delivered for a text, their order and the error it ends in do not depend on how the text is cut into successive reads, on copies of the reader taken for completion part-way, or on whether it arrives as a script, a -c string or through a pipe. Each complete command is delivered exactly once and none is lost because another follows on the same line.",
 "inputs histories", "all texts and all ways of cutting them into chunks at arbitrary byte positions outside a character, with completion snapshots at arbitrary points",
 "Lexer tests scan one or two hand-picked chunks; parser tests scan one. No test compares two ways of delivering the same text.",
 RD+" internal/common/type/pipe/pipe.go main.go", [("leftover buffer carry","lexer.gather"),("token/command hand-over","reader.New, reader.Scan, reader.Next"),("completion snapshot","lexer.Copy, parser.Copy")],
 state=[("queue","chunks waiting to be scanned","lexer.T")],
 observe=["commands per scan","commands evaluated by oh -c / script / pipe"])

prop("C05", "Errors are traced to the right file, line, column and text",
 "When an error is not caught, the lines printed for it name, for every pending user call from outermost to innermost, the script file, the line and the column where the command last started in that call's frame begins (for a call made while evaluating another command's arguments, that is the argument command) and the source text from there to the end of its line, however the script is laid out. A call made in tail position replaces its caller and is not pending. The error message itself follows the trace on standard error.",
 "programs inputs", "all scripts of nested procedure calls across lines, columns, comments, blank lines and continuation, ending in an error at the bottom",
 "No stable test checks a location; doctests only strip a path prefix.",
 RD+" internal/common/struct/loc/loc.go internal/common/struct/frame/frame.go internal/common/type/sym/plus.go "+ACT, [("location bookkeeping","lexer.accept, lexer.emit, lexer.skip"),("frame update","task.implicitLookup, task.trace")],
 observe=["stderr of a failing script","trace builtin"])

prop("C06", "Control structures agree with the language definition",
 "For every program of define, set, if / else if / else, while, block, and, or, not, user methods with fixed and variadic parameters, nested and recursive calls and explicit or implicit return, the values produced and the order of side effects are those of the language definition. Arguments are evaluated left to right exactly once, untaken branches never run, and a block or call evaluates to its last command unless return is used.",
 "programs", "all terminating programs over the listed constructs",
 "The doctests run 19 fixed scripts; they cannot cover combinations of nesting, early return and loop state.",
 ACT+" internal/engine/task/registers.go internal/engine/task/method.go "+BOOT, [("operation stack","registers.PushOp with restore condensing"),("block sequencing","task.evalBlock, execIfBody, execWhileTest"),("parameter binding","task.apply")],
 observe=["stdout of the program"])

prop("C07", "Names resolve lexically; exported names resolve through callers too",
 "A private name is visible exactly in the scope that defines it and the scopes nested inside it, the innermost definition winning, and closures keep sharing the variables of the scope that created them after it has returned. An exported name that is not found lexically is found through the chain of callers, nearest caller first, and disappears with the scope that exported it; set changes the nearest existing binding and never creates one.",
 "programs histories", "all programs mixing define, export, set, unset, closures, blocks, loops and nested calls",
 "Two doctests (local, dynamic) show one instance each of the two kinds of lookup.",
 ACT+" internal/common/struct/frame/frame.go internal/common/type/env/env.go internal/common/struct/hash/hash.go internal/common/type/obj/obj.go", [("lookup order","frame.Resolve, env.Lookup"),("frame reuse when visibility is equal","env.Visible, task.apply, task.eval")],
 state=[("scope chain","private and public names per scope","env.T"),("frame chain","dynamic callers","frame.T")],
 observe=["values of resolved names","'not defined' errors"])

prop("C08", "Exceptions unwind to the nearest handler and nowhere else",
 "An error or throw at any depth runs the handlers installed in the dynamically enclosing scopes, innermost first, each either finishing its scope with the value it returns or re-throwing to the next; commands after the failing one in unwound scopes do not run and everything else does. An exception no handler stops ends the task, reports its message on standard error, and leaves other tasks running.",
 "programs", "all programs nesting catch, throw, builtin errors, method calls, loops, blocks, captures, pipelines and spawned tasks",
 "One doctest throws once from a known place.",
 BOOT+" "+ACT+" internal/engine/task/task.go", [("catch","boot.oh catch: exported throw in the catching scope"),("runtime errors become throw","task.Step recover"),("last resort handler","boot.oh sys export throw, task.fatal")],
 observe=["stdout trace of markers","stderr message"])

prop("C09", "Continuations restore exactly the captured control point",
 "Invoking a return continuation, whether while its method is active or later and any number of times, resumes the computation just after that call with the given value and with the scopes it had then, while variables keep their current values. Loops expressed as tail calls run in bounded memory however many iterations they make.",
 "programs histories", "all programs that store, re-enter and escape through return continuations, and tail-recursive loops of any length",
 "One doctest exercises a generator; nothing measures memory or re-entry.",
 "internal/engine/task/registers.go "+ACT, [("persistent stacks","registers stack/dump captured by apply"),("restoreOver","task.continuation, registers.restoreOver"),("tail position","task.evalBlock RemoveOp on the last command")],
 observe=["stdout","resident memory of the process"])

prop("C10", "User-defined syntax, eval and quasiquote treat code as data faithfully",
 "A syntax receives its arguments exactly as written, unevaluated, and the caller's environment, in which eval gives each expression the value it would have had written there directly; quote returns its argument unchanged and quasiquote replaces exactly the unquoted parts. Evaluating a command that was built, quoted or read as data behaves exactly as running that command.",
 "programs", "all programs over syntax, quote, quasiquote/unquote and eval applied to generated command data",
 "One doctest prints a quoted definition.",
 ACT+" internal/engine/task/syntax.go internal/engine/task/closure.go "+BOOT, [("unevaluated application","Syntax.Execute, task.apply env label"),("eval in a scope","task.eval"),("quasiquote","boot.oh quasiquote")],
 observe=["stdout"])

prop("C11", "No arguments can crash the shell: every builtin returns or throws",
 "Any builtin, method or syntax applied to any number of arguments of any types (finite data) either returns a value or raises an exception a handler can catch, after which the program carries on with all earlier bindings intact. Calls of builtins, members, and user methods and syntaxes with the wrong number of arguments are always refused with the expected and passed counts and no effect (special forms, such as if, have no fixed count).",
 "inputs programs", "all builtins of the base language applied to all argument lists of generated values (destructive file and job commands confined)",
 "Tests only pass valid arguments.",
 "internal/engine/commands/*.go internal/common/validate/validate.go "+ACT, [("argument validation","validate.Fixed, validate.Variadic"),("panic to throw","task.Step"),("parameter count","task.apply")],
 observe=["exit of the oh process","caught message"])

prop("C12", "Arithmetic and comparison are exact over rationals",
 "add, sub, mul, div and mod return the mathematically exact rational result for any number of arguments of any size, never rounded or overflowed, and division or modulo by zero throws. lt?, le?, gt?, ge? hold exactly when every adjacent pair of arguments is so ordered, numbers compare equal exactly when their values are, and none of these changes its arguments.",
 "inputs", "all argument lists of integers, fractions, decimals and exponents of any size",
 "Doctests add small integers.",
 "internal/engine/commands/arithmetic.go internal/engine/commands/relational.go internal/common/type/num/num.go internal/common/interface/rational/rational.go internal/engine/commands/number.go", [("big.Rat arithmetic","commands/arithmetic.go"),("fresh accumulator","add, sub, mul, div copy the first operand")],
 observe=["value printed","value of the operands afterwards"])

prop("C13", "String operations match their definition on every byte string",
 "str length, lower, upper, slice, replace, trim-prefix and trim-suffix, mend, rend, match, string/symbol conversion and interpolation return what their definitions give for any bytes (lower and upper for any UTF-8 text), and mend with a separator undoes rend with the same separator. Out-of-range slice bounds are clamped or refused as defined, never read past the string.",
 "inputs", "all byte strings, separators, bounds and replacement counts",
 "Hardly any string function is called in the tests.",
 "internal/engine/commands/string.go internal/engine/commands/core.go "+ACT, [("slicing","sslice"),("joining and splitting","mend, rend"),("interpolation","task.interpolate")],
 observe=["value printed"])

prop("C14", "List operations agree with a heap of cons cells, including sharing",
 "Over any sequence of cons, list, append, extend, set-head, set-tail, head, tail, get, slice, reverse, length and splice, every list reachable from every variable has the contents given by a model in which append, extend, set-head and set-tail change the list in place (visible through every name sharing it) and slice and reverse copy. Negative indices count from the end, defaults apply exactly when the index is out of range, and bad indices throw leaving lists unchanged.",
 "histories", "all sequences of list operations over a set of variables with arbitrary sharing (acyclic)",
 "List tests are a few manual examples; sharing is never checked.",
 "internal/common/type/list/list.go internal/common/type/pair/pair.go internal/engine/commands/list.go internal/engine/commands/pair.go", [("in-place growth","list.Append, list.Join"),("copying","list.Slice, list.Reverse"),("indexing","list.Tail")],
 state=[("cons cells","car/cdr with aliasing","pair.T")],
 observe=["every variable printed after every step"])

prop("C15", "Objects and maps behave as independent name/value stores",
 "After any sequence of set, get, has, del and method calls on maps and objects, each holds exactly the names last given to it and not removed; private members are unreachable from outside while methods still see and update them, and instances made by the same constructor share nothing. Looking up a missing member throws; keys (symbols, strings and numbers) are distinguished by their literal form.",
 "histories", "all operation sequences over several maps and objects with generated keys and values",
 "Manual examples use one object once.",
 "internal/common/type/obj/obj.go internal/common/type/env/env.go internal/common/struct/hash/hash.go "+ACT+" "+BOOT, [("public-only view","obj.Lookup, obj.Define"),("self binding","task.accessMember, task.bind"),("map object","boot.oh map")],
 observe=["values printed after each operation"])

prop("C16", "Equality is structural, symmetric and consistent",
 "equal? holds for two data exactly when they have the same types and contents throughout (numbers by value, strings and symbols by text, lists element by element), so it is reflexive, symmetric and transitive and never fails on data of different shapes; with several arguments it holds exactly when all adjacent pairs are equal. eq? and ne? compare string forms and are exact opposites; not and bool follow truth: only (), zero numbers and non-zero statuses are false. Type predicates hold exactly for values of their type, wherever these come from.",
 "inputs", "all tuples of data, equal or minimally different",
 "Tests compare a few atoms.",
 "internal/engine/commands/relational.go internal/common/type/pair/pair.go internal/common/type/num/num.go internal/common/type/status/status.go internal/common/interface/boolean/boolean.go "+BOOT, [("recursive comparison","pair.Equal"),("truth values","boolean.Value, num.Bool, status.Bool")],
 observe=["value printed"])

prop("C17", "Channels deliver each value once, in order, within capacity",
 "Every value written to a channel is read exactly once, values from one writer arrive in the order written, and after close readers get the remaining values and then (); with several writers and readers no value is lost, duplicated or invented. A writer waits exactly when the channel holds its capacity, and a write to a closed channel throws.",
 "schedules histories", "all numbers of writers and readers, capacities, message counts and task schedules",
 "Two unit tests and one doctest use a single value or a single pair of tasks.",
 "internal/common/type/chn/chn.go internal/engine/commands/conduit.go internal/engine/task/state.go internal/system/job/job_unix.go", [("Go channel","chn.T"),("task scheduling","job.Spawn, task.Run")],
 observe=["values collected by readers","progress of writers"])

prop("C18", "Pipes carry lines and data unaltered, in order, up to end of file",
 "Lines and data written to a pipe, file or standard stream come out of read-line, read-list and read in order and unaltered whatever their length and whether or not the last line ends in a newline, then () for ever once every writer is closed. Closing ends independently stops only that direction: writing to a closed writer throws and the reader still drains what was written.",
 "histories inputs schedules", "all sequences of write, write-line, read, read-line, read-list, reader-close, writer-close and close over pipes, files and external producers",
 "Pipe tests write and read one item.",
 "internal/common/type/pipe/pipe.go internal/engine/commands/conduit.go internal/engine/commands/file.go", [("buffered reader","pipe.buffer, pipe line"),("independent ends","pipe.ReaderClose, WriterClose")],
 observe=["values read"])

prop("C19", "Background tasks run to completion once and wait waits for them",
 "Each spawned or & command runs exactly once, concurrently with its parent, seeing the parent's variables, while names it defines stay its own. wait returns only after all the named tasks (or, without arguments, every child started so far) have finished, and gives the result of the last one named; errors in one task neither stop nor corrupt another.",
 "schedules programs", "all trees of spawned tasks, waits and errors, under all schedules",
 "One doctest spawns one task.",
 ACT+" internal/engine/task/state.go internal/engine/task/task.go internal/system/job/job_unix.go", [("monitor goroutine","job.monitor request queue"),("wait groups","job.Await, job.tell"),("task state","state.Wait, state.Notify, state.Runnable")],
 state=[("parent/children/waiting","task tree and wait groups","job_unix.go")],
 observe=["order of markers in output","value of wait"])

prop("C20", "External commands receive exactly the arguments written",
 "An external command receives one argument for each word, with exactly the bytes of its value: quoted and computed strings and numbers are never split, globbed, tilde-expanded or dropped when empty; splice contributes one argument per element; joined words make one argument. Values that have no text form are refused before anything is run.",
 "inputs", "all argument lists of words of every quoting kind, variables, command results and spliced lists over arbitrary bytes without NUL",
 "Doctests echo a few words.",
 ACT+" internal/engine/task/task.go internal/common/common.go", [("argument expansion only for symbols","task.expand"),("argv construction","task.external")],
 observe=["argv seen by the child"])

prop("C21", "Children see exactly the exported names and the shell's directory",
 "A child process's environment consists of exactly the names exported in the enclosing scopes and the callers' at the call, innermost scope and nearest caller first, whose values have a text form, with their current values; unexported names never leak, prefix assignments affect only that command, and leaving a scope restores the outer value. Its working directory is $PWD and its standard streams are those in effect.",
 "programs histories", "all nestings of export, define, set, unset, prefix assignment, methods and blocks around an external command, and all inherited environments",
 "One doctest uses an exported name once.",
 "internal/engine/task/task.go internal/common/struct/hash/hash.go internal/engine/engine.go "+ACT, [("environment assembly","task.Environ"),("inherited environment","engine.init")],
 observe=["environment of the child"])

prop("C22", "Exit statuses are reported faithfully",
 "A command's value is the exit status of the program it ran, 0 to 255, or 128 plus the signal number if a signal ended it, true in conditions only for 0, and this holds for any number of programs running at once. exit ends the shell with the status given (0 for true, 1 for ()), and a program that cannot be found or run throws instead of returning a status.",
 "inputs schedules", "all exit codes, fatal signals, exit arguments and concurrent mixes of them",
 "Only true/false style commands are run.",
 "internal/system/job/job_unix.go internal/common/type/status/status.go internal/engine/engine.go "+ACT, [("reaping","job.reap, job.notify"),("exit code mapping","engine.Evaluate, exitcode, success")],
 observe=["value of the command","exit status of oh"])

prop("C23", "Redirections send exactly the right bytes to exactly the right place",
 "For any nesting of <, >, >>, >|, >&, >>&, >&| around any command, files and streams hold afterwards what the redirections prescribe: > refuses to replace an existing file, >| replaces it, >> adds to it, the & forms include standard error, and the innermost redirection wins. Outside the redirected command, and after any error inside it, input and output are what they were, and nothing is created or changed by a refused redirection.",
 "programs histories", "all combinations of redirection operators, targets (new, existing, device, pipe, channel, variable, glob) and commands (external, builtin, block, failing) in sequence",
 "One doctest does five redirections with one target each.",
 BOOT+" "+ACT+" internal/engine/commands/file.go", [("make-redirect","boot.oh make-redirect, wrap-redir-r-ex"),("existence check","task.exists"),("open modes","commands.open")],
 observe=["files in the scratch directory","stdout and stderr"])

prop("C24", "Pipelines pass all data through every stage and report the last",
 "In a pipeline of any length mixing programs, builtins, methods and blocks, every byte a stage writes reaches the next stage in order, each stage sees end of file when its predecessor is done, |& also carries standard error, and the pipeline finishes only after all stages have, with the value of the last stage. An exception in any stage is raised by the pipeline, and no stage is left running or pipe left open.",
 "programs inputs schedules", "all pipelines of generated stages over data from empty to megabytes",
 "One doctest pipes a few lines through two programs.",
 BOOT+" internal/common/type/pipe/pipe.go internal/system/job/job_unix.go", [("make-pipe","boot.oh make-pipe, collect-unwrap-r-ex"),("stream override","override-stdout, override-stdin")],
 observe=["output bytes","value","open descriptors"])

prop("C25", "Command substitution yields exactly the lines a command wrote",
 "Capturing a command gives one string per line it wrote to standard output, in order and unaltered apart from line ends, and a backquote inserts each as one argument with no further splitting or expansion; nothing reaches the real output. Errors inside are raised by the capturing command, and captures nest and work for any amount of output.",
 "inputs programs", "all captured commands and outputs: empty lines, no final newline, long lines, many lines, nested captures, failing commands",
 "One doctest captures a single word.",
 BOOT+" internal/reader/parser/parser.go", [("capture","boot.oh capture"),("backquote","parser.element")],
 observe=["captured list","argv"])

prop("C26", "Process substitution connects commands through named pipes",
 "Each |< (cmd) argument becomes a path from which the main command reads exactly what cmd writes, each |> (cmd) a path whose written bytes reach cmd's input, several can be combined, and the command completes only when all of them have. Its value is the main command's, errors in any part are raised, and no named pipe remains afterwards.",
 "programs inputs", "all commands with one to several input and output substitutions over generated data",
 "No stable test uses process substitution.",
 BOOT+" internal/reader/parser/parser.go internal/engine/commands/file.go", [("fifo management","boot.oh process-substitution, temp-fifo")],
 observe=["output bytes","temporary directory"])

prop("C27", "Globs and tildes expand to exactly the matching paths",
 "An unquoted word containing *, ? or [...] expands to exactly the existing paths it matches, sorted, relative patterns relative to $PWD, hidden names only when the pattern says so; no match is an error, and a leading ~ becomes $HOME. Words that were quoted, computed as strings or come from earlier expansion are left alone, and match agrees with globbing on single names.",
 "inputs", "all directory trees of generated names and all patterns over them",
 "One doctest lists a handful of files.",
 "internal/engine/task/task.go internal/engine/commands/core.go", [("expansion","task.expand, task.tildeExpand")],
 observe=["argv of an external command","result of glob"])

prop("C28", "cd keeps $PWD, $OLDPWD and every file operation in agreement",
 "After any sequence of cd by name, relative path, .., -, none or implicit directory command at one scope level, $PWD names the directory in which external commands run, relative redirections, open, exists, globs and source resolve, and $OLDPWD the previous one; a failed cd changes nothing and is false. Symbolic components stay as typed.",
 "histories", "all sequences of directory changes over generated trees including missing, non-directory, unreadable and symlinked targets",
 "Doctests cd once to /tmp.",
 "internal/engine/task/task.go "+ACT, [("Chdir","task.T.Chdir"),("cd","task.cd"),("implicit cd","task.external")],
 observe=["pwd of children","files created","$PWD $OLDPWD"])

prop("C29", "source and import load code with the right scope, once, and report errors",
 "source evaluates every command of a file in order in the caller's scope and gives the last value, finding the file as named or along OHPATH; import evaluates it in an object of its own, whose exported names only are reachable, and a module that names itself is loaded once however often and from however many tasks it is imported. A missing file, syntax error or exception inside is raised in the caller, and later imports still work.",
 "programs histories schedules", "all sequences and concurrent mixes of source and import over generated files, good and bad",
 "No stable test imports anything.",
 BOOT, [("source","boot.oh source"),("import service","boot.oh do-import, request channel")],
 observe=["values and side effects"])

prop("C30", "The command line selects the program and its arguments faithfully",
 "oh SCRIPT ARGS, oh -c COMMAND NAME ARGS, oh -s ARGS and commands on standard input run the given program with $0, $1, $2 ... and $@ holding exactly the strings passed, options meant for the script included; ORIGIN is the script's directory. The exit status is that given to exit, a command line that cannot be parsed or a command that is malformed or incomplete is reported with a failing status, and -v and -h only print.",
 "configurations inputs", "all command lines over the documented options and arbitrary argument strings",
 "Tests always run oh FILE with no arguments.",
 "main.go internal/system/options/options.go internal/engine/engine.go", [("option parsing","options.Parse"),("positional parameters","engine.Boot")],
 observe=["values printed","exit status"])

prop("C31", "open gives each mode its documented effect on files",
 "open with any combination of r, w, a and - yields a conduit that reads if r is given, writes at the end if a is given, truncates exactly for w without a, does both for neither or both directions, and creates a missing file unless - is given. The bytes in the file after any sequence of opens, writes, reads and closes are those of a model of such files, created files honour umask, and failures throw and leave the file as it was.",
 "histories configurations", "all mode strings over r w a - and operation sequences on new and existing files, and umasks",
 "Modes are never varied in tests.",
 "internal/engine/commands/file.go internal/engine/commands/umask_unix.go internal/common/type/pipe/pipe.go", [("flag computation","commands.open")],
 observe=["file contents and permissions"])

prop("C32", "Interactive sessions survive errors and read multi-line commands",
 "At a terminal, commands typed one line at a time, including ones spanning several lines, are each evaluated once in order with definitions persisting, whatever syntax or runtime errors earlier lines caused; ctrl-C abandons the partial command or interrupts the running one and the session continues; end of file ends it with the terminal restored. Lines entered are saved to the history file and offered again next time.",
 "histories schedules", "all sessions of valid, erroneous, partial and interrupted input lines (interrupted: external commands, loops and waits for tasks)",
 "No test runs oh on a terminal.",
 "main.go internal/system/history/history.go internal/system/job/job_unix.go internal/system/process/process_unix.go internal/reader/reader.go", [("repl","main.repl"),("interrupt","job.interrupt, task.Interrupt"),("history","history.Load, history.Save")],
 observe=["terminal output","history file"])

prop("C33", "Completion offers exactly the matching paths and keeps the line",
 "Pressing tab at the end of an argument offers exactly the existing files and directories whose paths extend that word, directories with a trailing slash, hidden ones only when the word's last part starts with a dot; one candidate replaces the word, several extend it to what they have in common and a second tab lists them. Only that word of the line changes, nothing of the command being entered is evaluated, and the session goes on as if tab had not been pressed.",
 "inputs histories", "all directory trees, working directories (also through links), partial words (plain, ./, ../, ~/, absolute) after a space, positions in the line and pending multi-line commands",
 "No test touches completion.",
 "main.go internal/system/cache/cache.go internal/reader/lexer/lexer.go internal/reader/parser/parser.go", [("candidates","main.files, main.expand, main.matches"),("directory cache","cache.Files"),("snapshot parse","lexer.Copy, parser.Copy")],
 observe=["line after pressing tab at a terminal"])

prop("C34", "Jobs can be stopped and resumed without losing work",
 "In an interactive session a stopped foreground command is listed by jobs with its command line under the lowest unused larger number, fg resumes it in the foreground and waits for it, bg resumes it in the background, and it then finishes as if never stopped, exactly once. Stopping, resuming and interrupting one job affects no other job, and jobs, fg and bg on unknown jobs throw.",
 "histories schedules", "all sequences of starting, stopping, listing, resuming and finishing jobs",
 "No test runs with job control.",
 "internal/system/job/job_unix.go internal/system/process/process_unix.go internal/engine/engine.go internal/engine/task/state.go", [("job table","job.Stopped, Bg, Fg, printJobs"),("process groups","process.SysProcAttr, SetForegroundGroup")],
 state=[("jobs","stopped jobs by number","job_unix.go")],
 observe=["terminal output","files written by the jobs"])

prop("C35", "Repeating any command forever leaks no descriptors, processes or fifos",
 "However many times redirections, pipelines, captures, process substitutions, spawned tasks, opens followed by close, imports and failing commands are executed, the shell's open descriptors, child processes, zombies and temporary files return to a bounded level. Descriptors of the shell other than 0, 1 and 2 are never inherited by the programs it runs.",
 "histories", "all repetitions and mixes of the listed operations",
 "Tests run each construct a few times and look only at output.",
 BOOT+" internal/common/type/pipe/pipe.go internal/system/job/job_unix.go "+ACT, [("explicit closes","boot.oh make-pipe, make-redirect, capture"),("finalizer","pipe.New SetFinalizer"),("reaping","job.reap")],
 observe=["/proc/self of oh and of its children"])

prop("C36", "The bundled library procedures meet their definitions",
 "for maps a procedure over a list in order, seq n is 0 to n-1, fn defines a command whose expanded arguments appear as $@, $1, $2 ..., mill applies its procedure to each item read, coalesce gives the first name that resolves or its default, here drops one leading and one trailing newline, eq? and ne? compare text, and ... finds the nearest enclosing directory holding a name. They hold for all inputs and leave the caller's variables alone.",
 "inputs programs", "all arguments within each procedure's documented domain",
 "Doctests use for and while once or twice; most of these are never called.",
 BOOT, [("library definitions","boot.oh")],
 observe=["values printed"])

if __name__ == "__main__":
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(p, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P))
