#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "Pipeline data arrives complete, in order and unmodified",
  "Everything a stage produces - the bytes of a command, or the items of a Python iterator, async iterator or function, each item sent as one line - reaches the next stage, the command that was given it as an argument file, the redirect target or the iterating caller exactly once, in order and unmodified. Iterating a pipeline gives exactly the lines of its output (a last unterminated line included, empty lines kept) and bytes()/str() give exactly its bytes. This holds however the stages are scheduled, however the bytes are split into reads and writes, and for any combination of pipes, parallel groups, argument pipes and functions.",
  ["schedules", "inputs", "programs"],
  "Every interleaving of the shell's event loop with the commands of a pipeline, every split of the data into reads and writes, line lengths around every buffer size, pipelines of commands, iterators, async iterators, functions, groups and argument pipes.",
  "The tests run a few pipelines once on tiny inputs under whatever schedule the OS picks; most do not even look at the output. Losing, duplicating or splitting data needs a chunk boundary, a buffer size or an ordering that they never produce.",
  ["pieshell/iterio.py", "pieshell/pipeline/function.py", "pieshell/pipeline/pipe.py", "pieshell/pipeline/group.py", "pieshell/pipeline/command.py", "pieshell/pipeline/base.py", "pieshell/utils/asyncutils.py"],
  [("OutputHandler/LineOutputHandler.send_output write one item per writable event", "pieshell/iterio.py"), ("InputHandler/LineInputHandler buffers", "pieshell/iterio.py"), ("Pipe._run/Group._run connect the stages", "pieshell/pipeline/pipe.py, group.py"), ("Command._handle_arg_pipes", "pieshell/pipeline/command.py")],
  [("InputHandler.buffer/eof/future", "bytes read and not yet handed out", "pieshell/iterio.py"), ("OutputHandler.iter/recursion_lock", "source of the data and guard against overlapping fetches", "pieshell/iterio.py")],
  ["items yielded by iterating a pipeline", "bytes received by each command", "contents of redirect targets"])

p("C02", "Waiting ends exactly when every member of a pipeline has ended",
  "Waiting for a pipeline - by wait, await, running it in the foreground or exhausting its output - finishes if and only if every command and function in it has ended: never before, and always once they have. It does not matter how each one ended (exit, killed by a signal with or without core dump, unable to start, exception in a function), in which order they ended, whether they ended before anyone waited, or how many callers wait at once, including callers that give up waiting.",
  ["schedules", "histories", "fault_sequences"],
  "All orders in which commands and functions end relative to each other, to signal delivery and to the waiters; all kinds of endings; one or several concurrent or cancelled waiters.",
  "Tests only wait once for pipelines whose members exit normally; no test kills a command, lets the failing function end last, coalesces SIGCHLDs deliberately or waits twice.",
  ["pieshell/pipeline/running.py", "pieshell/signalio/__init__.py", "pieshell/signalio/manager_signalfd.py", "pieshell/signalio/signalutils.py", "pieshell/iterio.py"],
  [("RunningPipeline.wait/handle_finish", "pieshell/pipeline/running.py"), ("RunningItem.await_finish", "pieshell/pipeline/running.py"), ("ProcessSignalHandler.handle_event", "pieshell/signalio/__init__.py"), ("get_sigchlds reaps coalesced children", "pieshell/signalio/signalutils.py")],
  [("RunningPipeline.finish_future/finished", "how waiters are woken", "pieshell/pipeline/running.py"), ("ProcessSignalHandler.done_future", "the process has ended", "pieshell/signalio/__init__.py")],
  ["return of wait()", "is_running of pipelines and members"])

p("C03", "Failure is reported exactly when a member failed",
  "Waiting for a pipeline, running it in the foreground or exhausting its output raises PipelineFailed if and only if at least one member exited with a non-zero status, was killed by a signal, could not be started, or (for functions) raised an exception. The exception carries the pipeline; its failed members are exactly those that failed, the reported exit status or exception of each is the real one, and the message can be printed, and shows what the failed commands wrote to captured descriptors. While a member is still running or stopped it is not counted as failed.",
  ["schedules", "fault_sequences", "programs"],
  "All combinations of outcomes (exit status 0/1/n, signal, core dump, missing program, bad working directory, exception) over the members of a pipeline, in all orders.",
  "One test has one command exiting with status 1; combinations of outcomes over several members, signals and functions are not sampled at all.",
  ["pieshell/pipeline/running.py", "pieshell/signalio/signalutils.py", "pieshell/signalio/__init__.py", "pieshell/pipeline/command.py"],
  [("RunningPipeline.failed_processes/wait", "pieshell/pipeline/running.py"), ("RunningProcess.is_failed/exit_code", "pieshell/pipeline/running.py"), ("get_sigchlds decodes the wait status", "pieshell/signalio/signalutils.py")],
  [("ProcessSignalHandler.last_event", "last state change of the process", "pieshell/signalio/__init__.py")],
  ["exceptions raised by waiting", "failed_processes", "exit_code", "is_failed"])

p("C04", "A command gets exactly the descriptors its redirects specify",
  "A started command has open exactly the file descriptors its redirects (explicit, inherited from the environment, pipes and argument pipes) specify, each connected to the specified file, pipe or descriptor and opened with the specified flags and mode, for any combination and order of redirects, including swapped or duplicated descriptors; no other descriptor of the shell is visible to it. If a redirect cannot be set up the command is not run and is reported as failed. A redirect attached to a command takes precedence over those of anything the command is part of (the innermost wins), and among those given in the same place the last one for a descriptor counts; argument pipes inherit the redirects of the command they are an argument of. Descriptors given as a source are handed over and closed in the shell unless borrowed; the shell's other descriptors are not disturbed.",
  ["configurations", "inputs"],
  "All redirect tables up to a bound over the descriptors 0-5, sources that are files, descriptors (also aliasing each other and the targets), pipes, temporary files, /dev/null, and unopenable files; all states of the shell's descriptor table up to a bound.",
  "One test redirects stdout to a temporary file. Collisions between sources, targets and freshly opened descriptors need particular tables; failures to redirect are never tried.",
  ["pieshell/redir.py", "pieshell/pipeline/command.py", "pieshell/pipeline/redirect.py", "pieshell/pipeline/pipe.py", "pieshell/log.py", "pieshell/utils/pipe.py"],
  [("Redirects.perform/move_existing_fds/close_other_fds", "pieshell/redir.py"), ("Redirect.make_pipe/open/move", "pieshell/redir.py"), ("CmdRedirect._run merges redirects", "pieshell/pipeline/redirect.py")],
  [("Redirects.redirects", "descriptor -> redirect", "pieshell/redir.py")],
  ["descriptor table of the started command"])

p("C05", "A finished pipeline leaves nothing behind in the shell",
  "Once a pipeline has ended and its output was consumed, the shell has exactly the descriptors open that it had before, no temporary file remains except those the caller asked to keep, the pipeline is no longer listed among the running pipelines, no ended child is left unreaped, and nothing is kept registered for its processes. While it runs it is listed exactly once. This holds for successful, failing, killed, interrupted and builtin-only pipelines alike, and descriptors lent to the pipeline stay open.",
  ["histories", "schedules", "fault_sequences"],
  "All sequences of up to a bounded number of pipelines of all kinds and outcomes, under all schedules up to a bound.",
  "No test looks at descriptors, temporary files, zombies or the list of running pipelines.",
  ["pieshell/pipeline/running.py", "pieshell/pipeline/base.py", "pieshell/redir.py", "pieshell/iterio.py", "pieshell/signalio/__init__.py", "pieshell/pipeline/function.py"],
  [("Redirects.close_source_fds, borrowed", "pieshell/redir.py"), ("IOHandler.destroy", "pieshell/iterio.py"), ("handle_pipeline_finish_destructive", "pieshell/pipeline/running.py"), ("Pipeline.run registers in running_pipelines", "pieshell/pipeline/base.py")],
  [("Environment.running_pipelines", "pipelines still running", "pieshell/environ.py"), ("SignalManager.signal_handlers", "who gets told about which child", "pieshell/signalio/manager_signalfd.py")],
  ["descriptor table of the shell", "temporary directory", "running_pipelines", "children of the shell"])

p("C06", "No amount of data and no early stop can block a pipeline",
  "A pipeline whose stages would come to an end in an ordinary shell comes to an end in pieshell: lines and items of any size and number flow between commands and Python stages without the shell ever blocking on a pipe, and when a stage stops reading early the stages before it see their output closed instead of waiting forever. Output to and input from files and devices that cannot be polled works like any other. Commands start with default signal dispositions and nothing blocked (SIGPIPE, SIGCHLD), so that they end as they would in any other shell.",
  ["schedules", "inputs", "programs"],
  "Item sizes from 0 to several times the pipe capacity, stages that stop reading after a given amount, and endpoints that are pipes, files or /dev/null, under all schedules up to a bound.",
  "All test data fits in a pipe buffer and every test stage reads to the end.",
  ["pieshell/iterio.py", "pieshell/pipeline/function.py", "pieshell/pipeline/pipe.py", "pieshell/redir.py"],
  [("OutputHandler.send_output", "pieshell/iterio.py"), ("Function._run opens both ends", "pieshell/pipeline/function.py"), ("close_other_fds and close_source_fds let end-of-file through", "pieshell/redir.py")],
  [("OutputHandler.recursion_lock", "one fetch at a time", "pieshell/iterio.py")],
  ["termination of the pipeline"])

p("C07", "Captured output is exact and available when the pipeline ends",
  "For every descriptor of a command redirected to STRING (stderr by default) the captured content, once waiting for the pipeline has ended, is exactly what was written to it, and the temporary file behind it is gone; for TMP the named file holds exactly that content until the caller removes it. This holds for any bytes, any number of captured descriptors and members, and whether or not the pipeline fails; argument pipes share the captures of the command they are an argument of.",
  ["inputs", "schedules", "programs"],
  "All short byte strings over an alphabet that includes newlines, multi-byte characters and invalid UTF-8, longer outputs, several captured descriptors over several members, all outcomes and finish orders.",
  "One test checks that a TMP file exists; no test reads captured content.",
  ["pieshell/redir.py", "pieshell/pipeline/running.py"],
  [("Redirect.make_pipe for TMP/STRING", "pieshell/redir.py"), ("RunningItem.handle_pipeline_finish(_destructive), output_files, remove_output_files", "pieshell/pipeline/running.py")],
  [("RunningItem.output_content", "descriptor -> captured text", "pieshell/pipeline/running.py")],
  ["output_content", "output_files", "the temporary directory"])

p("C08", "Suspending, resuming, background and interrupt act on the right pipeline",
  "A stop request (Ctrl-Z) while a foreground pipeline of an interactive environment is being waited for suspends it: the wait raises PipelineSuspended, all its live commands are stopped, and restarting it, bg, fg or waiting again resumes it, after which it completes with the same result as if never stopped; fg also passes on failures and further stop requests. An interrupt (Ctrl-C) gives the caller a PipelineInterrupted carrying the pipeline, which can still be waited for. Signals are only ever sent to live commands of the pipeline concerned, pipelines in the background are not affected, and &True / &None run a pipeline in the background (the latter with output discarded).",
  ["histories", "schedules"],
  "All sequences of stop, continue, bg, fg, wait and interrupt requests up to a bound, at every point of the execution of the pipelines concerned.",
  "There is no test of job control at all; the orders of user requests and process state changes are what matters.",
  ["pieshell/pipeline/running.py", "pieshell/pipeline/builtins.py", "pieshell/pipeline/base.py", "pieshell/signalio/__init__.py"],
  [("StopSignalHandler", "pieshell/pipeline/running.py"), ("RunningPipeline.restart/suspend/wait", "pieshell/pipeline/running.py"), ("BgBuiltin/FgBuiltin", "pieshell/pipeline/builtins.py")],
  [("RunningPipeline.pipeline_suspended", "stop requested", "pieshell/pipeline/running.py"), ("StopSignalHandler.current_pipeline", "the foreground pipeline", "pieshell/pipeline/running.py")],
  ["exceptions from waiting", "process states", "signals sent"])

p("C09", "Running a pipeline does not change it; runs are independent",
  "A pipeline is a value: composing, running, iterating, printing or failing never changes it (nor its parts, nor the pipelines built from it, nor its argument lists and redirects). It can be run any number of times, also concurrently, also when the same object occurs several times within one pipeline, and each run behaves like the first, with its own status, output and descriptors.",
  ["programs", "histories"],
  "All compositions up to a bounded size that may share sub-pipelines, and all histories of composing, running, iterating and displaying up to a bounded length.",
  "No test runs a pipeline object twice or looks at the original after running it.",
  ["pieshell/pipeline/base.py", "pieshell/utils/copy.py", "pieshell/pipeline/command.py", "pieshell/pipeline/pipe.py", "pieshell/redir.py"],
  [("Pipeline.run deep-copies", "pieshell/pipeline/base.py"), ("deepcopy/copy_session", "pieshell/utils/copy.py"), ("__call__/__getattr__ build new commands", "pieshell/pipeline/command.py")],
  [("copy_state.memo", "copies made in this session", "pieshell/utils/copy.py")],
  ["repr and state of pipelines before and after", "results of the runs"])

p("C10", "Displaying a pipeline runs it once if interactive, never otherwise",
  "Displaying a pipeline built in an interactive environment (at the prompt or through sys.displayhook) runs it exactly once in the foreground. Displaying it in a non-interactive environment, calling repr() on it or on any object that contains it, displaying it as part of another pipeline, of a running pipeline or of pieshell's exceptions, or displaying one that has been started, never starts anything and never raises. The text names every command with its arguments (argument pipes by a placeholder), every function and every redirect of the pipeline.",
  ["programs", "configurations", "histories"],
  "All pipelines up to a bounded size, displayed in all ways (top level, nested in containers, as part of running pipelines or exceptions), before and after running, in interactive and non-interactive environments.",
  "Three tests print one simple pipeline in a non-interactive environment.",
  ["pieshell/pipeline/base.py", "pieshell/pipeline/running.py", "pieshell/pipeline/command.py", "pieshell/pipeline/function.py"],
  [("Pipeline.__repr__, pipeline_repr, repr_state", "pieshell/pipeline/base.py")],
  [("repr_state.in_repr", "nesting depth of repr calls", "pieshell/pipeline/base.py"), ("Pipeline._started", "has been run", "pieshell/pipeline/base.py")],
  ["processes started", "text produced"])

p("C11", "Environments are isolated from each other",
  "Every environment has its own working directory, exported variables and default redirects: commands run in it start in that directory with exactly those variables, and relative file names in redirects refer to it. A copy starts out equal to its original (except for what is overridden), after which a change made through one environment affects neither the other nor the shell process, except that an interactive environment's directory change also moves the process. A directory change that fails changes nothing. An environment without exports of its own uses the process's variables, commands are found through the environment's PATH, and setting up an interactive environment in a directory moves the process there as well.",
  ["histories", "configurations"],
  "All sequences up to a bounded length of creating, copying, changing directory (also to missing, non-directory and relative targets), exporting, unexporting and setting default redirects over several environments.",
  "Tests use the default environment and one export; isolation is about histories over several environments.",
  ["pieshell/environ.py", "pieshell/pipeline/command.py", "pieshell/pipeline/builtins.py", "pieshell/redir.py"],
  [("Environment.__call__/_cd/_exports", "pieshell/environ.py"), ("Command._child", "pieshell/pipeline/command.py"), ("CdBuiltin", "pieshell/pipeline/builtins.py")],
  [("Environment._cwd/_exports_value/_redirects", "the environment's state", "pieshell/environ.py")],
  ["cwd, environment and files seen by started commands", "os.getcwd() and os.environ of the shell"])

p("C12", "Names resolve and assign consistently in pieshell scopes",
  "In a pieshell scope (interactive, pysh module, pysh function, eval or exec) assigning to the name of an exported variable updates that variable for commands run later, assigning any other name creates an ordinary Python variable and never exports it, and reading a name always gives the value most recently assigned to it. A name that is not assigned, exported, inherited from the enclosing scope or a Python builtin denotes the command of that name; `exports` is the environment's variables and `_` the root command; attributes of the environment (like last_pipeline) and dunder names are not commands. Locals come first, then exports, the enclosing scope, builtins, and commands last.",
  ["histories", "inputs"],
  "All sequences up to a bounded length of assignments, exports, unexports, deletions, loops, function definitions and reads over names that are plain, exported, builtins or special, executed in every kind of scope.",
  "One test does a single export and two assignments; the precedence between locals, exports, parent scope, builtins and commands depends on the history.",
  ["pieshell/environ.py", "pieshell/module.py"],
  [("EnvScope.__getitem__/__setitem__", "pieshell/environ.py"), ("Environment.pyshfunction", "pieshell/environ.py")],
  [("EnvScope dict", "local variables", "pieshell/environ.py"), ("Environment._exports", "exported variables", "pieshell/environ.py")],
  ["values read back", "exports", "environment of started commands"])

p("C13", "Arguments are expanded exactly as documented",
  "A string argument reaches the command as exactly the words its expansion defines: %-references to variables are substituted, then a leading ~ or ~user is replaced, then file patterns are replaced by exactly the matching paths of the environment's working directory (each once, relative patterns giving paths that refer to the same files from there), or the string itself if nothing matches. A string wrapped in R() and an argument without expansion characters reach the command unchanged. This holds for any working directory and any file names, and the state used is that at the time the command is run. (A % that is not part of a reference is an error and not covered.)",
  ["inputs", "configurations"],
  "All strings up to a bounded length over an alphabet containing every character that is special to the expansion, for positional and named arguments, in several working directories (also ones whose name contains special characters) and file trees.",
  "One test expands one pattern in one directory.",
  ["pieshell/environ.py", "pieshell/pipeline/command.py"],
  [("Environment._expand_argument/_expand_path", "pieshell/environ.py"), ("BaseCommand._arg_list", "pieshell/pipeline/command.py")],
  [], ["argument vector of the started command"])

p("C14", "All spellings of a command line give the same argument vector",
  "Positional call arguments, attribute names, the root command _, short options written with minus and named parameters can be mixed freely, and the started command receives exactly the arguments in the order written: attribute names and positional strings as they are, -x for minus spellings, --name=value (underscores as dashes) for named parameters, --name for True and nothing for False, and a readable file name for pipelines, iterators and functions. Building a longer command never alters the one it was built from.",
  ["inputs", "programs"],
  "All constructions of command lines up to a bounded number of steps over all the spellings and value kinds.",
  "Tests use a handful of fixed spellings and look at the printed form of one.",
  ["pieshell/pipeline/command.py", "pieshell/environ.py"],
  [("BaseCommand.__call__/__getattr__/__sub__/__neg__/_arg_list", "pieshell/pipeline/command.py"), ("Environment.__getattr__", "pieshell/environ.py")],
  [], ["argument vector of the started command"])

p("C15", "bashsource imports exactly the variables the script exports",
  "After bashsource(scripts...) every variable that bash exports at the end of the given scripts has exactly its bash value in the environment's exports, whatever characters the value or the script's file name contain and whatever functions bash has defined; other environments and unrelated exports are untouched. If bash ends before its variables could be reported bashsource fails, the exports stay as they were and the shell does not hang; a script that cannot be read does not keep the others from being imported. (Exported names without a value, arrays and `_` are not covered.)",
  ["inputs"],
  "All values up to a bounded length over an alphabet with every character bash quotes or escapes, combined with function definitions that contain quotes, comments and here-documents, and script names with special characters.",
  "One test imports one alphanumeric value.",
  ["pieshell/pipeline/builtins.py"],
  [("BashSource._run/parse_decls, parse_declares", "pieshell/pipeline/builtins.py")],
  [], ["exports after bashsource"])

p("C16", "pysh modules and functions behave like Python ones",
  "Importing NAME.pysh found on the module search path executes all its statements once, in order, in a fresh scope with its own environment, whose names are then attributes of the module; a statement that fails makes the import fail and leaves no half-imported module behind, and modules cannot change each other's or the importer's variables, environment directory, exports or redirects by running. A function wrapped with pyshfunction behaves like the original - same parameters, defaults and closure - with commands and exports resolvable by name.",
  ["programs", "histories"],
  "All small programs from a grammar of module bodies (assignments, functions, commands, failing statements, nested imports) and import histories (first import, repeated, reload, package, failing then fixed), and all parameter-list shapes for functions.",
  "Four fixed modules are imported once each.",
  ["pieshell/module.py", "pieshell/environ.py"],
  [("Finder/Loader/Module", "pieshell/module.py"), ("EnvScope.execute_file, Environment.pyshfunction", "pieshell/environ.py")],
  [], ["attributes of modules", "sys.modules", "exceptions from import"])

p("C17", "Subshell and remote runs equal running the pipeline directly",
  "subshell(pipeline) and remote(..., pipeline) run the pipeline in another process with the same commands, arguments, redirects, working directory and exports, giving the same output as running it directly, and fail exactly when it fails. A pipeline that is pickled and unpickled - at any time, also when pipelines have been run in its environment - prints the same and runs the same as the original.",
  ["programs", "histories"],
  "All pipelines up to a bounded size over commands, pipes, redirects and groups with all success/failure patterns, after histories of runs, cd and exports in their environment.",
  "No test pickles a pipeline or runs a subshell or remote command.",
  ["pieshell/pipeline/builtins.py", "pieshell/pipeline/base.py", "pieshell/environ.py", "pieshell/shell.py"],
  [("SubShell._child, Remote._run", "pieshell/pipeline/builtins.py"), ("describable_object_reduce, DescribableObject", "pieshell/pipeline/base.py"), ("Environment.__getstate__", "pieshell/environ.py")],
  [], ["output and status of the runs", "repr after unpickling"])

p("C18", "Process navigation reaches every process exactly once",
  "The members of a running pipeline, and the children of any process and the logins of a system, are all reachable through the attribute tree that is offered for them: following listed names reaches each of them exactly once (logins whose process has ended may be left out), every name listed resolves and is a valid Python identifier, and a member that is alone under its name is reached by that name directly. This holds for any set of processes, including several with equal names, equal command lines, names that start with digits or consist of special characters, and processes that may not be inspected.",
  ["inputs", "configurations"],
  "All multisets of up to a bounded number of processes over names, executables and command lines that coincide or normalise to the same identifier at any subset of levels, with and without access to their details.",
  "No test looks at the tree beyond p.ls.",
  ["pieshell/tree.py", "pieshell/ps.py", "pieshell/pipeline/running.py"],
  [("TreeGroup", "pieshell/tree.py"), ("_getkey of PstreeProcess/PstreeLogin/Running*", "pieshell/ps.py, pieshell/pipeline/running.py")],
  [], ["dir() and attributes of pipelines and processes"])

p("C19", "A child process never continues as a second shell",
  "Whatever happens between forking a child and executing its command - failing redirect, missing or non-executable program, missing working directory, invalid argument, interrupt, or a subshell that ends - the child ends with a failure status (or its pipeline's status) and never returns into the program that uses pieshell: none of the caller's code, exception handlers, clean-up handlers or buffered output runs in it.",
  ["fault_sequences", "programs"],
  "Every operation the child performs before exec failing in every way it can fail, for commands, argument pipes and subshells, called from code with handlers of every kind around it.",
  "No test makes a child fail before exec except through a missing program name.",
  ["pieshell/pipeline/command.py", "pieshell/pipeline/builtins.py", "pieshell/redir.py"],
  [("Command._run's fork branch", "pieshell/pipeline/command.py"), ("SubShell._child", "pieshell/pipeline/builtins.py")],
  [], ["exit status of the child", "side effects of the caller's handlers"])

p("C20", "Every state change of every child reaches exactly its own pipeline",
  "Each exit, kill, stop and continue of a child is noticed by the member it belongs to and by no other, in the order it happened, however many of them coalesce into one signal, whatever other children the program has and whatever order they arrive in, with both the signalfd and the plain asyncio signal backends; a stop request from the user reaches the stop handler with both. This also holds whatever other signal handlers the program has registered, also with the same filters; a signal a child sends to the shell is not a change of the child's state. After a child has ended nothing is delivered for it any more. No delivery raises an error in the event loop.",
  ["schedules", "configurations", "histories"],
  "All sequences of child state changes over up to three children up to a bounded length, all ways of coalescing them into signal deliveries, both backends.",
  "Tests use only the signalfd backend, with whatever coalescing happens to occur.",
  ["pieshell/signalio/__init__.py", "pieshell/signalio/manager_signalfd.py", "pieshell/signalio/manager_asyncio.py", "pieshell/signalio/signalutils.py"],
  [("SignalManager.handle_event/register/deregister/match_signal", "pieshell/signalio/manager_*.py"), ("get_sigchlds", "pieshell/signalio/signalutils.py")],
  [("SignalManager.signal_handlers", "filter -> handler", "pieshell/signalio/manager_*.py")],
  ["events seen by each member"])

p("C21", "Completion lists are complete and never fail",
  "The names an environment offers for completion are exactly the entries of the directories on its PATH and the registered builtins, whatever of those directories are missing, unreadable, relative or duplicated, and after clear_dir_cache they reflect the current PATH and directories; a scope offers these plus its variables and exports. cd offers exactly the subdirectories of the directory named so far (of the environment's own directory if none is), relative to the environment. Completing the arguments of a command asks for exactly its command line; computing completions, also with TAB at the prompt, runs nothing else and changes no directory.",
  ["configurations", "histories"],
  "All PATH values up to a bounded number of entries over existing, missing, unreadable, relative, empty and duplicate directories, and all histories up to a bounded length of changing PATH, directories and clearing the cache.",
  "One test checks that ls is listed with the sandbox's own PATH.",
  ["pieshell/environ.py", "pieshell/pipeline/builtins.py"],
  [("Environment.__dir__/_clear_dir_cache, EnvScope.keys", "pieshell/environ.py"), ("CdBuiltin.__dir__, ClearDirCacheBuiltin", "pieshell/pipeline/builtins.py")],
  [("Environment._dir_cache", "cached completion names", "pieshell/environ.py")],
  ["dir() results"])

p("C22", "The command line does what it documents for every combination",
  "Every combination of the documented options and actions of the pieshell command does what its help says: --help and --version print and do nothing else, --cmd, --pcmd and FILE run exactly the given statements with args and kws available, startup configuration is executed unless --no-startup, is created from the default if missing, and an unusable home directory or failing configuration does not prevent the rest; --log turns on the named categories. Incomplete or failing files and statements are reported, and a history that cannot be read does not prevent the prompt, one that can is kept. It works the same wherever standard input and output lead (terminal, pipe, file, /dev/null).",
  ["configurations", "inputs"],
  "All combinations of options, actions, home directory states and kinds of standard streams.",
  "No test runs the command line program.",
  ["pieshell/shell.py", "pieshell/environ.py", "pieshell/log.py"],
  [("main", "pieshell/shell.py"), ("EnvScope.execute_startup/_copy_resource/execute_file/execute_expr", "pieshell/environ.py")],
  [], ["output and files produced by the program"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
