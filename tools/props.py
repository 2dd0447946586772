AI = "static analysis: disjunctive abstract interpretation (fixpoint over a finite domain) of the LLVM IR with a property automaton"

prop("P01", "Dependency cycles are rejected; traversal is complete and in dependency order",
     "Whatever the dependency graph looks like, traversing it either fails with an error, which happens exactly when a cycle is reachable, "
     "or visits every reachable node exactly once and only after everything that node depends on. Both the use and the build dependencies of a node count as edges.",
     ["inputs", "configurations"], "for every finite dependency graph, every order of edges and every start node",
     "The unit tests traverse a handful of small graphs; shared sub-graphs, long cycles and mixed edge kinds are not reached.",
     ["core/utils/graphutils.hpp", "core/db/dependency_graph.hpp"],
     [("three-colour depth-first traversal", "core/utils/graphutils.hpp: processGraphNodeRecursive, visitNodesInTopoOrder")],
     [["graph.check"]],
     "In every instantiation of the depth-first traversal, each read of a node mark opens a segment; the actions until the next read (queue, pop, mark update, "
     "callback, exception) are compared with what the mark's value allows: an edge to an in-progress node must throw, an unvisited node must be marked before its "
     "edges and must visit both dependency lists, a completed node gets exactly one callback.",
     AI + " over the node marks", note="decides all paths of the traversal for arbitrary graphs; node marks are exact, containers are modelled", minob=20,
     assume=["the mark vector is only written by the traversal"])

prop("P03", "A build step starts only after everything it needs has been built",
     "No recipe is started for a source file before every build dependency and every direct or indirect use dependency of that file is finished successfully. "
     "A file without targets counts as finished from the start, every other file gets exactly one step.",
     ["schedules", "inputs"], "for every dependency graph, every number of workers and every order in which steps finish",
     "Tests build one project with one timing; the readiness test is only sampled with small dependency lists.",
     ["core/db/task.cpp", "core/db/task_list.cpp", "core/db/dependency_graph.cpp"],
     [("readiness of a step", "core/db/task.cpp: Task::status"), ("scheduling loop", "core/db/task_list.cpp: TaskList::process"),
      ("collection of indirect dependencies", "core/db/dependency_graph.cpp: getUseDepsRecursive")],
     [["tasks.task_status"], ["tasks.task_deps"], ["tasks.task_list"],
      ["tasks.process", ["unready", "othertask", "end", "again", "notrun", "drop", "dropone", "left"]],
      ["tasks.step_outcome", ["early", "wrong", "unchecked", "unchecked2", "twice", "norun"]]],
     "Readiness is reported only on paths where the result of every element of both dependency lists was read and was Success; the scheduling loop submits exactly "
     "the step that was last found ready; the initial result of a node is Success iff it has no targets; Success is recorded only after the step ran.",
     AI + " over step results and the list of remaining steps", note="all paths of the readiness test, the loop and the worker, for arbitrary list lengths and results", minob=12)

prop("P04", "A failed build step fails the build and blocks everything depending on it",
     "If the recipe of a step fails, cannot be started or its outcome cannot be logged, no step depending on it is started and the build as a whole ends with an error. "
     "Steps that are already running are waited for before the error is reported and the program exits with a failure status; a build without failures exits with status 0.",
     ["schedules", "fault_sequences", "inputs"], "for every subset of failing steps and every order in which they finish",
     "The tests never run a failing step concurrently with others; failures other than a nonzero exit are not exercised at all.",
     ["core/db/task_list.cpp", "core/db/task.cpp", "core/sched/thread_pool.hpp"],
     [("recording of results", "core/db/task_list.cpp: closure submitted by TaskList::process"), ("first exception is kept", "core/sched/thread_pool.hpp: ThreadPool::addTask, takeLastException")],
     [["tasks.process", ["dependents", "early", "nowait", "notake", "swallow", "drop", "uncounted"]], ["tasks.step_outcome"],
      ["tasks.task_status", ["ready-notdone", "ready-build", "ready-use", "never-failed"]],
      ["mainprog.check", ["exit0", "exit1", "lost"]], ["execcmd.status"], ["sched.submit"], ["sched.counter"]],
     "On every path through the worker closure a failure (exit status, exception, log error) ends with the result Failure and an exception kept by the pool; on every path "
     "of the scheduling loop a failed prerequisite drops the remaining steps, all submitted steps are waited for, then the kept exception is fetched and rethrown; main returns 0 exactly on the paths without an exception.",
     AI + " over step outcomes and kept exceptions", note="all paths, including exceptional edges, of the worker closure and the scheduling loop", minob=12)

prop("P06", "A build always comes to an end",
     "A build ends after its steps have ended: it never waits for a step that will not finish or was never started, no wake-up is lost, and no finished step is waited for twice. "
     "This holds whether steps succeed, fail, are up to date or end with an exception.",
     ["schedules", "fault_sequences"], "for every interleaving of workers and scheduling loop and every outcome of every step",
     "A lost wake-up or a forgotten outcome shows up only in particular interleavings or with particular faults.",
     ["core/db/task_list.cpp", "core/sched/event.hpp", "core/sched/signaling_counter.hpp"],
     [("outstanding-step counter", "core/sched/signaling_counter.hpp"), ("wake-up event", "core/sched/event.hpp"), ("closure of a step", "core/db/task_list.cpp: TaskList::process")],
     [["tasks.process", ["nodec", "noset", "order", "dec2", "midwait", "uncounted", "again", "notrun", "dependents", "end", "nowait", "left"]],
      ["tasks.step_outcome", ["nofail-throw", "nofail-exit", "nosuccess", "escape", "terminate", "norun"]],
      ["tasks.task_list"], ["tasks.task_status", ["never-ready", "pending", "failed", "never-failed"]],
      ["sched.event"], ["sched.counter"], ["sched.worker"], ["sched.submit"]],
     "Every path through a step ends with a final result; the closure of a step is counted before it is submitted and its destruction signals the event before it is counted as done; "
     "the loop waits only after having looked at every remaining step.",
     AI + " over the closure's lifetime and the loop's waits", note="progress argument: local obligations on all paths; fairness of the OS scheduler and termination of recipes are assumed", minob=12,
     assume=["recipes terminate", "threads are scheduled fairly"])

prop("P05", "A build step is skipped only if its targets are up to date, and then always",
     "A step is skipped only if it is neither forced nor marked for unconditional rebuilding and each of its targets is a directory or exists and is strictly newer than the source file "
     "and than every project or generated dependency, direct or indirect, that exists as a file. A step for which this holds is not run, and the command that is run is the one made for that step.",
     ["inputs", "histories"], "for every set of files and time stamps, every number of targets and dependencies, and every force flag and rebuild policy",
     "A stale target is noticed only in particular orders of time stamps; tests do not compare equal times, missing files, several targets or indirect dependencies.",
     ["core/utils/fs.cpp", "core/db/target_info.cpp", "core/db/dependency.hpp", "core/db/source_file_record.cpp", "core/db/task.cpp"],
     [("comparison of file times", "core/utils/fs.cpp"), ("all inputs of a target", "core/db/target_info.cpp: isUpToDate"), ("all targets of a step", "core/db/source_file_record.cpp: isUpToDate"),
      ("decision", "core/db/task.cpp: Task::runIfNecessary")],
     [["uptodate.older"], ["uptodate.target"], ["uptodate.record"], ["uptodate.run"], ["tasks.task_deps"]],
     "On every path that reports up to date, both file times were read and found strictly ordered (or the input is external, a directory or absent), for the source and for every element "
     "of the dependency vector and every target; the step is skipped only on paths where force is off, the policy is not Always and that test was made on the step's own data and was true.",
     AI + " over relations between file times and coverage of the dependency and target vectors", note="all paths, arbitrary vectors and time stamps", minob=12,
     assume=["file times do not change between test and build other than by the build"])

prop("P10", "Query modes and dry runs run no build recipe; a build does what was asked for",
     "With an option documented to print something and exit (help, version, configuration, targets, dependencies, database), or in a dry run, no build recipe is ever run, whatever other options are given. "
     "Otherwise the build is run exactly once, for all targets or for every one of the requested ones, and forced exactly when that was requested.",
     ["configurations", "inputs"], "for every combination of command line options and every list of requested targets",
     "There is no test of the main program; the number of combinations of options makes sampling hopeless.",
     ["core/bin/maike.cpp", "core/db/source_tree.cpp", "core/exec/execve.cpp"],
     [("modes", "core/bin/maike.cpp: main"), ("what is built", "core/db/source_tree.cpp: compile"), ("dry run", "core/exec/execve.cpp: execve(LocalExecve, Command)")],
     [["mainprog.check", ["query-Help", "query-Version", "query-About", "query-ConfigDump", "query-ListTargets", "query-PrintDepGraph", "query-PrintDepGraphInv", "query-DumpDatabase", "query-ListExternalDeps", "dryrun", "force", "targets", "nothing", "twice"]],
      ["mainprog.compile_all"], ["mainprog.dry_run"]],
     "Every path through main is classified by the options it tests: paths with a query option do not reach the build, every other successful path reaches it once with the flags "
     "that the options say; the build entry points process one list of steps per requested target; the executor starts nothing when its dry-run flag is set.",
     AI + " over tested options and reached calls", note="all combinations of options; printing functions are opaque", minob=12)

prop("P02", "Every dependency is resolved to its file, or loading the project fails",
     "After a project is loaded, every use and build dependency of every file and target refers to the node of the file or target with exactly that name; if there is none, loading fails, "
     "except that a file marked external gets a placeholder. Every target depends on its source file and on everything that the files included by it bring along, and files that ask for it on the dependencies of their targets.",
     ["inputs", "configurations"], "for every set of files, targets and dependencies of any size and origin",
     "The tests build one project; a dependency lost at the edge of a list or for one origin goes unnoticed until something is built too early or not rebuilt.",
     ["core/db/dependency_graph.cpp", "core/db/source_file_list.cpp", "core/source_tree_loader/main.cpp"],
     [("resolution", "core/db/dependency_graph.cpp: DependencyGraph::DependencyGraph"), ("nodes of targets", "core/db/source_file_list.cpp: makeSourceFileInfo"),
      ("placeholders", "core/db/source_file_list.cpp: createPlaceholdersForExternalEntries"), ("dependencies of targets", "core/db/source_file_list.cpp: addTargetDepsToSourceFiles")],
     [["sources.graph_ctor"], ["sources.target_node"], ["sources.target_deps"], ["sources.placeholders"], ["sources.load"]],
     "Walks over maps and vectors are tracked element by element (prefix coverage, generalised at loop heads): at the end of each, every element must have had the required effect; "
     "a dependency may only be given the id of the node whose name compared equal to its own; a failed lookup must throw unless errors are to be ignored, which loading never asks for.",
     AI + " over map walks, vector coverage and lookups", note="all paths, lists of any length", minob=15,
     assume=["std::lower_bound on the nodes is used with the order of the map they were made from"])

prop("P07", "No target is defined twice",
     "Loading a project fails if two source files, or one file twice, define a target of the same normalised name; otherwise every target of every file is registered once under its name with the file it comes from. "
     "Only a target that has the name of its own source file is left out.",
     ["inputs", "configurations"], "for every set of files and targets",
     "No test defines a target twice.",
     ["core/db/source_file_list.cpp"],
     [("registration", "core/db/source_file_list.cpp: insertUnique"), ("all targets", "core/db/source_file_list.cpp: collectTargets")],
     [["sources.insert_unique"], ["sources.collect"], ["sources.load", ["targets", "no-targets", "infos"]]],
     "On every path of the registration a name found in the list leads to an exception and a name not found to exactly one insertion under the looked-up name; the loops over targets and files "
     "skip only a target whose name compared equal to its file's.",
     AI + " over lookups, insertions and coverage", note="all paths, lists of any length", minob=5)

prop("P08", "A command is reported with the outcome the operating system gave it",
     "A command counts as successful exactly if it was launched and exited with code 0; every other exit code is reported unchanged, and death by any signal is reported as such and counts as failure. "
     "A command that could not be launched, or for which no process could be created, is reported as an error and never as a result.",
     ["inputs", "fault_sequences"], "for every exit code, every signal with and without core dump, and every failing system call of the launch",
     "The tests look at exit code 123 and 0; a recipe killed by a signal, or with an exit code above 127, is never run.",
     ["core/exec/execve.cpp", "core/exec/exit_status.hpp", "core/exec/result.hpp"],
     [("decoding", "core/exec/execve.cpp: communicateWith"), ("verdict", "core/exec/result.hpp: failed"), ("launch errors", "core/exec/execve.cpp: execve")],
     [["execcmd.status"], ["execcmd.streams", ["launched", "nofork", "notrun", "silent", "spurious", "terminate", "child-returns", "reap2", "otherpid", "nohang"]]],
     "For each of the 508 values the wait status of an ended process can have, the abstract result of the run is computed through the decoding into the result object and through the functions that "
     "read it; every path on which fork, the pipes or the launch failed must end with an exception in the caller.",
     AI + ", with the finite set of wait statuses as a constant domain", note="complete enumeration of wait statuses; all paths of the launch", minob=6)

prop("P09", "Running a command cannot hang, lose output or leak resources",
     "While a command runs, everything it writes to its standard output and error output is captured completely, in order and separately, and its input is fed completely and then closed, however much it writes and whether or not it reads; "
     "a command that ends without reading its input does not kill the caller. When the call ends, normally or with an error, every pipe end has been closed exactly once, the process has been waited for and no thread is left.",
     ["schedules", "fault_sequences", "inputs"], "for every amount of input and output, every way of splitting it into reads, every failing system call and any number of commands started at the same time",
     "The tests use a few lines of output that fit in one pipe buffer; leaks, zombies and closed descriptors of other threads show up only under load or after failures.",
     ["core/exec/execve.cpp"],
     [("descriptors", "core/exec/execve.cpp: Pipe"), ("streams", "core/exec/execve.cpp: read, write, communicateWith"), ("launch", "core/exec/execve.cpp: execve")],
     [["execcmd.streams"]],
     "A descriptor table is carried along every path of both processes and of the threads: each end is closed once, none leaks into another command, the caller never blocks on a stream whose other end it holds, "
     "nothing waits for the command before both output streams are being read and the input is closed, and every block read is delivered once before the next read.",
     "typestate dataflow over descriptors, process and threads on all paths of the IR", note="all paths; read results abstracted to end, error, short and full", minob=8,
     assume=["blocking pipe writes are not interrupted half way", "no exception leaves a reading thread"])

prop("P11", "A command is started with exactly the executable and arguments asked for",
     "The process that is created executes the requested file with the requested arguments: each one once, unchanged and in order, including empty ones, and nothing added, "
     "whatever characters they contain and however many there are.",
     ["inputs"], "for every executable and every list of arguments",
     "The tests pass at most two arguments.",
     ["core/exec/execve.cpp"], [("command line", "core/exec/execve.cpp: execve")],
     [["execcmd.arguments"]],
     "Every word put on the command line must be the unmodified text of the next element of the argument list, the list must be covered to its end when the line is terminated, and that line and file must reach the system call.",
     AI + " over coverage of the argument list", note="lists of any length", minob=4)

prop("P12", "No wake-up is lost: a wait ends when its condition holds, and not before",
     "A thread waiting for an event goes on after the event has been signalled, also when that happened before the wait began, and then finds it reset exactly once; a thread waiting for a counter goes on only when the counter "
     "has the value waited for, and always does when it stays there. Signals and counts of several threads at the same time are never lost or merged into a wrong count, and a count given back by a lock object is given back exactly once.",
     ["schedules", "histories"], "for every number of threads and every interleaving of signals, counts and waits",
     "The tests use two threads and one interleaving; a wake-up lost between a test and a wait needs a particular preemption.",
     ["core/sched/event.hpp", "core/sched/signaling_counter.hpp"],
     [("event", "core/sched/event.hpp: Event"), ("counter", "core/sched/signaling_counter.hpp: SignalingCounter, unique_lock")],
     [["sched.event"], ["sched.counter"]],
     "Each operation is analysed as a monitor operation: shared fields may hold any value whenever the mutex is acquired or re-acquired by a wait, every access must be made with the mutex held, an operation that makes a wait's "
     "condition true must notify everyone waiting for it, and a wait may return only on a path where the condition was read after the last acquisition and held.",
     "monitor (rely-guarantee) abstract interpretation of the IR with a lockset and a pending-notification automaton", note="any number of threads: the shared state is havocked at every acquisition", minob=6,
     assume=["std::condition_variable and std::mutex behave as specified"])

prop("P13", "Every submitted task is run exactly once before the worker threads end",
     "Each task handed to the worker pool is run exactly once, by one worker, and is destroyed after it has run; ending the pool first runs everything still queued and then waits for all workers. "
     "An exception thrown by a task never ends a worker or the program: it is kept until it is fetched, a later one does not replace it with nothing, and fetching takes it out.",
     ["schedules", "fault_sequences"], "for every number of workers and tasks, every interleaving and every subset of throwing tasks",
     "The tests run a few short tasks; a task left in the queue or run twice needs a worker to be preempted at the wrong place.",
     ["core/sched/thread_pool.hpp", "core/utils/unique_function.hpp"],
     [("workers", "core/sched/thread_pool.hpp: worker loop"), ("submission", "core/sched/thread_pool.hpp: addTask"), ("end", "core/sched/thread_pool.hpp: ~ThreadPool"),
      ("ownership of a task", "core/utils/unique_function.hpp")],
     [["sched.worker"], ["sched.pool_end"], ["sched.submit"], ["sched.unique_function"]],
     "Monitor analysis of the worker loop, the submission and the destructor: the queue is only touched with the mutex held, a task taken from the front is removed in the same critical section and called once outside it, a worker ends only "
     "when it saw the end flag and an empty queue in one critical section, the destructor sets the flag, wakes every worker and joins every thread; typestate of the type-erased task over construction, move and destruction.",
     "monitor (rely-guarantee) abstract interpretation and ownership typestate on the IR", note="any number of threads; all paths incl. exceptional ones", minob=10,
     assume=["std::thread creation does not fail half way through making a pool"])

prop("P14", "Every file that is not excluded is loaded exactly once",
     "Scanning a source tree loads every file and directory below the root that no input filter matches, each exactly once under its normalised path, and no other; an excluded directory is not entered. "
     "The scan ends only after every part of it has ended, and it fails if and only if loading at least one of the entries failed, whichever that was.",
     ["inputs", "schedules", "fault_sequences"], "for every directory tree, set of filters, interleaving of the scanning tasks and subset of failing files",
     "The tests scan one small tree without failing files; a lost subdirectory, an entry loaded twice or a swallowed error needs links, failures or a particular interleaving.",
     ["core/source_tree_loader/directory_scanner.cpp", "core/source_tree_loader/directory_scanner.hpp", "core/source_tree_loader/input_filter.hpp"],
     [("walk", "core/source_tree_loader/directory_scanner.cpp: DirectoryScanner::operator()"), ("result", "core/source_tree_loader/directory_scanner.hpp: takeResult"),
      ("filters", "core/source_tree_loader/input_filter.hpp: InputFilter::match")],
     [["scan.first"], ["scan.worker"], ["scan.result"], ["scan.collect"], ["scan.filters"]],
     "On every path of a scanning task the path is either matched by a filter, already recorded, or loaded and recorded under its normal form; every element of a directory iteration is submitted as a task and counted before it is submitted, "
     "the count is given back after the task's last effect, every caught error is recorded with the mutex held, and the result is taken only after the count was waited for and only if no error was recorded.",
     AI + ", coverage of directory iterations and a lockset", note="all paths, trees of any size", minob=8,
     assume=["recursive directory links end by the identity of normalised paths, which is not analysed for symbolic links"])

prop("P15", "Everything a source file and its recipe declare becomes part of the project",
     "The entry made for a source file has every target, dependency and extra dependency that its tags declare, that its recipe declares when asked, and that its text refers to, plus those on its directory and on its recipe; nothing is dropped, "
     "added, or attributed to another file. A recipe or rebuild policy given by the file replaces the one of its type, and a declared dependency keeps its origin and properties.",
     ["inputs", "configurations"], "for every set of tags, any number of declared targets and dependencies and every combination of optional entries",
     "The tests load a handful of files; a dropped last element, property or default shows up only for the declarations that use it.",
     ["core/source_tree_loader/source_file_load_ctxt.cpp", "core/source_tree_loader/source_file_loader_delegator.cpp"],
     [("one file", "core/source_tree_loader/source_file_load_ctxt.cpp: loadSourceFile"), ("lists", "core/source_tree_loader/source_file_load_ctxt.cpp: getTargets, getTarget, getUseDeps, getChildTargetUseDeps"),
      ("one dependency", "core/source_tree_loader/source_file_load_ctxt.cpp: getDependency"), ("choice of loader", "core/source_tree_loader/source_file_loader_delegator.cpp: load")],
     [["loading.file"], ["loading.declared"], ["loading.dependency"], ["loading.elements"], ["loading.delegate"]],
     "Each list looked up in the tags must be covered to its end on every path that returns, with each element added once to the list returned; the entry made for the file must have received every such list, from the tags and, where the recipe "
     "is asked, from the recipe; lookups use the documented keys, and each value ends up in the member it was declared for.",
     AI + " over coverage of JSON lists and collected vectors", note="lists of any length, all combinations of optional entries", minob=15)

prop("P16", "Names in a project refer to the same file wherever they are written",
     "A reference that starts with ./ is resolved against the directory of the file that has it, any other one against the source directory; a generated file is moved to the place below the target directory that its path has below the source "
     "directory, a target likewise, and names from outside the project are left as they are. Resolved names are normalised, so that a reference and the definition it refers to compare equal.",
     ["inputs", "configurations"], "for every reference, origin, source directory and target directory",
     "The tests resolve a few names in one layout.",
     ["core/source_tree_loader/source_file_load_ctxt.cpp"],
     [("references", "core/source_tree_loader/source_file_load_ctxt.cpp: prependSearchPath"), ("targets", "core/source_tree_loader/source_file_load_ctxt.cpp: makeTargetName")],
     [["loading.paths"]],
     "The path expression returned is computed symbolically in the algebra of joins, relative and normalised paths for each class of reference and origin and must equal the documented one.",
     AI + " over a term algebra of paths", note="all classes of references and origins", minob=4)

prop("P17", "A recipe is found in the project first, and one that fails stops the load",
     "A recipe that is not given by its complete path is looked for in the project before the system directories, and the same name gives the same recipe throughout a load. A recipe asked for its settings or for the tags of a file is told "
     "the whole of its configuration, its whole answer is used, and one that exits with a failure or answers with something that is not valid makes loading the project fail.",
     ["inputs", "configurations", "fault_sequences"], "for every set of installed recipes, every configuration, every size of answer and every way for a recipe to fail",
     "The tests use well-behaved recipes with short answers; an answer larger than a buffer or a recipe that writes something sensible and then fails is not tried.",
     ["core/source_tree_loader/command_dictionary.cpp", "core/db/compiler.cpp", "core/db/compiler.hpp", "core/bin/config.cpp"],
     [("lookup", "core/source_tree_loader/command_dictionary.cpp: CommandDictionary::get"), ("conversation", "core/db/compiler.cpp: configure, getTags"),
      ("settings of a file on top of those of its type", "core/db/compiler.hpp: operator|"), ("all recipes", "core/bin/config.cpp: resolveRecipes")],
     [["recipes.lookup"], ["recipes.conversation"], ["recipes.merge"], ["recipes.resolve"], ["recipes.resolve_all"]],
     "Every path of the lookup is compared with the documented order of directories; on every path of a conversation the process gets the complete JSON request, the exit status is examined and only a successful one leads to the "
     "parsed output being returned; each type's recipe is replaced by the one resolved from its own name and settings.",
     AI + " over search results, JSON contents and exit statuses", note="all paths, contents of requests compared entry by entry", minob=12)

prop("P18", "A recipe is told everything about the step it is run for",
     "The recipe run for a step gets the source file, all its targets, every dependency with its kind of reference and all its properties, the settings of the recipe, and the description of the build. "
     "Values which cannot be passed on, such as names that are not valid text, are reported as an error; nothing is left out silently.",
     ["inputs", "configurations"], "for every source file, number of targets and dependencies, set of properties and every text they may consist of",
     "The tests look at what one recipe makes of a few files; an entry left out matters only to recipes which use it.",
     ["core/db/source_file_record.cpp", "core/db/task.cpp", "core/db/dependency.cpp", "core/build_info.cpp", "core/key_value_store/compound.hpp", "core/key_value_store/array.hpp"],
     [("command of a step", "core/db/source_file_record.cpp: makeBuildCommand; core/db/task.cpp: Task::Task"), ("dependency", "core/db/dependency.cpp: toJson"), ("build", "core/build_info.cpp: toJson"),
      ("values are stored or reported", "core/key_value_store/compound.hpp: set; array.hpp: append")],
     [["recipes.command"], ["recipes.task_command"], ["forms.dependency"], ["forms.build_info"], ["forms.kept"]],
     "The JSON value passed as the argument of the command is tracked symbolically: each documented key must hold the value taken from the member it stands for, each list must be covered to its end with each element converted once, "
     "and every instantiation of the storing functions must keep exactly the value given or throw.",
     AI + " over JSON contents and coverage of lists", note="every instantiation of the storing functions; lists of any length", minob=25)

prop("P19", "The configuration used is the one written, and the one printed reads back",
     "Every setting in the configuration takes effect under its documented name: filters, types of files with their loaders and recipes, generated includes and the directory recipe; a setting that is not given has its default. "
     "The printed configuration has every setting in the form in which it is read, and a name that is unknown, such as a loader that is not defined, is an error.",
     ["configurations", "inputs"], "for every configuration, with any subset of the settings and lists of any length",
     "The tests read a few settings; settings mixed up, dropped at the end of a list, or printed in a form that cannot be read need the specific configuration.",
     ["core/source_tree_loader/config.cpp", "core/source_file_info_loaders/config.cpp", "core/db/compiler.cpp", "core/db/rebuild_policy.cpp", "core/bin/config.cpp"],
     [("reading", "fromJson of the configuration, loaders, filters, recipes"), ("writing", "toJson of the same"), ("names of enumerators", "toString, fromString"), ("use", "core/bin: making the loaders of the types of files")],
     [["forms.texts"], ["config.read_forms"], ["config.read_lists"], ["config.read_maps"], ["config.written_forms"], ["config.loaders_used"]],
     "On every path of a reading function each member gets the value of its documented key, or its default exactly when the key is absent; every element of a list or object is read once, in order; the keys written are the keys read, "
     "with the value of the same member; conversions of enumerators to text and back are inverse; names are resolved or reported.",
     AI + " over JSON contents, constant texts and coverage of lists", note="all combinations of absent and given settings", minob=60)

prop("P20", "Configuration files are all read, and merged in the order given",
     "All configuration files named are read and combined in the order given: objects are merged entry by entry, lists are joined, and of two plain values the later one counts; no setting of any file is lost otherwise, and none is invented. "
     "Settings of incompatible kinds for the same name are an error.",
     ["configurations", "inputs"], "for every number of configuration files and every nesting of objects, lists and values in them",
     "The tests merge two small objects; a nested list or a null in one of several files is not tried.",
     ["core/key_value_store/compound.hpp", "core/key_value_store/compound.cpp", "core/key_value_store/array.hpp", "core/bin/config.cpp"],
     [("objects", "core/key_value_store/compound.cpp: operator|="), ("lists", "core/key_value_store/array.cpp: operator|="), ("files", "core/bin/config.cpp: loadConfig")],
     [["config.objects_merged"], ["config.lists_joined"], ["config.loaded_files"]],
     "The merge is analysed for every pair of kinds of values (null, true, false, number, text, list, object, absent) and must give the documented result or an error; iterations over entries and elements must reach the end with each entry handled once; "
     "the files are folded into the result in the order of the list.",
     AI + " over kinds of JSON values and coverage of entries", note="all 72 combinations of kinds of values", minob=70)

prop("P21", "Dependencies and tags are taken from where they are written, nowhere else",
     "Every include directive of a C or C++ source gives the dependency it names, with the origin its form stands for; text that only looks like one, in comments, raw strings or other lines, gives none. "
     "The tags of a source are exactly the text of its specially marked comments, and code outside them is kept apart from it. "
     "This holds wherever lines, comments, directives and raw strings begin and end, for sources whose ordinary string literals contain no comment marks.",
     ["inputs"], "for every source text, of any length, in which ordinary string literals contain no comment marks or raw string starts",
     "The tests scan one text with a few directives and comments; the state of a scanner depends on everything read before.",
     ["core/source_file_info_loaders/cxx/source_file_loader.cpp", "core/source_file_info_loaders/extension/source_file_loader.cpp"],
     [("includes", "core/source_file_info_loaders/cxx/source_file_loader.cpp: getDependencies"), ("tags", "the same file: filterInput"),
      ("tags in other languages", "core/source_file_info_loaders/extension/source_file_loader.cpp: filterInput")],
     [["scanner.get_deps"], ["scanner.cxx_tags"], ["scanner.ext_tags"]],
     "The scanner is run in lockstep with an automaton written from the language's rules (comments, directives, raw strings with tags, tag comments) on abstract characters until no new pair of states appears: "
     "on every reachable pair the dependencies produced and the characters sent to the tag and source outputs must be those the automaton prescribes.",
     AI + ", as the product of the scanner with a specification automaton", note="all texts over the alphabet that matters; names and raw-string tags as symbolic text", minob=6)

prop("P22", "Text passes between the parts of the program unchanged and complete",
     "Text read from a file or a command and passed on inside the program arrives as it was: every byte, whatever its value, once and in order, however it is divided into pieces, and the end is seen after the last byte and not before. "
     "No access is made beyond a buffer or to memory that has been released.",
     ["inputs", "schedules"], "for every way to divide a text into pieces delivered and pieces asked for, with pieces of no bytes, one byte, and exactly the size of a buffer",
     "The tests send short texts in one piece; a byte lost at the edge of a buffer needs a text of a particular length.",
     ["core/io/input_buffer.hpp", "core/io/output_buffer.hpp", "core/io/fifo.hpp", "core/source_file_info_loaders/maikerule/source_file_loader.cpp"],
     [("reading", "core/io/input_buffer.hpp: getchar, fetchAndResetPtr"), ("writing", "core/io/output_buffer.hpp: putchar, flush"), ("pipes inside the program", "core/io/fifo.hpp: read, write, stop"),
      ("files of tags", "core/source_file_info_loaders/maikerule/source_file_loader.cpp: filterInput")],
     [["streams.input_buffer"], ["streams.output_buffer"], ["streams.fifo"], ["streams.plain_tags"]],
     "Each operation is interpreted abstractly on the buffer's memory for a set of divisions of the text that covers every position of the read and write pointers relative to the ends of the buffer "
     "(empty, inside, full, refilled): what comes out must be what went in, with the same order and count, and every address must lie in the object it belongs to.",
     AI + " over positions in buffers", note="positions relative to the ends of the buffers; contents as distinct symbols", minob=9)

prop("P23", "Structured text is read completely and as what it is, or rejected",
     "Configuration, tags and answers written as structured text are read from the first to the last character; text which is incomplete, malformed, or gives a key twice is an error, and only text without content counts as empty. "
     "A value is used only as the kind of value it is, a required key that is missing is an error, and an optional one that is missing is treated as absent.",
     ["inputs", "configurations"], "for every text, every way it arrives, and every kind of value at every place",
     "The tests parse a few texts; an error that goes unnoticed needs text that ends, or changes kind, at a particular place.",
     ["core/key_value_store/json_handle.cpp", "core/key_value_store/json_handle.hpp", "core/key_value_store/compound.hpp", "core/key_value_store/array.hpp"],
     [("reading", "core/key_value_store/json_handle.cpp: ReadHelper, jsonLoad"), ("values", "core/key_value_store/json_handle.hpp: as, validateType"), ("keys", "core/key_value_store/compound.hpp: get, getIf"),
      ("objects", "core/key_value_store/compound.hpp: constructors")],
     [["jsonin.fetch"], ["jsonin.load"], ["jsonin.typed"], ["jsonin.lookup"], ["jsonin.whole"]],
     "The function feeding the parser must hand over exactly the characters of its source on every path, stop at its end and know whether there was content; every outcome of the parser must lead to the documented result; "
     "every function that reads a value of some kind must throw for the seven other kinds, and every look-up by key must use the value of that key, throw, or report absence.",
     AI + " over kinds of JSON values", note="every instantiation of the look-ups; all eight kinds of values", minob=15)

prop("P24", "Command line options mean what is documented, and nothing else is accepted",
     "An argument is taken for an option only if it is that option's whole documented name, alone or followed by an equals sign and a value, and every other argument is an error. "
     "Each option keeps its own value and only it is then seen as given, an option that needs a value is refused without one, and a flag is refused with one. "
     "Lists, numbers of threads, times, build ids and named values are understood as they are written, and text that is not such a value is an error.",
     ["inputs", "configurations"], "for every argument, every combination of options, and every value",
     "The tests never parse a command line of the program; a wrong match needs a particular spelling, and a mixed up value a particular option.",
     ["core/cmd_line_parser/command_line.cpp", "core/cmd_line_parser/command_line.hpp", "core/bin/cmd_line_options.hpp", "core/sched/thread_count.cpp", "core/build/id.cpp", "core/utils/system_time_stamp.cpp"],
     [("names", "core/cmd_line_parser/command_line.cpp: collect_options"), ("places", "core/cmd_line_parser/command_line.hpp: GetOptionNames, BasicCommandLine"), ("lists", "core/cmd_line_parser/command_line.cpp: next_array_token"),
      ("values", "core/sched/thread_count.cpp, core/build/id.cpp, core/utils/system_time_stamp.cpp, core/db/compilation_log.cpp, core/db/log_format.cpp")],
     [["options.recognised"], ["options.stored"], ["options.lists"], ["options.numbers"], ["options.named"]],
     "The look-up of options is evaluated over the program's own table of options for every documented name, every proper prefix and several distortions of it: it must reach exactly the converter of that option with the text after the first equals sign, or throw. "
     "For each option the place its converter writes, the mark it sets and the place and mark its readers use must agree; the functions that read values are evaluated against their documented forms.",
     AI + " with constant texts and symbolic objects", note="all 21 options; texts over a representative alphabet", minob=13)

prop("P25", "The log shows every build step whole, with its outcome and all its output",
     "What is logged for a build step is written in one piece, so that it is never mixed with what is logged for another. "
     "At the chosen level the log names the step and says whether it failed, gives its command where that was asked for and only there, and contains all the output and all the error messages of the step, unchanged.",
     ["inputs", "schedules"], "for every log level, every outcome of a step, and whatever it wrote",
     "The tests do not look at the log; lost or mixed text needs output with particular bytes in it, or two steps that finish at the same time.",
     ["core/db/compilation_log.cpp", "core/db/compilation_log.hpp"],
     [("log", "core/db/compilation_log.cpp: CompilationLog::write")],
     [["printed.log"]],
     "On every path through the functions that log a step, all writing happens in one critical section of the log's own lock, which is released at the end; the text written is compared, for each level, outcome and output, with what has to be in it.",
     AI + " combined with a lockset", note="three levels, both outcomes, output with empty lines, unfinished lines and zero bytes", minob=6)

prop("P26", "A printed command, run by a shell, is the command that would have been run",
     "The text printed for a command is one line of shell script whose execution starts the same executable with the same arguments in the same order, whatever characters occur in them. "
     "Nothing in an argument is expanded, split, or executed by the shell.",
     ["inputs"], "for every executable name and every list of arguments",
     "The bootstrap test uses only harmless names; a broken quotation needs an argument with a particular character at a particular place.",
     ["core/exec/command.cpp", "core/exec/command.hpp"],
     [("quotation", "core/exec/command.cpp: toString")],
     [["printed.command"]],
     "The printing function is evaluated for commands covering every byte value at the beginning, in the middle and at the end of a word, empty words and pairs of special characters; the text is split by the rules of the POSIX shell and must give back the command.",
     AI + " with constant texts, compared with the shell's word splitting", note="commands of up to three arguments over all bytes except NUL", minob=3)

PY = "static analysis: path-enumerating abstract interpretation of the Python syntax tree, with tools and file operations that may fail and symbolic inputs"

prop("P27", "A bundled recipe says a step is done only if it has been done",
     "When one of the recipes that come with the program reports success for a step, every tool it started for that step has succeeded, every file it had to write could be written, and the target has been made. "
     "A tool that fails, is killed by a signal, or cannot make its output makes the recipe end with a failure status.",
     ["fault_sequences", "inputs"], "for every bundled recipe and every combination of outcomes of the tools and file operations it uses",
     "No test lets a compiler, linker or converter fail; several recipes are not run by any test at all.",
     ["recipes/cxx_compiler.py", "recipes/cxx_linker.py", "recipes/make_lib.py", "recipes/generic.py", "recipes/md2htmlpart.py", "recipes/doc2html.py", "recipes/copy_file.py",
      "recipes/sass2css.py", "recipes/make_directory.py", "recipes/vcslog.py"],
     [("exit status", "recipes/*.py: compile, __main__")],
     [["pyrules.outcome"]],
     "Every path of every recipe asked to compile is enumerated, each started tool succeeding, failing or being killed, each file operation succeeding or raising; "
     "a path with exit status 0 must contain no failed tool and no failed write, and must hand the target to a tool or write it.",
     PY, note="all paths of the scripts with up to one element per unknown list and up to two targets; functions of other Python modules are opaque and assumed not to fail", minob=18, ir=False)

prop("P28", "Bundled recipes pass on all flags, objects and libraries, in a usable order",
     "The recipes that compile, link and archive start their tool with the configured flags unchanged and in order, the source, every object and library that is to be linked and nothing else, and the target as output; something that is needed comes after what needs it. "
     "Recipes that make several targets make all of them, and a configured command is run exactly as configured.",
     ["inputs", "configurations"], "for every list of flags, dependencies and targets given to the recipe",
     "The tests build one program with one set of flags and dependencies without repetitions, and do not look at the command lines.",
     ["recipes/cxx_compiler.py", "recipes/cxx_linker.py", "recipes/make_lib.py", "recipes/generic.py", "recipes/pkg_config.py", "recipes/copy_file.py", "recipes/sass2css.py"],
     [("compiler command", "recipes/cxx_compiler.py: compile, collect_cflags"), ("link order", "recipes/cxx_linker.py: collect_deps, filter_deps"), ("archive", "recipes/make_lib.py: compile")],
     [["pyrules.compiler"], ["pyrules.linker"], ["pyrules.others"]],
     "The recipes are evaluated over symbolic flags, paths, dependencies and targets; the argument list of the tool that makes the target must contain every one of them in its place: "
     "flags in order, source once, output after -o, objects and libraries each after everything that needs them, what pkg-config printed, macros with their values.",
     PY, note="symbolic texts; dependency lists of up to five entries with repetitions", minob=100, ir=False)

prop("P29", "The C++ standard chosen lies within the limits, and differs only if it must",
     "If the compiler's own standard lies within the configured earliest and latest revision it is used; otherwise the nearest limit is, either limit may be left out, and the rest of the configuration is kept. "
     "Limits that contradict each other or that the compiler cannot satisfy are rejected.",
     ["inputs", "configurations"], "for every pair of limits and every own and newest standard of the compiler",
     "The only configuration the tests use is an earliest revision that the installed compiler exceeds or equals.",
     ["recipes/cxx_compiler.py"],
     [("selection", "recipes/cxx_compiler.py: select_cpp_rev, select_compiler_and_stdrev, configure")],
     [["pyrules.standard"]],
     "The configuration step is evaluated for every combination of limits (or their absence), own standard and newest standard of a compiler whose answers are given by a table; the selection that is passed on must be the revision nearest to the compiler's own within the limits.",
     PY, note="exhaustive over the revisions known to the recipe, for a fixed compiler; the choice among several installed compilers is not covered", minob=50, ir=False)

NA += [
    dict(id="N01", title="A build interrupted at any point is completed by the next build",
         statement="If the program, a recipe or a compiler is killed at any moment, the next build ends with the same targets as if nothing had happened.",
         over=["crash_points", "histories"], qtext="for every moment at which any of the processes ends", why="The tests interrupt nothing.",
         files=["core/db/task_list.cpp", "core/db/source_file_record.cpp", "recipes"], mech=[("up to date", "core/db/task.cpp: isUpToDate")],
         reason="Whether a target that was being written when its writer was killed looks up to date depends on when compilers, linkers and the file system create, fill and stamp the file; none of this is in the source, so no static argument over it can decide the property."),
    dict(id="N02", title="An incremental build ends with the targets a build from scratch would make",
         statement="After any sequence of edits and builds, the contents of all targets are those a build of the same sources in an empty directory would produce.",
         over=["histories", "programs"], qtext="for every history of edits and builds", why="The tests build each project once or twice.",
         files=["core/db/task.cpp", "recipes"], mech=[("up to date", "core/db/task.cpp: isUpToDate"), ("recipes", "recipes/*.py")],
         reason="It is a statement about the contents of files that external compilers write and about what these read (headers outside the project, tool versions, environment). The part the program decides, which steps are skipped, is P05; the rest is not in its source."),
    dict(id="N03", title="A build uses no more memory and processors than there are",
         statement="The number of steps run at the same time is such that the machine neither runs out of memory nor idles while steps could be run.",
         over=["configurations", "schedules"], qtext="for every project and machine", why="The tests run tiny projects on one machine.",
         files=["core/utils/mem_status.cpp", "core/sched/thread_pool.cpp"], mech=[("pool", "core/sched/thread_pool.cpp")],
         reason="How much memory a step needs and how much is available are quantities of the run; no sound static bound on them is in reach."),
]
