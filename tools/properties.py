"""Source of /verif/properties.jsonl: run `python3 tools/properties.py`."""
import json
import os

N = "capture/noworkflow/now/"
PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    PROPS.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {
            "files": [N + f for f in files],
            "state": [dict(zip(("name", "meaning", "where"), (a, b, N + c))) for a, b, c in state],
            "mechanism": [dict(zip(("name", "where"), (a, N + b))) for a, b in mechanism],
            "observe_at": list(observe), "hook_needed": None}})


prop("C01", "Stored content reads back byte for byte under its own identifier",
     "Content stored by any content engine is returned byte for byte, to every later process and by every engine "
     "that shares the store format, under the identifier that storing it returned; equal content always gets the "
     "same identifier and different content different ones. A unique prefix of an identifier finds it and an "
     "unknown prefix finds nothing. This holds whatever the file name, and however the processes, worker processes "
     "and threads that store content are interleaved.",
     ["inputs", "schedules", "configurations"],
     "every sequence of contents and file names, every engine configuration (plain, pygit, dulwich, gitdb, pure "
     "git; sequential, worker processes, pool, threads), every interleaving of writers",
     "the tests store a few literals with a mocked engine in one process; none has concurrent writers, worker "
     "processes or a second engine reading the store",
     ["persistence/content/plain_engine.py", "persistence/content/gitbase.py", "persistence/content/parallel.py",
      "persistence/content/pygit_engine.py", "persistence/content/dulwich_engine.py",
      "persistence/content/puregit_engine.py", "persistence/content/gitdb_engine.py"],
     [("content addressing", "persistence/content/gitbase.py"), ("queue of worker processes", "persistence/content/parallel.py")],
     [("objects", "content by SHA-1", "persistence/content/gitbase.py")],
     ["ContentDatabase.put/get/find_subhash", "now show"])

prop("C02", "A crash or disk fault never corrupts stored content",
     "When the process storing content dies at any point, or the disk refuses or cuts short any write, every "
     "identifier the store can be asked for afterwards either yields exactly the content it names or is reported "
     "missing, never other or partial bytes. Content stored before stays readable, and storing the same content "
     "again succeeds and makes it readable.",
     ["crash_points", "fault_sequences", "configurations"],
     "every disk operation of every engine as the point of a crash, torn write, short write, ENOSPC or EIO",
     "no test stops a process or fails a write in the middle of storing content",
     ["persistence/content/plain_engine.py", "persistence/content/dulwich_engine.py",
      "persistence/content/pygit_engine.py", "persistence/content/gitdb_engine.py",
      "persistence/content/puregit_engine.py"],
     [("write to a temporary name, then rename", "persistence/content/plain_engine.py")],
     [("objects", "content by SHA-1", "persistence/content/plain_engine.py")],
     ["ContentDatabase.get after restart"])

prop("C03", "An interrupted first use never leaves a store that cannot be used",
     "When the command that creates the provenance store of a directory is killed at any point or meets a disk "
     "error, running the next command in that directory works as in a fresh directory: it creates what is missing, "
     "records its trial and can be listed, shown and restored.",
     ["crash_points", "fault_sequences", "configurations"],
     "every disk operation between the first directory and the end of the first run, every engine",
     "tests build their store once in a healthy process or mock it",
     ["persistence/relational_database.py", "persistence/content/pygit_engine.py",
      "persistence/content/dulwich_engine.py", "persistence/content/puregit_engine.py",
      "persistence/config.py"],
     [("create tables when the database is new", "persistence/relational_database.py"),
      ("create repository when the directory is missing", "persistence/content/pygit_engine.py")],
     [("db.sqlite", "trials", "persistence/relational_database.py")], ["now run", "now list"])

prop("C04", "The snapshot commits and collection keep every file of every trial",
     "When the content store is a git repository, each finished run adds one commit on its branch whose tree holds "
     "every content the run stored, under a path derived from the file's own path, with no content lost to another "
     "of the same name; earlier commits stay ancestors. Collecting garbage at any moment, and being interrupted "
     "while doing so, loses no content of any finished trial.",
     ["inputs", "histories", "schedules", "crash_points"],
     "every set of file names and versions, every sequence of runs, collections and crashes, every schedule of the "
     "parallel engines",
     "the tests of the git engines check one commit of one or two fixed names in sequence",
     ["persistence/content/gitbase.py", "persistence/content/git_system.py", "cmd/cmd_gc.py"],
     [("tree built from collected names", "persistence/content/gitbase.py"), ("now gc", "cmd/cmd_gc.py")],
     [("object_hashes", "contents of the current run by name", "persistence/content/gitbase.py")],
     ["git log of .noworkflow/content.git", "now gc"])

prop("T01", "An interrupted run leaves earlier history intact and itself unfinished",
     "When a run is killed at any point, or a disk write fails in it, every trial recorded before reads exactly as "
     "it did, and the interrupted trial is absent, listed as unfinished, or - when its recording had already been "
     "completed - complete: never listed as finished with something missing. Later runs and every other command work, "
     "and record complete trials.",
     ["crash_points", "fault_sequences", "histories"],
     "every disk operation of a run as the point of a crash or error, any history before and after",
     "no test kills a run; they check what a run that ends normally stored",
     ["collection/prov_execution/collector.py", "collection/metadata.py", "persistence/models/trial.py",
      "models/ast/trial_ast.py", "persistence/lightweight/object_store.py"],
     [("trial row first, finish time last", "persistence/models/trial.py"),
      ("periodic saves", "collection/prov_execution/collector.py")],
     [("trial.finished", "a finish time exists", "persistence/models/trial.py")], ["now list", "now show", "now run"])

prop("T02", "A finished trial is complete and every reference in it resolves",
     "In a trial shown as finished every recorded item refers only to items of the same trial that exist, every "
     "content hash it mentions can be read back, and every opened activation was closed. The files the script "
     "and its imported modules were loaded from are stored byte for byte as they were at the time of the run.",
     ["programs", "configurations", "schedules"],
     "every script in the generated family, every engine and schedule of its workers, every save frequency",
     "tests inspect selected components of fixed snippets with a mocked store",
     ["collection/prov_execution/collector.py", "collection/prov_definition/transformer.py",
      "collection/prov_deployment.py", "persistence/lightweight/object_store.py"],
     [("ids per trial", "persistence/lightweight/object_store.py")],
     [("trial tables", "evaluations, activations, code components, accesses", "persistence/models/trial.py")],
     ["db.sqlite and content store after `now run`"])

prop("T03", "A trial's recorded outcome and arguments match what really happened",
     "However the script ends - normally, by an exception it does not catch, by exiting with any code, or by an "
     "interrupt - the run records a trial with a finish time: with status finished when the script ended normally "
     "or exited with no code or zero, and unfinished otherwise. The command line, script, working directory, "
     "options, environment and start and finish times are those of that execution, and the process ends with the "
     "exit code of the script.",
     ["programs", "inputs", "fault_sequences"],
     "every way to end a script at any depth, and interrupts at any executed line",
     "the tests run snippets that end normally",
     ["collection/prov_execution/execution.py", "collection/metadata.py", "cmd/cmd_run.py",
      "persistence/models/trial.py"],
     [("exit handling", "collection/prov_execution/execution.py")],
     [("trial.status", "how it ended", "persistence/models/trial.py")], ["now list", "now show", "exit status"])

prop("T04", "Saving during the run never changes what the run records",
     "Whether and how often partial results are saved while a script runs, however the clock advances, and whichever "
     "storage engine is used, the finished trial holds the same record of the same execution: same activations, "
     "evaluations, values, dependencies and file accesses.",
     ["configurations", "programs", "schedules"],
     "every save frequency and activation threshold, every clock rate, every engine and schedule",
     "tests flush once at the end",
     ["collection/prov_execution/collector.py", "persistence/lightweight/object_store.py"],
     [("partial flush", "persistence/lightweight/object_store.py")],
     [("object stores", "items not yet saved", "persistence/lightweight/object_store.py")], ["db.sqlite after runs"])

prop("T05", "A script behaves under the collector as it does without it",
     "Running a script under the collector gives the same standard output, the same final file contents, the same "
     "uncaught exception and the same exit status as running it directly, also when its own file operations fail or "
     "its calls raise exceptions.",
     ["programs", "fault_sequences", "inputs"],
     "every script of the generated family and every fault injected into the script's own file operations",
     "tests compare recorded provenance, not program behaviour, and never under failing I/O",
     ["collection/prov_definition/transformer.py", "collection/prov_execution/collector.py",
      "collection/prov_execution/execution.py", "persistence/content/safeopen.py"],
     [("instrumentation", "collection/prov_definition/transformer.py")], (),
     ["stdout, files, exit status of `now run` against plain Python"])

prop("T06", "Every executed function call is recorded once, under its caller",
     "A finished trial run at unlimited depth holds exactly one activation for each call of a function or lambda of "
     "the script that the script or a builtin makes while the script runs, in call order, under the activation that "
     "made the call (the body of a generator belongs to the call that created it), with the parameter values of that "
     "call and, when it returns, its value; also for calls that end by an exception, generators, and recursion. A "
     "depth D records exactly the activations of the D+1 outermost levels.",
     ["programs", "configurations", "fault_sequences"],
     "every generated program of nested, recursive, raising and generating calls, every depth, every fault in them",
     "tests use fixed snippets that end normally",
     ["collection/prov_execution/collector.py", "persistence/models/activation.py"],
     [("activation stack", "collection/prov_execution/collector.py")],
     [("activation", "one function call", "persistence/models/activation.py")], ["now show -a", "db.sqlite"])

prop("T07", "Every file access is recorded with its real mode, content and caller",
     "Each file a script opens by its path is recorded once per successful open, in order, with a path that names it "
     "and its mode, the exact content before the access when it existed, the exact content when the function of the "
     "script that opened it (or the script itself) ended, and the activation of that function, whether opened by open, "
     "io.open, codecs.open or os.open; failed opens leave no false record.",
     ["programs", "fault_sequences", "inputs"],
     "every generated sequence of reads, writes, appends, updates and failures, with disk faults in the script's I/O",
     "tests open one or two fixed files that always work",
     ["collection/prov_execution/collector.py", "persistence/models/file_access.py"],
     [("wrapped open functions", "collection/prov_execution/collector.py")],
     [("file_access", "one open", "persistence/models/file_access.py")], ["now show -f", "db.sqlite"])

prop("T09", "Scripts with threads run and are recorded correctly",
     "A script whose threads call its functions concurrently behaves under the collector as it does without it, "
     "whatever the interleaving, and the finished trial records each thread's calls once, nested as that thread "
     "made them.",
     ["schedules", "programs"],
     "every preemption of the script's threads at line granularity",
     "no test runs a threaded script",
     ["collection/prov_execution/collector.py"],
     [("activation bookkeeping", "collection/prov_execution/collector.py")],
     [("current activation", "call being executed", "collection/prov_execution/collector.py")], ["now run"])

prop("V01", "Restoring a trial reproduces its files exactly",
     "Restoring a finished trial makes the script, its local modules and the files below its folder that it opened "
     "hold byte for byte what they held when the trial started (those that it created are removed), whatever happened "
     "to them since, and touches no other file of the project; restoring a single file by trial, by content hash or by "
     "access time produces exactly that content at the requested path.",
     ["histories", "inputs", "configurations"],
     "every history of edits, runs and restores, every option combination of the command",
     "the only restore tests use one trial and in-memory content",
     ["cmd/cmd_restore.py"], [("restore", "cmd/cmd_restore.py")], (), ["now restore"])

prop("V02", "Restoring never loses local work",
     "Before restoring a trial changes a file whose current content is not stored in any trial, that content is stored "
     "in a backup trial that can be restored, and if a restore, also of a single file, is killed or the disk fails at "
     "any point, every local content that existed before is still in its file or in the store.",
     ["crash_points", "fault_sequences", "histories"],
     "every disk operation of a restore as the point of a crash or error",
     "tests do not interrupt a restore nor check what it overwrote",
     ["cmd/cmd_restore.py"], [("backup trial", "cmd/cmd_restore.py")], (), ["now restore", "now list"])

prop("V03", "Each trial's parent is the trial its code was based on",
     "The parent recorded for a trial is the trial that was last restored for its script or, if the script was run "
     "after that, the last trial of that script, also when some of them were interrupted or other scripts ran in "
     "between; the chain of parents has no cycle and ends at a trial without parent.",
     ["histories", "crash_points"],
     "every history of runs, restores, backups and crashes over several scripts",
     "tests check a parent of two fixed trials",
     ["persistence/models/head.py", "persistence/models/trial.py", "cmd/cmd_restore.py"],
     [("head per script", "persistence/models/head.py")],
     [("head", "current trial of a script", "persistence/models/head.py")], ["now history", "now list"])

prop("V04", "Automatic version tags are unique and follow the version rules",
     "Every run that finishes gets one automatic three-part version: 1.1.1 in an empty store; the last part of the "
     "greatest version of the same script content and command line plus one; for the same content with another "
     "command line, the middle part of the greatest version of that content plus one; otherwise the first part of "
     "the greatest version plus one. No two trials of the same store share one, also when runs are interrupted, "
     "started concurrently or continue from a restored trial.",
     ["histories", "schedules", "crash_points"],
     "every history of changes, restores and crashes, every interleaving of concurrent runs",
     "tests create tags on one prepared sequence",
     ["persistence/models/tag.py"], [("automatic tag", "persistence/models/tag.py")],
     [("tag", "version of a trial", "persistence/models/tag.py")], ["now list", "now show TAG"])

prop("V05", "A trial reference selects exactly the trial it names",
     "A trial is found by its full identifier, its sequence number or its tag and by nothing else, and no reference "
     "selects the last started trial of the store; ambiguous or unknown references are refused with a message "
     "and change nothing. All commands that take a trial agree.",
     ["histories", "inputs"],
     "every store content and every reference string",
     "tests look up one or two known identifiers",
     ["persistence/models/trial.py", "persistence/models/trial_prolog.py", "cmd/cmd_show.py"],
     [("reference lookup", "persistence/models/trial.py")], (), ["now show", "now diff", "now restore", "now export"])

prop("P01", "Push and pull converge to the union of both stores",
     "After a push, pull or import reports success between stores of the same kind, the receiving store holds every "
     "finished trial that the sending one (for a pull, its experiment) held when the transfer began, with all of its "
     "contents, unchanged, besides everything it held before, each exactly once, however often, in which order or "
     "concurrently they are repeated. A transfer that meets lost, duplicated, delayed or failing requests or a crash never reports success "
     "without this, and repeating it until it succeeds always repairs it.",
     ["fault_sequences", "histories", "crash_points", "schedules"],
     "every sequence of pushes, pulls and runs on several machines under lost, duplicated, delayed or refused "
     "messages, crashes and restarts of either side",
     "no test exercises push or pull at all",
     ["utils/collab.py", "cmd/cmd_push.py", "cmd/cmd_pull.py", "vis/views.py"],
     [("bundles and lists of missing items", "utils/collab.py")], (), ["now push", "now pull", "db.sqlite on both sides"])

prop("P02", "Sharing a trial copies every field of it exactly",
     "A trial received by push, pull or import is equal to the original in every recorded fact - trial data, "
     "arguments, environment, modules, components, evaluations, activations, dependencies, values, accesses, "
     "user and lineage - and yields the same answers to every query, including after being passed on again. Only the "
     "experiment, the version tag and the number of the trial are assigned by the receiving store.",
     ["programs", "configurations", "histories"],
     "every generated trial, through every transfer path and any number of hops",
     "no test compares a transferred trial with its original",
     ["utils/collab.py", "persistence/lightweight", "vis/views.py"],
     [("bundle encoding", "persistence/lightweight")], (), ["db.sqlite on both sides"])

prop("P03", "A received trial is complete or not there at all",
     "If receiving trials is interrupted at any point, by a crash or an error on either side, no trial is left in "
     "the receiving store in part: each is absent or complete with all of its items and contents, and a later "
     "transfer brings the absent ones.",
     ["crash_points", "fault_sequences"],
     "every disk operation of the receiver and every message as the point of a crash or error",
     "no test interrupts a transfer",
     ["utils/collab.py", "vis/views.py", "persistence/models/trial.py"],
     [("import of a bundle", "utils/collab.py")], (), ["store after a crash during pull, push or import"])

prop("P05", "The server applies concurrent requests as if one by one",
     "Experiments, users, groups, memberships and annotations managed through the server keep, under concurrent "
     "and repeated requests, the state some one-by-one order of the acknowledged requests gives: no acknowledged "
     "change lost, none applied twice, none attributed to another experiment, trial or user.",
     ["schedules", "histories", "inputs"],
     "every interleaving of request handlers at line granularity and of requests of several clients",
     "no test calls these routes, let alone concurrently",
     ["vis/views.py", "persistence/models/experiment.py", "persistence/models/user.py", "persistence/models/group.py",
      "persistence/models/annotation.py"],
     [("request handlers", "vis/views.py")], (), ["HTTP API of now vis"])

prop("Q01", "Cached graphs equal freshly computed ones",
     "Whatever graphs were requested before, in whatever order, by whichever process, and even when writing the "
     "cache was interrupted, the graph of a trial in any mode equals the one computed from the stored trial "
     "without a cache, and invalid cached data is never returned.",
     ["histories", "crash_points", "fault_sequences"],
     "every sequence of requests and crashes around cache updates",
     "tests request one graph once",
     ["models/graphs/structures.py", "models/graphs/trial_graph.py", "persistence/models/graph_cache.py"],
     [("graph cache", "models/graphs/structures.py")],
     [("graph_cache", "finished graphs by kind and attributes", "persistence/models/graph_cache.py")],
     ["trial.graph / vis graph routes"])

prop("Q03", "Queries report the stored facts and change nothing",
     "list, show, history, diff, dataflow, export and helper views report, for any store contents, the facts that "
     "were recorded, and leave the store and the working directory as they were; they work on stores that hold "
     "unfinished, failed and backup trials, and while a run is in progress.",
     ["histories", "schedules", "crash_points"],
     "every store reached by generated histories including crashes, every query command, concurrent runs",
     "tests print prepared trials",
     ["cmd/cmd_list.py", "cmd/cmd_show.py", "cmd/cmd_history.py", "cmd/cmd_diff.py", "cmd/cmd_dataflow.py",
      "cmd/cmd_export.py"],
     [("commands", "cmd/cmd_show.py")], (), ["now list/show/history/diff/dataflow/export"])


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as fil:
        for item in PROPS:
            fil.write(json.dumps(item) + "\n")


if __name__ == "__main__":
    main()
