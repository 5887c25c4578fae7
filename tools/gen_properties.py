#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as code so that the long texts stay readable).
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None,
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))
S, C, I, G, H, F = "schedules", "crash_points", "inputs", "programs", "histories", "fault_sequences"

p("C01", "Joining a thread yields exactly the result of its function, once",
  "For every function, argument values and schedule, joining the handle of `go f(args)` waits until that call has finished and yields `ok(v)` with exactly the value the same call would produce on its own, or `err(..)` if the call fails or its thread panics. The body runs exactly once per `go`, whether or not the handle is ever joined, and a failing or panicking thread affects neither the joiner nor any other thread. A handle can be joined only once: joining it again yields `err(..)`.",
  [S, G, F], "every program using go/join (including nested go), every thread interleaving, errors and panics raised at any point in any thread",
  "The existing tests only parse and type-check `go`; none runs threads under a controlled schedule, with failing threads, or compares results with a sequential execution.",
  ["src/runtime/mod.rs", "src/lib.rs", "src/threading.rs", "src/dyon_std/mod.rs"],
  [("Runtime::go", "src/runtime/mod.rs"), ("join__thread / Thread::invalidate_handle", "src/dyon_std/mod.rs, src/lib.rs"), ("spawn!/join! macros", "src/threading.rs")],
  ["value of join(thread: t) in the script", "host functions called by the thread body"])
p("C02", "Values crossing threads are deep copies; threads share no mutable state",
  "Arguments of a `go` call, values returned through `join`, and arguments delivered through an in-type are deep copies taken when the thread is started, when its function returns, and when the observed function is called: later changes to the original or to any copy are never visible in another thread, in any interleaving. This holds for every shape of value - numbers, strings, vectors, matrices, links, options, results, closures, and arbitrarily nested arrays and objects, including ones whose elements refer to other local variables - and a copy never contains a reference into another thread's variables. Each thread of a program therefore computes the same results under every schedule.",
  [S, G, I], "every value shape crossing a thread boundary, every pattern of later mutation on both sides, every interleaving",
  "No test mutates values on both sides of a thread boundary; sharing bugs need a particular value shape (nested, containing references, uniquely or multiply owned) and a particular interleaving.",
  ["src/lib.rs", "src/runtime/mod.rs", "src/link.rs", "src/dyon_std/mod.rs"],
  [("Variable::deep_clone", "src/lib.rs"), ("copy-on-write via Arc::make_mut", "src/runtime/mod.rs, src/dyon_std/mod.rs"), ("some/ok/err and try deep-clone their payload", "src/dyon_std/mod.rs, src/runtime/mod.rs")],
  ["values seen by scripts in each thread, rendered by a host function"])
p("C03", "Each call of an observed function reaches every receiver once, in one order",
  "Once `in f` has returned, every call of f by any thread (directly, through an importing module, or as the target of `go`) puts exactly one message into that receiver - the list of the call's arguments followed by its current objects, with their values at the time of the call - before the body of f runs; calls made before `in f` never appear. All receivers of f see the calls in one common order that agrees with the program order of each thread and with the real-time order of calls that do not overlap. Receivers of different functions, and of same-named functions in different modules, never receive each other's messages.",
  [S, H, G], "every interleaving of any number of calling and receiving threads, every history of in/call/next operations",
  "The in-type sources shipped with the project are only run on one thread by hand; races between opening receivers, sending and reading need controlled interleavings.",
  ["src/runtime/mod.rs", "src/ast/mod.rs", "src/module.rs", "src/dyon_std/mod.rs"],
  [("senders list and flag of a function", "src/ast/mod.rs"), ("send loop in call_loaded", "src/runtime/mod.rs"), ("in_expr", "src/runtime/mod.rs")],
  ["messages returned by next/wait_next/for-in"], [("senders.0", "fast flag: somebody listens", "src/ast/mod.rs"), ("senders.1", "open channels, guarded by a mutex", "src/ast/mod.rs")])
p("C04", "Opening and dropping receivers never disturbs other receivers or callers",
  "Receivers of one function may be opened and dropped at any time, in any order, by any thread, while other threads are calling it: every receiver that stays open keeps getting every later call exactly once and in order, and calling the function keeps succeeding with its normal result. After the last receiver is dropped calls go unobserved, and a receiver opened afterwards gets every call from then on. Dropping a receiver discards only its own unread messages.",
  [S, H], "every history of open/drop/call over any number of receivers and threads, every interleaving",
  "The tests never have two receivers of one function, never drop one while another is open, and never race dropping with calling.",
  ["src/runtime/mod.rs"],
  [("swap/truncate of closed channels in call_loaded", "src/runtime/mod.rs"), ("flag reset guarded by the mutex", "src/runtime/mod.rs")],
  ["messages returned by next", "return values of the observed function"])
p("C05", "next and wait_next neither lose, invent, duplicate nor reorder messages",
  "`next(r)` never waits for a message: it returns the oldest unread message as `some(msg)`, or `none()` if there is none. `wait_next(r)` returns the oldest unread message, waits if there is none yet, always wakes up when a message arrives or when no call can ever send one any more, and returns `none()` only in the latter case and only after all sent messages were read. When several threads read the same receiver every message goes to exactly one of them, and each of them gets its messages in sending order.",
  [S, H, F], "every interleaving of senders and readers including spurious wake-ups and stalled threads; receivers whose module has been dropped",
  "Lost wake-ups and double deliveries depend on the instant a message arrives relative to the reader blocking; no test runs wait_next at all.",
  ["src/dyon_std/mod.rs", "src/runtime/mod.rs"],
  [("next / wait_next", "src/dyon_std/mod.rs"), ("shared receiver behind a mutex", "src/lib.rs")],
  ["return values of next/wait_next", "progress of the reading thread"])
p("C06", "Loops over an in-type consume each message exactly once",
  "`for`, `sum`, `prod`, `min`, `max`, `sift`, `any`, `all` and `link` loops over a receiver process the messages that are waiting, oldest first, each exactly once, stop when none is waiting, and yield the same value as the corresponding fold over the list of processed messages - over no messages, the neutral value the same loop yields over an empty range. `break`, `continue`, an early result of `any`/`all`, `return` and an error leave all later messages unread and in order for the next reader.",
  [S, H, I], "every loop form, every message sequence (including the empty one), every point of early exit, every interleaving with senders",
  "The tests contain a single for-in program without concurrency; the other ten loop forms over receivers are never executed.",
  ["src/runtime/for_in.rs", "src/runtime/mod.rs"],
  [("iter!/iter_val!/iter_val_inc! macros and the *_in_expr functions", "src/runtime/for_in.rs")],
  ["value of the loop expression", "messages left in the receiver"])
p("C07", "Loading a module gives one verdict and one meaning under every schedule",
  "Loading a given source with given imports either always succeeds or always fails with the same error message, whatever the interleaving of the checks that run in parallel, whatever the hash seeds, and whatever other loads run at the same time in other threads. A source that breaks the lifetime, mutability or type rules is never accepted because of timing, and a successfully loaded module behaves the same in every such run.",
  [S, G], "every interleaving of the lifetime/type checker thread with the AST conversion and with other loads, every hash seed",
  "Tests load each source once under whatever schedule the OS picks.",
  ["src/lib.rs", "src/lifetime/mod.rs", "src/lifetime/typecheck.rs", "src/ast/mod.rs", "src/dyon_std/mod.rs"],
  [("load_str spawns lifetime::check and joins it before returning", "src/lib.rs"), ("refined return types applied after the join", "src/lib.rs")],
  ["result of load/load_str", "output of the loaded program"])
p("C08", "Dynamic modules can be called from any thread, nested and concurrently",
  "`call` and `call_ret` into a loaded module from any number of threads at once, from functions of that module itself, or in cycles between modules, execute the named function with the given arguments, return exactly its result or error, and always make progress: calls into the same module never wait for each other. A call that fails or panics leaves the module usable by everybody else, and importing a module into another never changes the meaning of the functions of either.",
  [S, G, F], "every call graph between modules and threads, every interleaving, errors and panics inside called functions",
  "Tests call a loaded module once from a single thread.",
  ["src/dyon_std/mod.rs", "src/runtime/mod.rs", "src/module.rs"],
  [("_call / call_ret", "src/dyon_std/mod.rs"), ("Runtime::call", "src/runtime/mod.rs"), ("Module::import and relative function indices", "src/module.rs")],
  ["results of call_ret", "progress of all calling threads"])
p("C09", "An error caught by try leaves the surrounding program state intact",
  "Wherever an error is raised while `try e` is evaluated - in nested calls, loops, closures, current-object scopes, called modules or host functions - the result is `err(..)` and all local variables, current objects, loops and functions of the surrounding program behave afterwards exactly as if the evaluation had stopped at the failing point: changes made before it are kept, nothing after it happens. If no error occurs the result is `ok(v)` with the value of e, and that value stays valid wherever it is stored, returned or sent.",
  [F, G, H], "every program and every choice of failing points, including repeated failures in loops and failures in spawned threads",
  "Tests raise at most one error and do not look at locals, current objects or call frames afterwards.",
  ["src/runtime/mod.rs"],
  [("try_expr saves and truncates the four stacks", "src/runtime/mod.rs"), ("expression_module / call restore the module", "src/runtime/mod.rs")],
  ["values of locals and current objects after try"])
p("C10", "A host runtime stays usable after failed runs and calls",
  "After any sequence of `run`, `call_str`, `call_str_ret` and `Call` invocations on one runtime - some of which fail at arbitrary points - every further invocation behaves exactly as on a fresh runtime: same result, same calls of host functions, no leftover current objects or frames. The runtime's stacks return to the size they had before each invocation.",
  [H, F, G], "every history of host invocations over several modules with failures injected at any host call",
  "Tests create a new runtime for every run and stop at the first error.",
  ["src/runtime/mod.rs", "src/lib.rs"],
  [("Runtime::run / call / call_str / call_str_ret", "src/runtime/mod.rs"), ("Call", "src/lib.rs")],
  ["return values seen by the host", "public stacks of the runtime"])
p("C11", "A save that reports success has stored everything, and failures are reported",
  "When `save(string:file:)` or `save(data:file:)` reports success, the complete text is in the file and survives a crash of the process at any later point; when any part of it could not be written (disk full, I/O error, file cannot be created) the script gets an error it can handle, never success and never a crash. Interrupted and short writes change nothing about the outcome. Saves by different threads to different files do not affect each other.",
  [F, C, I, S], "every content, every sequence of write/open/close failures, every crash point, concurrent savers",
  "Tests never write files, and a unit test cannot make write(2) fail, return short or crash the process between system calls.",
  ["src/dyon_std/mod.rs", "src/write.rs", "src/dyon_std/io.rs"],
  [("save__string_file / save__data_file", "src/dyon_std/mod.rs"), ("write_variable", "src/write.rs")],
  ["result of save", "bytes in the simulated file system after the run or crash"])
p("C12", "Loading a file yields exactly its content or an error",
  "`load_string(file:)`, `load_data(file:)`, `load(meta:file:)`, `load(..)` of a module and running a script from a file return exactly what the complete current content of the file denotes - for data built from finite numbers, booleans, strings, 4D vectors, options, arrays and objects and saved by `save(data:file:)`, a value equal to the one saved - or an error the caller can handle; never a partial content, a stale content, or a crash of the program. Interrupted and short reads change nothing about the outcome; a file that cannot be opened, fails in the middle, or is not valid text gives an error.",
  [F, I, S], "every content, every sequence of open/read failures, interrupted and short reads, invalid UTF-8, concurrent loaders",
  "Tests read only intact files from a working disk.",
  ["src/dyon_std/mod.rs", "src/dyon_std/data.rs", "src/dyon_std/meta.rs", "src/lib.rs", "src/runtime/mod.rs"],
  [("load_string__file, load_data__file", "src/dyon_std/mod.rs"), ("data::load_file / load_data", "src/dyon_std/data.rs"), ("load_meta_file", "src/dyon_std/meta.rs"), ("load, file_lookup_module", "src/lib.rs, src/runtime/mod.rs")],
  ["results of the load functions"])
p("C13", "Console input is read line by line without loss, and always ends",
  "`read_line` returns the lines of standard input in order, each complete with its line end and none lost or repeated, however the input arrives in pieces and whatever reads are interrupted; at the end of input it returns the empty string, and an input error is reported as an error. `read_number` returns the next line that is a number, prints the given message once for every line before it that is not, and always terminates: at the end of input it reports an error.",
  [F, I, S], "every input text, every fragmentation, interruption, error and end of the input, reads from several threads",
  "Tests do not touch standard input.",
  ["src/dyon_std/mod.rs"],
  [("read_line / read_number", "src/dyon_std/mod.rs")],
  ["return values of read_line/read_number", "text printed to standard output"])
p("C14", "sleep and now follow the clock",
  "`sleep(s)` returns only after at least s seconds of time have passed (interrupted sleeps are resumed, zero, negative and NaN durations return at once), stops only the calling thread, and a sleeping thread resumes within bounded time after its deadline. `now()` returns the wall clock in seconds since the epoch with sub-second precision, also before 1970 and across clock jumps in either direction, and never fails.",
  [F, S, I], "every duration, every clock value and jump, interrupted sleeps, any number of concurrently sleeping and working threads",
  "Real sleeping and real clocks cannot be set to arbitrary values or made to jump in a test.",
  ["src/dyon_std/mod.rs"],
  [("sleep / now", "src/dyon_std/mod.rs")],
  ["simulated time before and after sleep", "value of now()"])
p("C15", "Everything a program allocates is released once, on every path",
  "Whatever values, links, closures, threads and receivers a program creates, drops and sends between threads, and wherever errors interrupt it, no memory is used after release or released twice, and when the program, its runtime and its modules are gone and its threads have ended, all memory it allocated has been released. Running the same program again and again in one process does not accumulate memory.",
  [S, F, G], "every program, interleaving and error point",
  "Tests do not track allocations; leaks and double releases need particular drop orders across threads or error exits.",
  ["src/link.rs", "src/lib.rs", "src/runtime/mod.rs", "src/dyon_std/mod.rs"],
  [("Block clone/drop with raw Arc<String>", "src/link.rs"), ("unsafe writes in assignment", "src/runtime/mod.rs")],
  ["allocation ledger of the process"])
p("C16", "A download yields the complete body or an error",
  "`load_string(url:)`, `download(url:file:)` and `load(meta:url:)` succeed only if the server answered with status 200 and the entire body was received - and, for download, stored in the file; the returned string or the file then holds exactly that body. A malformed URL, refused connection, any other status, a connection broken at any byte, a body that is not valid text (where text is needed) or a full disk gives an error the script can handle; interrupted and fragmented transfers change nothing.",
  [F, I, S], "every body, status, fragmentation and failure point of the transfer and of the local disk",
  "The sandbox tests have no network, and no test injects transfer failures.",
  ["src/dyon_std/meta.rs", "src/dyon_std/mod.rs"],
  [("load_text_file_from_url / download_url_to_file / load_meta_url", "src/dyon_std/meta.rs")],
  ["results in the script", "bytes in the simulated file system"])
p("C17", "Failure to start a thread is an error, not a crash",
  "When the operating system refuses to create a thread, `go` gives an error that `try` can catch and loading a module reports an error; the program is not aborted, nothing hangs, no in-type message or value is lost or half-delivered, and the same operations succeed once threads can be created again.",
  [F, S, G], "every sequence of thread-creation failures in every program",
  "Thread creation cannot be made to fail in a unit test.",
  ["src/threading.rs", "src/runtime/mod.rs", "src/lib.rs"],
  [("spawn! in Runtime::go", "src/runtime/mod.rs"), ("MaybeThread::spawn in load_str", "src/lib.rs")],
  ["results of go/load in the script"])
p("C18", "Printed text reaches standard output completely and in order",
  "Everything a thread prints with `print` and `println` reaches standard output exactly once, uncorrupted and in that thread's program order, under every interleaving with other printing threads and despite interrupted or short writes. The text of a printed string or number is never torn by output of another thread (composite values may be printed in pieces).",
  [S, F], "every interleaving of printing threads, interrupted and short writes",
  "Tests discard standard output.",
  ["src/write.rs", "src/dyon_std/mod.rs"],
  [("print_variable / write_variable", "src/write.rs"), ("print / println", "src/dyon_std/mod.rs")],
  ["bytes written to standard output"])
# --- properties this family does not decide ------------------------------------------------------------------
p("C30", "The lifetime checker admits no program with dangling references",
  "No program accepted by the lifetime checker can, at run time, read a reference to a variable that no longer exists.",
  [G], "every accepted program", "Tests sample a few dozen programs.", ["src/lifetime/mod.rs", "src/lifetime/lt.rs"],
  [("lifetime::check", "src/lifetime/mod.rs")], ["run-time behaviour of accepted programs"])
p("C31", "The type and mutability checkers are sound",
  "A program accepted by the checkers never fails at run time with a type mismatch on a fully typed expression and never mutates an argument not declared `mut`.",
  [G], "every accepted program", "Tests sample a few dozen programs.", ["src/lifetime/typecheck.rs", "src/ty.rs", "src/lifetime/mod.rs"],
  [("type check", "src/lifetime/typecheck.rs")], ["run-time behaviour of accepted programs"])
p("C32", "Arithmetic, comparison, vector and matrix operators compute their defined values",
  "Operators on numbers, strings, vectors, matrices and links return the mathematically defined value for all operands.",
  [I], "every operand", "Tests sample a few operands.", ["src/dyon_std/mod.rs", "src/vec4.rs", "src/mat4.rs"],
  [("binary operators", "src/dyon_std/mod.rs")], ["values of expressions"])
p("C33", "Counting loops, secrets and closures evaluate to their defined values",
  "`for`/`sum`/`prod`/`min`/`max`/`sift`/`any`/`all` over ranges, `why`/`where` secrets, and closures with `grab` evaluate to their defined values for all ranges and bodies.",
  [G, I], "every range and loop body", "Tests sample a few programs.", ["src/runtime/for_n.rs", "src/grab.rs", "src/dyon_std/mod.rs"],
  [("for_n loops", "src/runtime/for_n.rs"), ("grab", "src/grab.rs")], ["values of expressions"])
p("C34", "The parser accepts exactly the documented syntax",
  "Every text is either parsed to the AST its grammar denotes or rejected with an error message that points into the text; parsing never crashes.",
  [I], "every source text", "Tests sample sources.", ["assets/syntax.txt", "src/ast/mod.rs"],
  [("ast::convert", "src/ast/mod.rs")], ["result of load_str"])
if __name__ == "__main__":
    with open("/verif/properties.jsonl", "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P))
