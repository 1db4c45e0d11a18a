"""Writes properties.jsonl (edited here, kept as the readable source)."""
import json, os
P = []
B = "pythagoras/"
def prop(id, title, statement, over, qtext, why, files, mech, state=(), obs=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[B + f for f in files],
            mechanism=[dict(name=n, where=B + w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=B + w) for n, m, w in state],
            observe_at=list(obs), hook_needed=None)))

S820 = "_820_strings_signatures_converters/"
prop("C01", "Base-32 text of numbers and signatures is lossless",
 "Converting any non-negative integer to base-32 text and back gives the same integer; the text uses only the digits 0-9 and a-v, has no redundant leading zero, and is read back in either letter case. Converting hexadecimal text to base 32 preserves the number it denotes. Every hash signature consists of the first 22 characters (or fewer, if there are no more) of the base-32 text of the value's SHA-256 digest, and every random signature likewise of a random number.",
 ["inputs"], "all non-negative integers, all hexadecimal texts, all digests",
 "The tests only look at the length and alphabet of a few random signatures; the round trip quantifies over all integers.",
 [S820+"base_16_32_convertors.py", S820+"hash_signatures.py", S820+"random_signatures.py"],
 [("convert_int_to_base32 / convert_base_32_to_int / convert_base16_to_base32", S820+"base_16_32_convertors.py"),
  ("get_hash_signature", S820+"hash_signatures.py"), ("get_random_signature", S820+"random_signatures.py")],
 obs=["return values"])

prop("C02", "A value's address is determined by its type and content",
 "The address of a value consists of the lower-cased name of its type and of a URL-safe signature that is a function of the value's content alone (preceded by its shape or, failing that, its length, if it has one); it does not depend on the portal used, on what is already stored, or on the process. Two addresses are equal exactly when they are addresses of the same kind with the same two texts. Rebuilding an address from its texts, copying it, pickling and unpickling it, or asking for the address of an address gives an equal address.",
 ["inputs", "histories", "configurations"], "all values, portals and storage contents",
 "Tests compare addresses of a handful of values in one portal; determinism quantifies over values, portals and histories.",
 ["_030_data_portals/hash_addresses.py", "_030_data_portals/value_addresses.py", S820+"hash_signatures.py"],
 [("HashAddr._build_prefix, _build_hash_signature, from_strings, __eq__", "_030_data_portals/hash_addresses.py"),
  ("ValueAddr.__init__, __getstate__, __setstate__, __copy__", "_030_data_portals/value_addresses.py")],
 obs=["address texts, equality"])

prop("C03", "A value stored in any known portal is retrievable through any portal",
 "Creating a value's address in a portal stores the value in that portal; retrieving through that address, or through an equal address rebuilt from its texts, copied or unpickled, and bound to any portal, returns that value whenever at least one known portal holds it, whichever portals are entered at the time, and raises KeyError when none does. An address reports to be ready exactly when some known portal holds the value. When the address's own portal lacked the value, a retrieval or a positive readiness query copies it there; no other stored value in any portal changes.",
 ["histories", "configurations", "inputs"], "any number of portals, any distribution of values over them, any nesting of entered portals, any address",
 "Tests use two portals entered in one particular order; the guarantee quantifies over all distributions of values and all nestings.",
 ["_030_data_portals/value_addresses.py", "_030_data_portals/data_portals.py", "_010_basic_portals/foundation.py"],
 [("ValueAddr.__init__, get, ready, get_from_current_portal, get_from_noncurrent_portals", "_030_data_portals/value_addresses.py"),
  ("BasicPortal._noncurrent_portals", "_010_basic_portals/foundation.py")],
 [("value_store", "append-only store of values of a portal", "_030_data_portals/data_portals.py")],
 ["value stores of all portals, return values, exceptions"])

prop("C04", "The first value written under a key of a first-entry store stays",
 "Once a key of a first-entry dictionary holds a value, no later assignment changes or removes it; an assignment to a free key stores exactly the given value under exactly that key and touches no other key, also when another writer is racing for the key, in which case whichever value came first stays. An assignment to an occupied key raises an error if the consistency check is drawn (always with probability 1, never with probability 0 or none, otherwise exactly when the random draw is below the probability) and the values differ; in all other cases it returns silently. Looking up, testing, counting and iterating agree with the underlying storage.",
 ["inputs", "histories", "schedules", "configurations"], "all keys, values, storage contents, check probabilities, draws, and interleaved writes of other processes",
 "Tests write a few equal or unequal values sequentially; races and draws are never exercised.",
 ["_800_persidict_extensions/first_entry_dict.py"],
 [("FirstEntryDict.__setitem__, __contains__, __getitem__, __len__", "_800_persidict_extensions/first_entry_dict.py")],
 [("wrapped storage", "the underlying persistent dictionary", "_800_persidict_extensions/first_entry_dict.py")],
 ["storage contents, exceptions"])

prop("C05", "Call addresses ignore argument order and packing",
 "The address of a pure-function call depends only on the function and on the names and contents of its keyword arguments: neither the order in which they are given nor whether some are given as values and others as addresses of those values matters. Packing arguments replaces every value by its address and changes nothing else; unpacking restores values equal to the originals under the same names, and arguments are always listed in name order. Packing packed or unpacking unpacked arguments changes nothing.",
 ["inputs"], "all argument dictionaries of any size, all orders, all mixtures of values and addresses",
 "Tests compare two orders of two arguments; the guarantee quantifies over all argument sets.",
 ["_070_pure_functions/kw_args.py", "_070_pure_functions/pure_core_classes.py"],
 [("SortedKwArgs.__init__, pack, unpack", "_070_pure_functions/kw_args.py"),
  ("PureFnCallSignature.__init__, PureFnExecutionResultAddr.__init__, PureFn.get_address", "_070_pure_functions/pure_core_classes.py")],
 obs=["addresses, packed and unpacked dictionaries"])

prop("C06", "Portal contexts nest like a stack and never swallow exceptions",
 "Inside a portal's `with` block that portal is the current one, and after the block, left normally or by an exception, the current portal and the whole nesting are what they were before the block, for any nesting of blocks over any portals including repeated entries of the same portal. Leaving a portal that is not the current one is refused and leaves the nesting unchanged; exiting all portals leaves none entered. A block never swallows or replaces an exception raised in it.",
 ["histories", "inputs", "fault_sequences"], "all sequences of entering and leaving any portals, with and without exceptions, including exceptions while the exception is being logged",
 "Tests walk through a few fixed nestings of at most three portals; the invariant is over all histories.",
 ["_010_basic_portals/foundation.py", "_020_logging_portals/logging_portals.py"],
 [("BasicPortal.__enter__, __exit__, __exit_all__", "_010_basic_portals/foundation.py"), ("LoggingPortal.__exit__", "_020_logging_portals/logging_portals.py")],
 [("entered portals", "stack of entered portals with re-entry counters", "_010_basic_portals/foundation.py")],
 ["current portal, list of entered portals, propagated exceptions"])

prop("C07", "Portal selection and enumeration",
 "When an operation needs a portal it uses the explicitly given one; otherwise the innermost entered one; otherwise the most recently created one; and only when no portal exists the default local portal. The list of entered portals contains every entered portal exactly once, innermost first; the list of noncurrent portals contains exactly the known portals other than the current one. An object bound to a portal keeps using that portal whatever is entered later.",
 ["histories", "configurations"], "any number of created portals, any stack of entered portals, any explicit choice",
 "Tests use up to three portals in a fixed order; the guarantee quantifies over all portal populations and stacks.",
 ["_010_basic_portals/foundation.py", "_010_basic_portals/portal_aware_classes.py", "_100_default_local_portals/default_local_portal.py"],
 [("get_best_portal_to_use, get_most_recently_added_portal, _noncurrent_portals, _entered_portals", "_010_basic_portals/foundation.py"),
  ("PortalAwareClass.__init__, portal", "_010_basic_portals/portal_aware_classes.py")],
 [("known portals", "all portals in creation order", "_010_basic_portals/foundation.py")],
 ["chosen portal, returned lists"])

prop("C08", "Every escaping exception is recorded once per entered portal",
 "An exception that leaves a portal's `with` block, or a call of a decorated function, or ends the program while portals are entered, is recorded in the crash history of every portal entered at the moment it is first seen: exactly one record per such portal in the common catch-all log, however many further blocks and calls it passes through; it propagates unchanged. A block or call that completes without an exception records nothing, even if it runs while another exception is being handled. The system-wide exception hook in force before the first portal is put back when all portals are cleared.",
 ["histories", "fault_sequences", "inputs"], "all exceptions (with or without notes), any nesting of portals and calls, any sets of log prefixes",
 "Tests count records for a few division-by-zero errors in at most two portals.",
 ["_020_logging_portals/logging_portals.py", "_040_ordinary_functions/ordinary_core_classes.py"],
 [("_persist_exception_information, _exception_needs_to_be_processed, _mark_exception_as_processed, _exception_logger, __exit__", "_020_logging_portals/logging_portals.py"),
  ("register/unregister_systemwide_uncaught_exception_handlers, pth_excepthook", "_020_logging_portals/logging_portals.py"),
  ("OrdinaryFn.execute", "_040_ordinary_functions/ordinary_core_classes.py")],
 [("crash_history", "append-only log of exceptions", "_020_logging_portals/logging_portals.py")],
 ["crash histories, propagated exceptions, sys.excepthook"])

prop("C09", "Logged events keep the caller's data intact in every entered portal",
 "Logging an event writes, to the event log of every entered portal and of no other portal, one record that contains every item supplied by the caller, unmodified and under its own name, plus the positional messages and a summary of the execution environment under names that differ from all the caller's names. A name that has to be made unique is kept as it is when it is free, and otherwise extended to a name that is not among the existing ones.",
 ["inputs", "configurations"], "all caller-supplied names and values, any set of existing names, any random draws, any stack of entered portals",
 "Tests log two or three fixed names; collisions, including repeated ones, are only sampled.",
 ["_020_logging_portals/logging_portals.py", "_020_logging_portals/execution_environment_summary.py"],
 [("make_unique_name, add_execution_environment_summary, log_event", "_020_logging_portals/logging_portals.py")],
 [("event_log", "append-only log of events", "_020_logging_portals/logging_portals.py")],
 ["event logs"])

prop("C10", "Only plain functions are accepted, and only keyword calls",
 "Decorating accepts plain functions and rejects everything else: non-callables, callables that are not functions, bound methods, lambdas, closures, functions accepting arbitrary positional arguments and async functions, whatever the rest of their signature. Calling a decorated function with any positional argument raises without running its body or leaving a trace in any store; calling it with keyword arguments returns exactly what the original function returns for them.",
 ["inputs", "programs"], "all callables and signatures, all argument tuples",
 "Tests try one example per rejected kind; the guarantee is over all signatures and argument lists.",
 ["_040_ordinary_functions/assert_ordinarity.py", "_040_ordinary_functions/check_n_positional_args.py", "_040_ordinary_functions/ordinary_core_classes.py"],
 [("assert_ordinarity", "_040_ordinary_functions/assert_ordinarity.py"), ("accepts_unlimited_positional_args", "_040_ordinary_functions/check_n_positional_args.py"),
  ("OrdinaryFn.__call__, execute", "_040_ordinary_functions/ordinary_core_classes.py")],
 obs=["exceptions, return values"])

prop("C11", "Source normalization ignores form and preserves meaning",
 "Comments, docstrings, type annotations of parameters, results and variables, blank lines, the indentation of the whole function, layout and the Pythagoras decorator have no influence on the stored source of a function; any other difference between two functions shows in their stored sources. Normalizing a stored source again returns it unchanged. The stored source behaves like the original function, including the exact contents of string literals (for code that does not inspect its own annotations or docstrings).",
 ["programs"], "all functions that do not inspect their own docstrings or annotations",
 "Tests normalize a few small functions; the guarantee is over all programs.",
 ["_040_ordinary_functions/code_normalizer_implementation.py", "_040_ordinary_functions/code_normalizer.py", "_040_ordinary_functions/function_name.py"],
 [("__get_normalized_function_source__", "_040_ordinary_functions/code_normalizer_implementation.py"), ("get_function_name_from_source", "_040_ordinary_functions/function_name.py")],
 obs=["stored source, results of execution"])

prop("C12", "Autonomy analysis accepts self-contained functions only",
 "A function that reads a name which it neither binds anywhere nor imports, or that declares a name global, cannot be executed as an autonomous function unless the name is a builtin, its own name, a function of its island, or one the framework injects or uses for its decorators; neither can one that declares a name nonlocal without binding it in an enclosing function of its own, and one that yields is refused at decoration. A function all of whose names are parameters of any kind, or bound or imported earlier in its text, or builtins, is accepted.",
 ["programs"], "all functions within the supported syntax (no type parameter lists)",
 "Tests analyze a couple of dozen fixed snippets; the guarantee is over all programs.",
 ["_060_autonomous_functions/names_usage_analyzer.py", "_060_autonomous_functions/autonomous_core_classes.py"],
 [("NamesUsageAnalyzer", "_060_autonomous_functions/names_usage_analyzer.py"), ("AutonomousFn._begin_fn_registration, _complete_fn_registration", "_060_autonomous_functions/autonomous_core_classes.py")],
 obs=["acceptance or rejection, reported names"])

prop("C13", "Dependencies are the reflexive transitive closure of references",
 "For any collection of functions, the dependencies reported for each one are exactly those functions of the collection that can be reached from it by following references, itself included. A function refers to every name that it declares global or that it reads without binding it anywhere, and to no name that it does not read. The answer does not depend on the order in which the functions are listed, and the computation ends for every reference graph, with or without cycles.",
 ["programs", "inputs"], "all finite reference graphs in all listing orders",
 "Tests cover some chains, diamonds and loops of fixed size; the guarantee is over all graphs.",
 ["_060_autonomous_functions/call_graph_explorer.py"],
 [("get_referenced_names, explore_call_graph_shallow, explore_call_graph_deep", "_060_autonomous_functions/call_graph_explorer.py")],
 obs=["reported dependencies"])

prop("C14", "A name in an island stands for one function during a session",
 "Declaring a function again under the same name, island and portal is accepted when its normalized source, its kind and its declaration are the same, and is refused otherwise; a refused declaration leaves the existing one registered, unchanged and working. Whether an identical declaration is accepted does not depend on what was executed in between. Islands, and portals, do not affect one another.",
 ["histories", "programs"], "all sequences of declarations and executions over any names, islands and portals",
 "Tests redeclare one or two functions; the guarantee is over all declaration histories.",
 ["_060_autonomous_functions/autonomous_core_classes.py", "_070_pure_functions/pure_core_classes.py"],
 [("AutonomousFn._begin_fn_registration, update", "_060_autonomous_functions/autonomous_core_classes.py"), ("PureFn._begin_fn_registration, update", "_070_pure_functions/pure_core_classes.py")],
 [("known functions", "functions by island and name", "_060_autonomous_functions/autonomous_core_classes.py")],
 ["acceptance, registered functions, call results"])

prop("C15", "Pure-function results are computed once and reused everywhere",
 "Executing a pure function for arguments whose result is held by its portal or by any other known portal returns that result without running the body, unless a consistency check is drawn; otherwise the body runs exactly once, and its result is stored and returned. When a check is drawn the body runs again, a differing result raises an error, and the stored result never changes. A failing body stores no result, and the portal's check probability is the same after every call, successful or not.",
 ["histories", "inputs", "configurations", "fault_sequences"], "all functions, arguments, stored contents of all portals, check probabilities and draws, failing bodies",
 "Tests call a few functions twice in one portal; checks that fail, draws and several portals are not exercised.",
 ["_070_pure_functions/pure_core_classes.py"],
 [("PureFn.execute, run", "_070_pure_functions/pure_core_classes.py"), ("PureFnExecutionResultAddr.ready, _ready_in_noncurrent_portals, execute, get", "_070_pure_functions/pure_core_classes.py")],
 [("execution_results", "append-only store of results", "_070_pure_functions/pure_core_classes.py")],
 ["number of body runs, return values, stored results"])

prop("C16", "Execution requests are pending exactly until the result exists",
 "Requesting execution of a call leaves a pending request if its result is not available yet, and none if it is; a successful execution leaves none, a failed one leaves the request pending, and no other call's request is affected. Waiting for a result never runs the function; it returns the result if it becomes available within the timeout, and otherwise raises TimeoutError, never before the timeout has elapsed and at most about a second after it, leaving the request pending.",
 ["histories", "inputs", "schedules", "fault_sequences"], "all calls, timeouts, moments at which another process delivers the result, failing bodies",
 "Tests check one immediate result; the moments of arrival and the clock are never varied.",
 ["_070_pure_functions/pure_core_classes.py"],
 [("PureFnExecutionResultAddr.request_execution, drop_execution_request, execution_requested, get", "_070_pure_functions/pure_core_classes.py"), ("PureFn.execute, swarm", "_070_pure_functions/pure_core_classes.py")],
 [("execution_requests", "set of pending calls", "_070_pure_functions/pure_core_classes.py")],
 ["pending requests, return values, TimeoutError"])

prop("C17", "Retry policy: when a call is offered for execution",
 "A call whose result is available is never offered for execution. A call without a result is offered if it has never been attempted, or if it has been attempted n times with n at most 5 and more than 10 * 2**n seconds have passed since the latest attempt, and not otherwise.",
 ["inputs", "histories"], "all numbers of attempts and all attempt times",
 "Tests cannot wait for minutes or produce many attempts; one or two states are sampled.",
 ["_070_pure_functions/pure_core_classes.py"],
 [("PureFnExecutionResultAddr.needs_execution", "_070_pure_functions/pure_core_classes.py")],
 [("execution attempts", "timestamped attempt records of a call", "_070_pure_functions/pure_core_classes.py")],
 ["needs_execution"])

prop("C18", "Every run of a pure function is bracketed and fully recorded",
 "Each run of a pure function's body leaves exactly one attempt record, one output record holding everything printed or logged during the run, a result record if and only if it succeeded, and a crash record if its body raised an exception (unless an inner run has already recorded that exception); all carry the identifier of that run, and the record of one run never shows data of another. Afterwards, whether the body or the storage failed or not, output streams, entered portals and the function's stack of running calls are as before the run.",
 ["histories", "inputs", "fault_sequences"], "all bodies (successful, failing, recursive, printing), all arguments, storage failures at any write of a run",
 "Tests look at one or two runs; failures and nested runs are not exercised.",
 ["_070_pure_functions/pure_core_classes.py", "_810_output_manipulators/output_capturer.py"],
 [("PureFnExecutionFrame", "_070_pure_functions/pure_core_classes.py"), ("PureFnExecutionRecord", "_070_pure_functions/pure_core_classes.py"), ("PureFnExecutionResultAddr.execution_records", "_070_pure_functions/pure_core_classes.py")],
 [("run_history", "records of runs by call and run", "_070_pure_functions/pure_core_classes.py")],
 ["run records, streams, entered portals, call stack"])

prop("C19", "Guards decide whether a pure function may run",
 "The body of a guarded pure function runs only after every one of its guards has been run with the actual argument values and completed without an exception; if any guard fails, the body does not run, the execution raises, no result is stored, and asking whether the call can be executed answers no instead of raising. The answer does not depend on the order in which the guards are listed or on whether the call is made directly or through its address. Only strictly autonomous functions of the same island and portal are accepted as guard objects, and only known names as guard names.",
 ["inputs", "histories", "programs"], "any number of guards with any outcomes, all arguments, calls made directly, through an address, or by a worker",
 "Tests use one or two guards that ignore the arguments.",
 ["_070_pure_functions/pure_core_classes.py"],
 [("PureFn.can_be_executed, _preprocess_guards, execute", "_070_pure_functions/pure_core_classes.py"), ("PureFnExecutionResultAddr.can_be_executed", "_070_pure_functions/pure_core_classes.py")],
 obs=["body runs, guard runs, results, exceptions"])

S810 = "_810_output_manipulators/"
prop("C20", "Output capture is complete, transparent and always undone",
 "While output is captured, everything written to the standard streams or logged through the root logger appears in the captured text, in order and exactly once, and still reaches the original streams and, subject to their levels, the original log handlers exactly once. While output is suppressed, nothing written to the standard streams reaches the original ones. After either block, left normally or by an exception and however blocks are nested, the streams in place before it are back, and after a capturing block so are the root log handlers.",
 ["inputs", "histories", "fault_sequences"], "all sequences of writes and log records, all nestings, all exceptions",
 "Tests print a few fixed lines; nesting, handler levels and exceptions are not covered.",
 [S810+"output_capturer.py", S810+"output_suppressor.py"],
 [("OutputCapturer", S810+"output_capturer.py"), ("OutputSuppressor", S810+"output_suppressor.py")],
 [("sys.stdout, sys.stderr, root handlers", "process-wide output", S810+"output_capturer.py")],
 ["streams, captured text, handlers"])

prop("C21", "Pickling never carries portals or cached data",
 "Portals, multi-type dictionaries, ordinary and safe function objects refuse to be pickled. The pickled form of an address, a call signature, or an autonomous or pure function contains neither a portal nor a cached value, result or argument, and is the same whether or not the object was used before pickling. An object unpickled inside a portal's `with` block has the same identity as the original and works with the current portal; a copy of an address has its identity and none of its cached data.",
 ["histories", "inputs"], "all such objects in all states of use, all portals",
 "Tests pickle fresh objects once; states of use and portal changes are not varied.",
 ["_010_basic_portals/portal_aware_classes.py", "_010_basic_portals/foundation.py", "_030_data_portals/value_addresses.py", "_070_pure_functions/pure_core_classes.py", "_060_autonomous_functions/autonomous_core_classes.py", "_800_persidict_extensions/overlapping_multi_dict.py"],
 [("__getstate__ / __setstate__ of BasicPortal, ValueAddr, PureFnCallSignature, PureFnExecutionResultAddr, AutonomousFn, PureFn, OverlappingMultiDict", "_070_pure_functions/pure_core_classes.py")],
 obs=["pickled state, restored objects"])

prop("C22", "Swarm workers run only eligible requests of a live parent",
 "A worker runs a call only if it was requested, has no available result, is due for an attempt, and its guards pass, and it runs at most one call per request-processing process; it ends without running anything further once the parent runtime is gone. Workers never start workers of their own. Creating a portal starts exactly the configured number of workers, each set up with the same storage, settings and runtime identity; clearing the portal or ending the program removes the mark that keeps them alive.",
 ["histories", "schedules", "configurations"], "all populations of requests, all moments at which the parent ends, all worker counts",
 "Tests start real processes for a few requests and only look at the final results.",
 ["_090_swarming_portals/swarming_portals.py"],
 [("SwarmingPortal.__init__, _launch_background_worker, parent_runtime_is_live, _clear", "_090_swarming_portals/swarming_portals.py"),
  ("_background_worker, _process_random_execution_request, _clean_runtime_id", "_090_swarming_portals/swarming_portals.py")],
 [("compute_nodes", "runtime identity by node", "_090_swarming_portals/swarming_portals.py")],
 ["executed calls, started processes, runtime mark"])

prop("C23", "Portals over the same storage share one append-only record",
 "A portal rebuilt from its reported parameters has the same storage and settings, and portals over the same storage see the same values, results, requests and logs. Through a portal, stored values, results, crash and event records, attempts, outputs and result records of runs can be added but neither replaced nor deleted, while requests can be removed. A consistency-check probability outside [0, 1], an empty island name and a negative number of workers are refused, and the default portal is always one and the same object.",
 ["configurations", "histories", "inputs"], "all portal classes and parameter values, all storages",
 "Tests rebuild each portal class once with one set of parameters.",
 ["_010_basic_portals/foundation.py", "_020_logging_portals/logging_portals.py", "_030_data_portals/data_portals.py", "_060_autonomous_functions/autonomous_core_classes.py", "_070_pure_functions/pure_core_classes.py", "_090_swarming_portals/swarming_portals.py", "_100_default_local_portals/default_local_portal.py"],
 [("__init__ and get_params of the portal classes", "_070_pure_functions/pure_core_classes.py")],
 obs=["parameters of the stores, contents seen by a second portal"])

prop("C24", "A pure function travels with everything it needs",
 "From its pickled form, a pure function is restored in a new session together with every function it depends on, directly or indirectly, and every guard of any of these; it gives the same results and the same call addresses as the original. Its augmented source lists each needed function exactly once with its decorator, independent of declaration or execution order. Replaying a source text that contains anything but functions with exactly one Pythagoras decorator is refused, and literal decorator arguments survive the conversion to and from syntax trees unchanged.",
 ["programs", "histories"], "all dependency graphs and guard assignments, all declaration orders, all literal arguments",
 "Tests restore two-function chains; graphs with guards and cycles are not covered.",
 ["_070_pure_functions/pure_core_classes.py", "_070_pure_functions/process_augmented_func_src.py", "_070_pure_functions/astkeywords_dict_convertors.py"],
 [("PureFn._complete_fn_registration, __getstate__, __setstate__", "_070_pure_functions/pure_core_classes.py"),
  ("process_augmented_func_src", "_070_pure_functions/process_augmented_func_src.py"),
  ("convert_astkeywords_to_dict, convert_dict_to_astkeywords", "_070_pure_functions/astkeywords_dict_convertors.py")],
 obs=["restored functions, addresses, results"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
