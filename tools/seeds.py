"""The planted bugs: see make_seeds.py."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs,
                      breaks=breaks, demo=demo))


PURE = "_070_pure_functions/pure_core_classes.py"
FND = "_010_basic_portals/foundation.py"
LOG = "_020_logging_portals/logging_portals.py"
VAL = "_030_data_portals/value_addresses.py"
AUT = "_060_autonomous_functions/autonomous_core_classes.py"

seed("C01-short-digest", "C01",
     [("_820_strings_signatures_converters/hash_signatures.py",
       "    return get_base32_hash_signature(x)[:max_signature_length]",
       "    return get_base32_hash_signature(x).zfill(52)"
       "[:max_signature_length]")],
     "a value whose SHA-256 digest has at least one leading zero bit beyond "
     "what 52 digits hold, that is, whose base-32 text has 51 digits or less",
     "signatures of such values get a leading zero that is no digit of the "
     "number: they are no longer the first 22 digits of its base-32 text",
     """
     from pythagoras._820_strings_signatures_converters.hash_signatures import (
         get_hash_signature, get_base16_hash_signature)
     alphabet = "0123456789abcdefghijklmnopqrstuv"
     seen = 0
     for i in range(400):
         n, text = int(get_base16_hash_signature(i), 16), ""
         while n:
             n, r = divmod(n, 32)
             text = alphabet[r] + text
         seen += len(text) < 52
         check(get_hash_signature(i) == text[:22], f"signature of {i}")
     check(seen, "no digest with leading zeroes was tried")
     """)

seed("C02-eq-other-kind", "C02",
     [("_030_data_portals/hash_addresses.py",
       "        return type(self) == type(other) and self.str_chain == "
       "other.str_chain",
       "        return isinstance(other, HashAddr) and self.str_chain == "
       "other.str_chain")],
     "two addresses of different kinds that carry the same two texts",
     "an address of a value equals an address of a result",
     """
     with portal("a") as p:
         f = pth.pure(portal=p)("def f(x):\\n    return x + 1")
         r = f.get_address(x=1)
         v = pth.ValueAddr.from_strings(prefix=r.prefix
             , hash_signature=r.hash_signature, portal=p
             , assert_readiness=False)
         check(not (r == v), "addresses of different kinds are equal")
         check(r != v, "addresses of different kinds are equal")
     """)

seed("C03-copy-to-current", "C03",
     [(VAL,
       "                    data = portal.value_store[self]\n"
       "                    with self.portal:\n"
       "                        self.portal.value_store[self] = data\n"
       "                    self._ready = True\n",
       "                    data = portal.value_store[self]\n"
       "                    self._value = data\n"
       "                    self._ready = True\n")],
     "a readiness query that finds the value in another portal, and then "
     "something that needs the value in the address's own portal",
     "a positive readiness query does not copy the value any more",
     """
     a, b = portal("a"), portal("b")
     with b:
         there = pth.ValueAddr([1, 2, 3])
     here = pth.ValueAddr.from_strings(prefix=there.prefix
         , hash_signature=there.hash_signature, portal=a
         , assert_readiness=False)
     check(here.ready, "not ready")
     check(here.get() == [1, 2, 3], "another value")
     check(here in a.value_store, "not copied")
     """)

seed("C04-lost-race", "C04",
     [("_800_persidict_extensions/first_entry_dict.py",
       "            time.sleep(random.random()/random.randint(1,5))\n"
       "            if key in self._wrapped_dict:\n"
       "                check_needed = True\n"
       "            else:\n"
       "                self._wrapped_dict[key] = value\n",
       "            time.sleep(random.random()/random.randint(1,5))\n"
       "            if key not in self._wrapped_dict:\n"
       "                self._wrapped_dict[key] = value\n")],
     "another writer that takes the key between the test and the assignment",
     "a different value of the writer that lost the race is accepted "
     "silently although the check is always drawn",
     """
     from persidict import FileDirDict
     from pythagoras._800_persidict_extensions.first_entry_dict import (
         FirstEntryDict)

     class Racing(FileDirDict):
         armed = False
         def __setitem__(self, key, value):
             if Racing.armed:
                 Racing.armed = False
                 super().__setitem__(key, "the other writer's")
             super().__setitem__(key, value)

     store = Racing(base_dir=os.path.join(work, "s"), immutable_items=True)
     d = FirstEntryDict(store, 1)
     Racing.armed = True
     try:
         d["k"] = "mine"
         raised = False
     except Exception:
         raised = True
     check(store["k"] == "the other writer's", "the first value is gone")
     check(raised, "a different value was accepted silently")
     """)

seed("C05-case-order", "C05",
     [("_070_pure_functions/kw_args.py",
       "        for k in sorted(kargs):",
       "        for k in sorted(kargs, key=str.lower):")],
     "two parameters whose names differ only in case",
     "such arguments are listed in the order in which they were given, and "
     "the address of the call depends on it",
     """
     from pythagoras._070_pure_functions.kw_args import SortedKwArgs
     check(list(SortedKwArgs(n=1, N=2)) == ["N", "n"], "order of names")
     with portal("a") as p:
         f = pth.pure(portal=p)("def f(n, N):\\n    return n - N")
         check(f.get_address(n=1, N=2) == f.get_address(N=2, n=1)
             , "the address depends on the order of arguments")
     """)

seed("C06-reentry", "C06",
     [(FND,
       "        if (len(BasicPortal.entered_portals_stack) == 0 or\n"
       "                id(BasicPortal.entered_portals_stack[-1]) "
       "!= id(self)):\n",
       "        if self not in BasicPortal.entered_portals_stack:\n")],
     "a portal entered again while another one is entered inside of it",
     "the inner block of the outer portal does not make it the current one, "
     "and its end is refused",
     """
     a, b = portal("a"), portal("b")
     now = pth.BasicPortal._most_recently_entered_portal
     try:
         with a:
             with b:
                 with a:
                     check(now() is a, "not the current one inside")
                 check(now() is b, "not restored")
             check(now() is a, "not restored")
     except AssertionError as e:
         check(False, "refused")
     check(now() is None, "something is left")
     """)

seed("C07-entered-order", "C07",
     [(FND,
       "        for portal in reversed(BasicPortal.entered_portals_stack):\n"
       "            entered_portals[id(portal)] = portal\n"
       "        result = list(entered_portals.values())\n",
       "        for portal in BasicPortal.entered_portals_stack:\n"
       "            entered_portals[id(portal)] = portal\n"
       "        result = list(reversed(entered_portals.values()))\n")],
     "nested blocks that enter the same portal again further inside",
     "the list of entered portals does not begin with the innermost one",
     """
     a, b, c = portal("a"), portal("b"), portal("c")
     entered = pth.BasicPortal.get_entered_portals
     with a, b:
         check([id(x) for x in entered()] == [id(b), id(a)], "two")
         with a:
             check([id(x) for x in entered()] == [id(a), id(b)], "again")
             with c:
                 check([id(x) for x in entered()] == [id(c), id(a), id(b)]
                     , "three")
     """)

seed("C08-last-note", "C08",
     [(LOG,
       "            if \"__suppress_logging__\" in exc_value.__notes__:",
       "            if \"__suppress_logging__\" == exc_value.__notes__[-1]:")],
     "an exception to which the program adds a note on its way from one "
     "block to the next",
     "the exception is recorded twice",
     """
     a, b = portal("a"), portal("b")
     try:
         with a:
             try:
                 with b:
                     raise ValueError("x")
             except ValueError as e:
                 e.add_note("while doing something")
                 raise
     except ValueError:
         pass
     n = len([k for k in a.crash_history if k[0] == "__CATCH_ALL__"])
     check(n == 1, f"{n} records in the outer portal")
     """)

seed("C08-hook-twice", "C08",
     [(LOG,
       "        if not LoggingPortal.exception_handlers_registered:\n"
       "            register_systemwide_uncaught_exception_handlers()\n"
       "        LoggingPortal.exception_handlers_registered = True\n",
       "        if not LoggingPortal.exception_handlers_registered or (\n"
       "                sys.excepthook is not pth_excepthook):\n"
       "            register_systemwide_uncaught_exception_handlers()\n"
       "        LoggingPortal.exception_handlers_registered = True\n")],
     "a program that installs a hook of its own between the creation of two "
     "portals",
     "clearing all portals puts back the hook that was in force before the "
     "second portal, not before the first",
     """
     first = sys.excepthook
     a = portal("a")
     def own(*args):
         pass
     sys.excepthook = own
     b = portal("b")
     pth.SwarmingPortal._clear_all()
     check(sys.excepthook is first, f"hook is {sys.excepthook}")
     """)

seed("C09-once-more", "C09",
     [(LOG,
       "        while candidate in existing_names:\n"
       "            candidate = desired_name + \"_\"\n",
       "        if candidate in existing_names:\n"
       "            candidate = desired_name + \"_\"\n")],
     "a drawn name that exists as well",
     "the caller's item is overwritten by the summary of the environment",
     """
     import random
     L = pth.LoggingPortal
     L.entropy_infuser = random.Random(7)
     n = random.Random(7).randint(1, 10_000_000_000)
     taken = {"x": 1, f"x_{n}": 2}
     name = L.make_unique_name("x", taken)
     check(name not in taken, "the name is taken")
     """)

seed("C10-last-parameter", "C10",
     [("_040_ordinary_functions/check_n_positional_args.py",
       "    for param in signature.parameters.values():\n"
       "        if param.kind == inspect.Parameter.VAR_POSITIONAL:\n"
       "            return True\n"
       "    return False\n",
       "    kinds = [p.kind for p in signature.parameters.values()]\n"
       "    while kinds and kinds[-1] == inspect.Parameter.VAR_KEYWORD:\n"
       "        kinds.pop()\n"
       "    return kinds[-1:] == [inspect.Parameter.VAR_POSITIONAL]\n")],
     "a function with keyword-only parameters after *args",
     "a function that accepts arbitrary positional arguments is accepted",
     """
     from pythagoras._040_ordinary_functions.assert_ordinarity import (
         assert_ordinarity)
     def f(x, *args, key=1, **kw):
         return x
     try:
         assert_ordinarity(f)
         ok = False
     except AssertionError:
         ok = True
     check(ok, "accepted")
     """)

seed("C12-nested-global", "C12",
     [("_060_autonomous_functions/names_usage_analyzer.py",
       "            self.names.explicitly_global_unbound_deep |= "
       "nested.names.explicitly_global_unbound_deep\n",
       "            self.names.explicitly_global_unbound_deep |= (\n"
       "                nested.names.explicitly_global_unbound_deep\n"
       "                - self.names.accessible)\n")],
     "an inner function that declares a name global which the outer function "
     "binds locally",
     "the function counts as self-contained although it uses a global name",
     """
     with portal("a") as p:
         f = pth.autonomous(portal=p)('''def f(x):
             counter = x
             def g():
                 global counter
                 return counter
             return g() + counter''')
         try:
             f.execute(x=1)
             ok = False
         except AssertionError:
             ok = True
         except NameError:
             ok = False
         check(ok, "accepted")
     """)

seed("C13-global-reference", "C13",
     [("_060_autonomous_functions/call_graph_explorer.py",
       "    referenced_names |= "
       "analyzer.names.explicitly_global_unbound_deep\n"
       "    referenced_names |= "
       "analyzer.names.explicitly_nonlocal_unbound_deep\n",
       "    referenced_names |= "
       "analyzer.names.explicitly_nonlocal_unbound_deep\n")],
     "a function that declares another one global before it uses it",
     "the other function is not among its dependencies",
     """
     from pythagoras._060_autonomous_functions.call_graph_explorer import (
         explore_call_graph_deep)
     f = "def f(x):\\n    global g\\n    return g(x=x)\\n"
     g = "def g(x):\\n    return x\\n"
     r = explore_call_graph_deep([f, g])
     check(r["f"] == {"f", "g"}, r)
     """)

seed("C14-update-first", "C14",
     [(AUT,
       "            assert type(self) == type(island[fn_name])\n"
       "            self.update(island[fn_name])\n"
       "            return\n",
       "            self.update(island[fn_name])\n"
       "            return\n")],
     "a function declared again with the same source and island by another "
     "kind of decorator whose text is the same",
     "an autonomous function and a redeclaration of another kind are taken "
     "for the same",
     """
     from pythagoras._060_autonomous_functions.autonomous_core_classes import (
         AutonomousFn)
     with portal("a") as p:
         class Other(AutonomousFn):
             def __init__(self, *args, **kw):
                 super().__init__(*args, **kw)
                 self._begin_fn_registration()
         src = "def f(x):\\n    return x"
         f = AutonomousFn(src, portal=p)
         try:
             Other(src, portal=p)
             ok = False
         except AssertionError:
             ok = True
         check(ok, "another kind was accepted")
     """)

seed("C15-p-not-restored", "C15",
     [(PURE,
       "                except:\n"
       "                    raise # TODO: raise a proper exception here\n"
       "                finally:\n"
       "                    portal.execution_results._p_consistency_checks "
       "= (\n"
       "                        p_consistency_checks)\n",
       "                except:\n"
       "                    raise # TODO: raise a proper exception here\n"
       "                portal.execution_results._p_consistency_checks = (\n"
       "                    p_consistency_checks)\n")],
     "a drawn check that finds a differing result, and a later call",
     "after the error every result written by this portal is checked",
     """
     import builtins
     builtins.tick = 0
     with portal("a", p_consistency_checks=0.5) as p:
         f = pth.pure(portal=p)('''def f(x):
             import builtins
             builtins.tick += 1
             return builtins.tick''')
         f.execute(x=1)
         p.entropy_infuser.random = lambda: 0.1
         try:
             f.execute(x=1)
             check(False, "no error")
         except AssertionError:
             pass
         check(p.execution_results._p_consistency_checks == 0.5
             , p.execution_results._p_consistency_checks)
     """)

seed("C17-latest-by-name", "C17",
     [(PURE,
       "            most_recent_timestamp = max(\n"
       "                past_attempts.timestamp(a) for a in past_attempts)\n",
       "            most_recent_timestamp = past_attempts.timestamp(\n"
       "                sorted(past_attempts, key=str)[-1])\n")],
     "several attempts whose random names do not sort by time",
     "the time since the latest attempt is measured from another attempt",
     """
     import time
     with portal("a") as p:
         f = pth.pure(portal=p)("def f(x):\\n    return x")
         addr = f.get_address(x=1)
         attempts = addr.execution_attempts
         attempts["runz_a"] = dict(n=1)
         attempts["runa_a"] = dict(n=2)
         base = os.path.join(work, "a", "run_history")
         old = time.time() - 10000
         n = 0
         for d, _, files in os.walk(base):
             for x in files:
                 if x.startswith("runz_a"):
                     os.utime(os.path.join(d, x), (old, old))
                     n += 1
         check(n == 1, "no attempt record found")
         check(not addr.needs_execution
             , "offered again right after an attempt")
     """)

seed("C19-guard-order", "C19",
     [(PURE,
       "        result_names = sorted(result_names)\n"
       "        return result_names\n",
       "        return result_names\n")],
     "two guards given in another order",
     "the address of the call depends on the order of guards",
     """
     def declare(p, guards):
         for n in "gh":
             pth.strictly_autonomous(portal=p)(
                 f"def {n}(x):\\n    return None")
         return pth.pure(guards=guards, portal=p)("def f(x):\\n    return x")
     addrs = []
     for name, guards in (("a", ["g", "h"]), ("b", ["h", "g"])):
         with portal(name) as p:
             addrs.append(declare(p, guards).get_address(x=1))
     check(addrs[0] == addrs[1], "the address depends on the order of guards")
     """)

seed("C19-first-guard", "C19",
     [(PURE,
       "                    for f in self.guards:\n"
       "                        island[f].execute(**kwargs)\n"
       "                return True\n",
       "                    for f in set(self.guards):\n"
       "                        if not island[f]._fn_fully_registered \\\n"
       "                                or len(kwargs) > 0:\n"
       "                            island[f].execute(**kwargs)\n"
       "                return True\n")],
     "a call without arguments whose guard has been run before",
     "the guard is not asked again",
     """
     import builtins
     builtins.allowed, builtins.bodies = True, 0
     with portal("a") as p:
         pth.autonomous(portal=p)('''def g():
             import builtins
             assert builtins.allowed''')
         f = pth.pure(guards=["g"], portal=p)('''def f():
             import builtins
             builtins.bodies += 1
             return 1''')
         addr = f.get_address()
         check(addr.can_be_executed, "refused")
         builtins.allowed = False
         check(not addr.can_be_executed, "the guard was not asked again")
     """)

seed("C20-shared-devnull", "C20",
     [("_810_output_manipulators/output_suppressor.py",
       "        self.devnull = open(os.devnull, 'w')\n",
       "        if getattr(OutputSuppressor, 'devnull', None) is None:\n"
       "            OutputSuppressor.devnull = open(os.devnull, 'w')\n"),
      ("_810_output_manipulators/output_suppressor.py",
       "        if self.devnull:\n"
       "            self.devnull.close()",
       "        if self.devnull and not sys.stdout is self.devnull:\n"
       "            self.devnull.flush()\n"
       "        sys.stderr = self.old_stdout")],
     "a program whose two streams differ",
     "the error stream is not what it was before the block",
     """
     import io
     out, err = io.StringIO(), io.StringIO()
     so, se = sys.stdout, sys.stderr
     sys.stdout, sys.stderr = out, err
     with pth.OutputSuppressor():
         print("x")
     good = sys.stdout is out and sys.stderr is err
     sys.stdout, sys.stderr = so, se
     check(good, "streams differ")
     """)

seed("C21-unbound-copy", "C21",
     [(PURE,
       "    def __setstate__(self, state):\n"
       "        assert len(state) == 1\n"
       "        self.str_chain = state[\"str_chain\"]\n"
       "        self._invalidate_cache()\n",
       "    def __setstate__(self, state):\n"
       "        self.__dict__.update(state)\n"
       "        assert len(self.str_chain) == 2\n"),
      (PURE,
       "    def __getstate__(self):\n"
       "        state = dict(str_chain=self.str_chain)\n"
       "        return state\n",
       "    def __getstate__(self):\n"
       "        state = {k: v for k, v in self.__dict__.items()\n"
       "            if k in (\"str_chain\", \"_ready\")}\n"
       "        return state\n")],
     "an address of a result that was found ready before it was pickled",
     "the pickled form depends on the use and carries cached readiness into "
     "a session where the result is missing",
     """
     import pickle
     with portal("a") as p:
         f = pth.pure(portal=p)("def f(x):\\n    return x")
         addr = f.get_address(x=1)
         before = pickle.dumps(addr)
         addr.execute()
         check(addr.ready, "not ready")
         check(pickle.dumps(addr) == before, "depends on the use")
     """)

seed("C22-orphan", "C22",
     [("_090_swarming_portals/swarming_portals.py",
       "            candidate_addresses = []\n"
       "            while len(candidate_addresses) == 0:\n"
       "                if not portal.parent_runtime_is_live():\n"
       "                    return\n",
       "            candidate_addresses = []\n"
       "            if not portal.parent_runtime_is_live():\n"
       "                return\n"
       "            while len(candidate_addresses) == 0:\n")],
     "a parent that ends while the worker waits for requests",
     "the worker runs a call after its parent is gone",
     """
     import pythagoras._090_swarming_portals.swarming_portals as m
     p = portal("a")
     ran = os.path.join(work, "ran")
     with p:
         f = pth.pure(portal=p)(
             "def f(path):\\n    open(path, 'w').close()\\n    return 1")
     params = p.__get_portable_params__()
     node = [p.node_id, "runtime_id"]
     waits = []
     def wait(self, *args, **kw):
         if waits:
             os._exit(0 if not os.path.exists(ran) else 1)
         waits.append(1)
         p.compute_nodes.pkl.delete_if_exists(node)
         with p:
             f.swarm(path=ran)
     m.SwarmingPortal._randomly_delay_execution = wait
     m._process_random_execution_request(**params)
     check(not os.path.exists(ran), "ran without a parent")
     """)

seed("C23-mutable-results", "C23",
     [(PURE,
       "            , pkl=dict(immutable_items=True)\n",
       "            , pkl=dict(immutable_items=False)\n")],
     "a second result record under the identifier of a run",
     "recorded results of runs can be replaced and deleted",
     """
     with portal("a") as p:
         f = pth.pure(portal=p)("def f(x):\\n    return x")
         addr = f.get_address(x=1)
         addr.execute()
         key = list(p.run_history.pkl)[0]
         try:
             p.run_history.pkl[key] = pth.ValueAddr("forged")
             ok = False
         except KeyError:
             ok = True
         check(ok, "the record was replaced")
     """)

seed("C24-skipped-code", "C24",
     [("_070_pure_functions/process_augmented_func_src.py",
       "        assert isinstance(node, ast.FunctionDef), (\n"
       "            \"The augmented function code can only consist of\"\n"
       "            \" function definitions.\")\n",
       "        if isinstance(node, (ast.Expr, ast.Pass)):\n"
       "            continue # neither can define anything\n"
       "        assert isinstance(node, ast.FunctionDef), (\n"
       "            \"The augmented function code can only consist of\"\n"
       "            \" function definitions.\")\n")],
     "a text with expressions between the functions",
     "a text that contains something else than functions is replayed",
     """
     from pythagoras._070_pure_functions.process_augmented_func_src import (
         process_augmented_func_src)
     with portal("a") as p:
         try:
             process_augmented_func_src(
                 "@pth.pure()\\ndef f(x):\\n    return x\\n\\nprint(1)\\n"
                 , portal=p)
             ok = False
         except AssertionError:
             ok = True
         check(ok, "accepted")
     """)

seed("C03-copy-to-source", "C03",
     [(VAL,
       "                with self.portal:\n"
       "                    self.portal.value_store[self] = result\n"
       "                self._value = result\n",
       "                with self.portal:\n"
       "                    portal.value_store[self] = result\n"
       "                self._value = result\n")],
     "a retrieval through an address whose own portal lacks the value, and "
     "then a session in which only that portal is known",
     "the value is not copied to the portal of the address",
     """
     a, b = portal("a"), portal("b")
     with b:
         there = pth.ValueAddr([1, 2, 3])
     here = pth.ValueAddr.from_strings(prefix=there.prefix
         , hash_signature=there.hash_signature, portal=a
         , assert_readiness=False)
     check(here.get() == [1, 2, 3], "another value")
     check(here in a.value_store, "not copied")
     """)

seed("C16-long-wait", "C16",
     [(PURE,
       "                            backoff_period = stop_time - "
       "current_time\n",
       "                            backoff_period = min(\n"
       "                                backoff_period, timeout)\n")],
     "a timeout that is no sum of the doubling waits",
     "TimeoutError is raised several seconds after the timeout",
     """
     import pythagoras._070_pure_functions.pure_core_classes as m
     a = portal("a")
     class Clock:
         now = 1000.0
         def time(self):
             return Clock.now
         def sleep(self, s):
             Clock.now += s
     with a:
         f = pth.pure(portal=a)("def f(x):\\n    return 42")
         addr = f.get_address(x=1)
         m.time = Clock()
         a.entropy_infuser.uniform = lambda a, b: 0.0
         for timeout in (3, 5, 8, 20):
             start = Clock.now
             try:
                 addr.get(timeout=timeout)
                 check(False, "a result from nowhere")
             except TimeoutError:
                 pass
             took = Clock.now - start
             check(timeout <= took <= timeout + 1.5, (timeout, took))
     """)

seed("C18-outermost-run", "C18",
     [(PURE,
       "        if len(self.call_stack) and data_to_persist is not None:\n"
       "            current_frame = self.call_stack[-1]\n",
       "        if len(self.call_stack) and data_to_persist is not None:\n"
       "            current_frame = self.call_stack[0]\n")],
     "a recursive function whose inner run fails",
     "the crash record of an inner run is filed under the outer call",
     """
     with portal("a") as p:
         f = pth.pure(portal=p)('''def f(n):
             if n == 0:
                 raise ValueError("zero")
             return f(n=n - 1)''')
         try:
             f.execute(n=1)
         except ValueError:
             pass
         inner, outer = f.get_address(n=0), f.get_address(n=1)
         check(len(inner.execution_records) == 1, "one inner run")
         check(len(inner.execution_records[0].crashes) == 1
             , "the inner run has no crash record")
         check(len(outer.crashes) == 0, "the outer call has the record")
     """)

# second round

seed("C01-float-division", "C01",
     [("_820_strings_signatures_converters/base_16_32_convertors.py",
       "        base32_str = base32_alphabet[n & 31] + base32_str\n"
       "        n >>= 5\n",
       "        base32_str = base32_alphabet[n % 32] + base32_str\n"
       "        n = n >> 5 if n < 1 << 300 else int(n / 32)\n")],
     "a number of more than 300 bits",
     "the text of a large number denotes another number",
     """
     from pythagoras._820_strings_signatures_converters.base_16_32_convertors \\
         import convert_int_to_base32, convert_base_32_to_int
     for n in (0, 31, 2 ** 64 + 1, 2 ** 299 + 7, 3 ** 200 + 1):
         check(convert_base_32_to_int(convert_int_to_base32(n)) == n, n)
     """)

seed("C02-shape-cut", "C02",
     [("_030_data_portals/hash_addresses.py",
       "            for n in x.shape:\n",
       "            for n in tuple(x.shape)[:4]:\n")],
     "an array of more than four dimensions",
     "the address is not preceded by the shape",
     """
     class Tensor:
         def __init__(self, shape):
             self.shape = shape
     import builtins
     with portal("a") as p:
         from pythagoras._030_data_portals.hash_addresses import HashAddr
         sig = HashAddr._build_hash_signature(Tensor((2, 3, 4, 5, 6)))
         check(sig.startswith("shape_2_x_3_x_4_x_5_x_6_"), sig)
     """)

seed("C02-ne-texts", "C02",
     [("_030_data_portals/hash_addresses.py",
       "        return not (self == other)",
       "        return self.str_chain != getattr(other, 'str_chain', None)")],
     "two addresses of different kinds with the same texts, compared by !=",
     "two addresses are neither equal nor different",
     """
     with portal("a") as p:
         f = pth.pure(portal=p)("def f(x):\\n    return x + 1")
         r = f.get_address(x=1)
         v = pth.ValueAddr.from_strings(prefix=r.prefix
             , hash_signature=r.hash_signature, portal=p
             , assert_readiness=False)
         check(v != r and r != v, "not different")
         check(not (v == r), "equal")
     """)

seed("C03-none", "C03",
     [(VAL,
       "            try:\n"
       "                with portal:\n"
       "                    result = portal.value_store[self]\n",
       "            try:\n"
       "                with portal:\n"
       "                    result = portal.value_store.get(self)\n"
       "                assert result is not None\n")],
     "the value None, stored in another portal only",
     "None is reported as missing although a known portal holds it",
     """
     a, b = portal("a"), portal("b")
     with b:
         there = pth.ValueAddr(None)
     here = pth.ValueAddr.from_strings(prefix=there.prefix
         , hash_signature=there.hash_signature, portal=a
         , assert_readiness=False)
     try:
         here.get()
         ok = True
     except KeyError:
         ok = False
     check(ok, "None is not retrievable")
     """)

seed("C04-order", "C04",
     [("_800_persidict_extensions/first_entry_dict.py",
       "                diff_dict = DeepDiff(self._wrapped_dict[key], value)\n",
       "                diff_dict = DeepDiff(\n"
       "                    self._wrapped_dict[key], value"
       ", ignore_order=True)\n")],
     "a second value that differs in the order of its items only",
     "a differing value is accepted although the check is drawn",
     """
     from persidict import FileDirDict
     from pythagoras._800_persidict_extensions.first_entry_dict import (
         FirstEntryDict)
     store = FileDirDict(base_dir=os.path.join(work, "s")
         , immutable_items=True)
     d = FirstEntryDict(store, 1)
     d["k"] = [1, 2]
     try:
         d["k"] = [2, 1]
         ok = False
     except AssertionError:
         ok = True
     check(ok, "accepted")
     """)

seed("C05-falsy", "C05",
     [("_070_pure_functions/kw_args.py",
       "                unpacked_copy[k] = v.get()\n",
       "                unpacked_copy[k] = v.get() or v\n")],
     "an argument with a false value",
     "unpacking leaves the address in place of a false value",
     """
     from pythagoras._070_pure_functions.kw_args import SortedKwArgs
     with portal("a") as p:
         packed = SortedKwArgs(a=1, b=0, c=[]).pack(p)
         got = packed.unpack()
         check(dict(got) == dict(a=1, b=0, c=[]), got)
     """)

seed("C06-exit-all", "C06",
     [(FND,
       "        while len(BasicPortal.entered_portals_stack) > 0:\n"
       "            portal = BasicPortal.entered_portals_stack[-1]\n"
       "            portal.__exit__(None, None, None)\n",
       "        for portal in reversed(list("
       "BasicPortal.entered_portals_stack)):\n"
       "            portal.__exit__(None, None, None)\n")],
     "a portal entered twice in a row",
     "exiting all portals leaves one entered",
     """
     a, b = portal("a"), portal("b")
     for x in (a, b, b):
         x.__enter__()
     try:
         pth.BasicPortal.__exit_all__()
     except AssertionError:
         check(False, "refused")
     check(pth.BasicPortal._most_recently_entered_portal() is None
         , "a portal is still entered")
     """)

seed("C07-highest-id", "C07",
     [(FND,
       "        last_key = next(reversed(BasicPortal.all_portals))\n",
       "        last_key = max(BasicPortal.all_portals)\n")],
     "portals that are not created in the order of their addresses in memory",
     "the most recently created portal is not the one used",
     """
     hole = [object.__new__(pth.SwarmingPortal) for _ in range(50)]
     for i in range(20):
         hole.pop()
         p = portal(f"p{i}")
         check(pth.BasicPortal.get_most_recently_added_portal() is p, i)
     """)

seed("C09-false-messages", "C09",
     [(LOG,
       "        if len(args):\n"
       "            message_param_name = \"message_list\"\n",
       "        if any(args):\n"
       "            message_param_name = \"message_list\"\n")],
     "an event all of whose messages are false values",
     "the positional messages are lost",
     """
     a = portal("a")
     with a:
         pth.LoggingPortal.log_event(None, 0, "", kind="x")
     records = [a.event_log[k] for k in a.event_log]
     check(len(records) == 1 and "message_list" in records[0]
         , "the messages are lost")
     """)

seed("C10-false-positional", "C10",
     [("_040_ordinary_functions/ordinary_core_classes.py",
       "        assert len(args) == 0, (f\"Function {self.fn_name} can't\"",
       "        assert not any(args), (f\"Function {self.fn_name} can't\"")],
     "a positional argument with a false value",
     "the call runs the body without the argument",
     """
     with portal("a") as p:
         f = pth.autonomous(portal=p)("def f(x=5):\\n    return x")
         try:
             f(0)
             ok = False
         except AssertionError:
             ok = True
         check(ok, "accepted")
     """)

seed("C12-registered-early", "C12",
     [(AUT,
       "        analyzer = analyze_names_in_function(self.fn_source_code)\n"
       "        normalized_source = analyzer[\"normalized_source\"]\n"
       "        analyzer = analyzer[\"analyzer\"]\n"
       "        assert self.fn_source_code == normalized_source\n"
       "\n"
       "        nonlocal_names",
       "        island[fn_name] = self\n"
       "        analyzer = analyze_names_in_function(self.fn_source_code)\n"
       "        normalized_source = analyzer[\"normalized_source\"]\n"
       "        analyzer = analyzer[\"analyzer\"]\n"
       "        assert self.fn_source_code == normalized_source\n"
       "\n"
       "        nonlocal_names")],
     "a function refused at its first declaration and declared again",
     "a function that yields is accepted at the second attempt",
     """
     src = "def f(x):\\n    yield x"
     with portal("a") as p:
         for attempt in range(3):
             try:
                 pth.autonomous(portal=p)(src)
                 ok = False
             except AssertionError:
                 ok = True
             check(ok, f"accepted at attempt {attempt}")
     """)

seed("C13-few-rounds", "C13",
     [("_060_autonomous_functions/call_graph_explorer.py",
       "        while True:\n"
       "            dependencies_new = set(dependencies_old)\n",
       "        for _ in range(12): # enough: the sets double every time\n"
       "            dependencies_new = set(dependencies_old)\n")],
     "a chain of references longer than the number of rounds",
     "functions far down a chain are missing in the dependencies",
     """
     from pythagoras._060_autonomous_functions.call_graph_explorer import (
         explore_call_graph_deep)
     n = 40
     fs = [f"def f{i}(x):\\n    return f{i + 1}(x=x)" for i in range(n)]
     fs.append(f"def f{n}(x):\\n    return x")
     r = explore_call_graph_deep(fs)
     for i in range(n + 1):
         check(len(r[f"f{i}"]) == n + 1 - i, (i, len(r[f"f{i}"])))
     """)

seed("C14-other-guards", "C14",
     [(AUT,
       "            assert self.decorator == island[fn_name].decorator, (\n",
       "            assert self.fn_type == island[fn_name].fn_type, (\n")],
     "the same function declared with other guards",
     "a declaration that differs is accepted silently, without its guards",
     """
     with portal("a") as p:
         pth.strictly_autonomous(portal=p)("def g(x):\\n    return None")
         src = "def f(x):\\n    return x"
         pth.pure(portal=p)(src)
         try:
             pth.pure(guards=["g"], portal=p)(src)
             ok = False
         except AssertionError:
             ok = True
         check(ok, "accepted")
     """)

seed("C15-none-result", "C15",
     [(PURE,
       "                    portal.execution_results[output_address] "
       "= result_addr\n",
       "                    if result is not None:\n"
       "                        portal.execution_results["
       "output_address] = (\n"
       "                            result_addr)\n")],
     "a function that returns None",
     "the result is not stored and the body runs at every call",
     """
     import builtins
     builtins.bodies = 0
     with portal("a") as p:
         f = pth.pure(portal=p)('''def f(x):
             import builtins
             builtins.bodies += 1''')
         f.execute(x=1)
         f.execute(x=1)
         check(builtins.bodies == 1, builtins.bodies)
     """)

seed("C16-request-kept", "C16",
     [(PURE,
       "            if self.ready:\n"
       "                self.drop_execution_request()\n"
       "            else:\n"
       "                if self not in portal.execution_requests:\n"
       "                    portal.execution_requests[self] = True\n",
       "            if self not in portal.execution_requests:\n"
       "                if not self.ready:\n"
       "                    portal.execution_requests[self] = True\n")],
     "a pending request whose result was computed in another portal, and "
     "which is requested once more",
     "the request stays although the result is ready",
     """
     src = "def f(x):\\n    return x"
     a, b = portal("a"), portal("b")
     with a:
         f = pth.pure(portal=a)(src)
         addr = f.swarm(x=1)
         check(addr.execution_requested, "not requested")
     with b:
         pth.pure(portal=b)(src).execute(x=1)
     with a:
         f.swarm(x=1)
         check(not addr.execution_requested, "still pending")
     """)

seed("C17-outputs-counted", "C17",
     [(PURE,
       "            n_past_attempts = len(past_attempts)\n"
       "            if n_past_attempts == 0:\n",
       "            n_past_attempts = len(self.execution_outputs)\n"
       "            if n_past_attempts == 0:\n")],
     "attempts that ended without an output record, as in a killed process",
     "a call just attempted is offered again at once",
     """
     with portal("a") as p:
         f = pth.pure(portal=p)("def f(x):\\n    return x")
         addr = f.get_address(x=1)
         addr.execution_attempts["run1_a"] = dict(n=1)
         check(not addr.needs_execution, "offered right after an attempt")
     """)

seed("C19-exit", "C19",
     [(PURE,
       "                        island[f].execute(**kwargs)\n"
       "                return True\n"
       "            except:\n"
       "                return False\n",
       "                        island[f].execute(**kwargs)\n"
       "                return True\n"
       "            except Exception:\n"
       "                return False\n")],
     "a guard that ends by SystemExit or KeyboardInterrupt",
     "asking whether the call can be executed raises",
     """
     with portal("a") as p:
         pth.strictly_autonomous(portal=p)(
             "def g(x):\\n    raise SystemExit(3)")
         f = pth.pure(guards=["g"], portal=p)("def f(x):\\n    return x")
         try:
             answer = f.get_address(x=1).can_be_executed
         except BaseException:
             answer = "raised"
         check(answer is False, answer)
     """)

seed("C21-copy-cache", "C21",
     [(VAL,
       "            , portal=self.portal\n"
       "            , assert_readiness=False)\n"
       "        return result",
       "            , portal=self.portal\n"
       "            , assert_readiness=False)\n"
       "        result.__dict__.update(self.__dict__)\n"
       "        return result")],
     "a copy of an address that has been used",
     "the copy carries the cached value",
     """
     from copy import copy
     with portal("a") as p:
         addr = pth.ValueAddr([1, 2])
         c = copy(addr)
         check(c == addr, "another address")
         check(not hasattr(c, "_value"), "the copy has a cached value")
     """)

seed("C22-one-failing", "C22",
     [("_090_swarming_portals/swarming_portals.py",
       "    for portal_id in BasicPortal.all_portals:\n"
       "        try:\n"
       "            portal = BasicPortal.all_portals[portal_id]\n"
       "            with portal:\n"
       "                portal.compute_nodes.pkl.delete_if_exists(address)\n"
       "        except:\n"
       "            pass",
       "    try:\n"
       "        for portal_id in BasicPortal.all_portals:\n"
       "            portal = BasicPortal.all_portals[portal_id]\n"
       "            with portal:\n"
       "                portal.compute_nodes.pkl.delete_if_exists(address)\n"
       "    except:\n"
       "        pass")],
     "a portal of another kind, or one that fails, created before the others",
     "the marks of the portals after it stay when the program ends",
     """
     import pythagoras._090_swarming_portals.swarming_portals as m
     plain = pth.LoggingPortal(os.path.join(work, "plain"))
     a = portal("a")
     mark = [a.node_id, "runtime_id"]
     check(mark in a.compute_nodes.pkl, "no mark")
     m._clean_runtime_id()
     check(mark not in a.compute_nodes.pkl, "the mark is still there")
     """)

seed("C24-two-decorators", "C24",
     [("_070_pure_functions/process_augmented_func_src.py",
       "        assert len(node.decorator_list)==1 , "
       "(\"Each of the functions\"\n",
       "        assert len(node.decorator_list) , "
       "(\"Each of the functions\"\n")],
     "a text with a function that has a second decorator",
     "the second decorator is dropped silently",
     """
     from pythagoras._070_pure_functions.process_augmented_func_src import (
         process_augmented_func_src)
     with portal("a") as p:
         try:
             process_augmented_func_src(
                 "@pth.pure()\\n@other\\ndef f(x):\\n    return x\\n"
                 , portal=p)
             ok = False
         except AssertionError:
             ok = True
         check(ok, "accepted")
     """)
