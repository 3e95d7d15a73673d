"""The properties, in one table. gen.py writes properties.jsonl and MANIFEST.json from it."""

S, I, P, H, C, F, K = 'schedules', 'inputs', 'programs', 'histories', 'configurations', 'fault_sequences', 'crash_points'
PROPS = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), technique=None, level='other',
         note='', na=None, claimed=False):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mechanism=mechanism, state=list(state), observe=list(observe), technique=technique, level=level,
                      note=note, na=na, claimed=claimed))


B = 'src/main/cpp/Balau/'

prop('C01', 'Shared state of a locked object is touched only under its lock',
     'The queues, semaphore, barrier, lazy value, logging system and logging output streams can be used from any number of threads: '
     'every read or write of state that some operation modifies happens while the lock that guards that state is held (exclusively for writes). '
     'No operation, accessor, background thread or callback touches such state after releasing the lock, under a different lock or under none.',
     [S, H], 'all interleavings of all public operations of every lock-owning class, from any number of threads',
     'The tests run a handful of interleavings; a data race needs a specific schedule to show, and usually does not change the result on x86.',
     [B + 'Container/ArrayBlockingQueue.hpp', B + 'Container/SynchronizedQueue.hpp', B + 'Concurrent/Semaphore.hpp', B + 'Concurrent/CyclicBarrier.hpp',
      B + 'Concurrent/LazyValue.hpp', B + 'Logging/Impl/LoggingState.cpp', B + 'Logging/Impl/LoggingStreams.cpp', B + 'Network/Http/Server/HttpServer.cpp'],
     [('RAII lock taken at the start of each operation', B + 'Container/ArrayBlockingQueue.hpp')],
     technique='lockset dataflow over the clang CFG, with entry locksets of private helpers inferred from all call sites')

prop('C02', 'Blocking operations cannot miss the wake-up that would unblock them',
     'A thread blocked in a queue, semaphore or barrier operation re-tests what it waits for, under the lock, each time it wakes, and is never left asleep: '
     'each operation that changes the state another thread can be waiting for notifies, on every path that makes the change, the condition that thread waits on.',
     [S], 'all schedules of producers and consumers, and spurious wake-ups',
     'A lost wake-up or a spurious one needs a particular schedule with several waiters; the tests use few threads and timing that rarely produces it.',
     [B + 'Container/ArrayBlockingQueue.hpp', B + 'Concurrent/Semaphore.hpp', B + 'Concurrent/CyclicBarrier.hpp', B + 'Logging/Impl/LoggingStreams.cpp'],
     [('wait loops and notify calls', B + 'Container/ArrayBlockingQueue.hpp')],
     technique='CFG must-pass-through (notify after each enabling write) and wait-predicate analysis')

prop('C03', 'One-time initialisation runs once and is published only when complete',
     'A lazily created value or single-time action is created or run at most once however many threads race for it: the decision to run is taken '
     'under a lock or by one atomic exchange, and the flag or pointer that lets other threads skip the work is set only after the work has completed.',
     [S], 'all interleavings of first uses', 'The racing window is a few instructions wide; tests cannot schedule a second thread into it.',
     [B + 'Concurrent/LazyValue.hpp', B + 'Concurrent/SingleTimeExecutor.hpp', B + 'Logging/Impl/LoggingState.cpp', B + 'Logging/Impl/LoggerHolder.cpp'],
     [('check, lock, re-check, build, publish', B + 'Concurrent/LazyValue.hpp')],
     technique='CFG dominance: lock, re-check, initialise, publish order')

prop('C04', 'The library cannot deadlock on its own locks',
     'No operation acquires a non-recursive lock that its caller already holds, and the order in which the library acquires two of its locks is the same on every path, '
     'so that no combination of its public operations can deadlock the threads that call them.',
     [S, P], 'all call paths through the library and all interleavings of them', 'A lock-order inversion needs two threads at two specific points at once.',
     [B + 'Logging/Impl/LoggingState.cpp', B + 'Network/Http/Server/HttpServer.cpp', B + 'Container/ArrayBlockingQueue.hpp'],
     [('lock scopes', B + 'Logging/Impl/LoggingState.cpp')],
     technique='interprocedural held-lock sets and lock-order graph over the resolved call graph')

prop('C05', 'A log call takes effect exactly when its severity is enabled',
     'For every severity, every logging entry point of that severity and the matching enabled-query admit a message exactly when the logger is configured at that severity or a more verbose one, '
     'and the message is emitted with that same severity. The severity NONE is never logged. When the call is not admitted, no message-building function is called, no parameter is rendered and nothing is written.',
     [I, C, P], 'every entry point and overload, every configured level, every message',
     'There are over a hundred overloads and eight levels; the tests call a few of them at a few levels.',
     [B + 'Logging/Logger.hpp', B + 'Logging/Logger.cpp', B + 'Network/Utilities/BalauLogger.hpp', B + 'Logging/LoggingLevel.hpp'],
     [('level gate in each logging method', B + 'Logging/Logger.hpp')],
     technique='finite-domain evaluation of each gate over all levels plus CFG dominance of every effect by the gate')

prop('C07', 'Enumerations and their text forms correspond one to one, for every value',
     'Each enumeration that is rendered to text or parsed from it (logging levels, parser tokens, execution models, test results, report types, binding kinds) has a rendering for every one of its values, '
     'distinct values have distinct renderings, and parsing the rendered text gives the value back.',
     [I], 'every value of every such enumeration', 'Tests render the few values they meet; adding or reordering an enumerator silently shifts a table.',
     [B + 'Logging/LoggingLevel.hpp', B + 'Lang/Property/Lang/PropertyToken.hpp', B + 'Testing/ExecutionModel.hpp', B + 'Testing/Impl/TestResult.hpp'],
     [('switch and table functions', B + 'Logging/LoggingLevel.hpp')],
     technique='abstract evaluation of each rendering, parser and table over the whole enumeration, and a compile-fail witness')

prop('C08', 'An injector is validated before anything is instantiated from it',
     'Creating an injector checks its bindings for duplicates, missing dependencies and dependency cycles before any eager singleton is constructed, any static singleton is set or the injector is returned, '
     'and every check that fails throws. Registered post-construction callbacks run after the eager singletons exist, and pre-destruction callbacks run when the injector is destroyed.',
     [C, P], 'every set of bindings and every injector creation path', 'The space of binding configurations is unbounded; tests cover a few valid and invalid graphs through one of the creation paths.',
     [B + 'Application/Injector.hpp', B + 'Application/Impl/BindingMap.hpp'],
     [('creation routine order', B + 'Application/Injector.hpp')],
     technique='abstract interpretation of every creation path over a finite domain of validation states, and of the validators over two-element collections')

prop('C10', 'No object starts life with an uninitialised member',
     'However an object of the library is constructed, every number, flag, enumeration, pointer or atomic it holds has a defined value before any of its operations can read it, and no member is used before it has been constructed.',
     [P, C], 'every constructor of every class', 'Uninitialised memory is usually zero in a test process, so a missing initialiser rarely fails a test.',
     [B + 'Util/Zip.hpp', B + 'Concurrent/SingleTimeExecutor.hpp', B + 'Lang/Common/ScannedTokens.hpp', B + 'Logging/Impl/LoggingStreams.hpp'],
     [('constructor initialiser lists and in-class initialisers', B)],
     technique='definite-initialisation dataflow over every constructor, and construction order of the members its initialisers use')

prop('C11', 'Copying or moving an object carries all of its state',
     'Copy construction, move construction, assignment and cloning of every library type transfer each piece of state from the source, and sending a test result to another process carries each piece of it, so that the new object behaves as the original did.',
     [P, H], 'every hand written copy or move operation', 'A dropped member shows only if a test copies an object with that member set and then uses it.',
     [B + 'Resource/File.hpp', B + 'Resource/Http.hpp', B + 'Resource/ZipFile.hpp', B + 'Container/ObjectTrie.hpp', B + 'Lang/Common/CodeSpan.hpp'],
     [('user-provided copy and move operations', B)],
     technique='member-coverage analysis of user-provided copy and move operations')

prop('C12', 'Equality compares like with like and hashing agrees with equality',
     'Equality of two library values compares each component with the same component of the other operand and ignores none that makes values observably different, inequality is its negation, ordering is consistent with it, '
     'and values that are equal have equal hash codes.',
     [I], 'all pairs of values', 'Tests compare a few pairs; a component compared with itself or left out needs two values that differ only there.',
     [B + 'Application/Impl/BindingKey.hpp', B + 'Lang/Common/CodeSpan.hpp', B + 'Resource/Uri.hpp', B + 'Resource/File.hpp', B + 'Type/UUID.hpp'],
     [('comparison operators and hash functions', B)],
     technique='finite-domain evaluation of comparison functions over component relations, and component sets of hash functions')

prop('C13', 'Destroying or closing a moved-from object is safe',
     'After an object of a movable library type has been moved from, destroying it, closing it, cancelling or running its pending action, or assigning to it never dereferences or releases a resource it no longer owns.',
     [H, P], 'every movable resource type and every order of move, close and destroy', 'Tests rarely move a resource object and let both ends be destroyed.',
     [B + 'Resource/File.hpp', B + 'Resource/Http.hpp', B + 'Resource/StringUri.hpp', B + 'Type/MovableOnScopeExit.hpp', B + 'Util/Zip.hpp'],
     [('null checks in destructors and close', B + 'Resource/File.hpp')],
     technique='null-state dataflow from the moved-from state through destructor and close')

prop('C14', 'Text decoding never reads outside the text',
     'Processing any byte string as UTF-8, however malformed or truncated, never reads beyond its end or before its beginning; malformed input is noticed where it is tested for, no code point of a well-formed text is taken for it, and the decoder\'s mark for it is never encoded as a code point.',
     [I], 'all byte strings', 'Malformed and truncated sequences at the very end are not in the tests.',
     [B + 'Type/Character.hpp', B + 'Util/Strings.hpp', B + 'Lang/Common/AbstractScanner.hpp', B + 'Resource/UriComponents.hpp', B + 'Network/Utilities/UrlDecode.hpp'],
     [('bounded decoding primitives', B + 'Type/Character.hpp')],
     technique='difference-bound dataflow over the decoding primitives (path by path) and their call sites with inferred class invariants, who-may-call rule for primitives that trust the text, may analysis of the malformed-input mark')

prop('C15', 'Text to number conversion is exact or fails',
     'Converting text to any numeric type either yields exactly the number the whole text denotes or throws: trailing characters, values outside the range of the type, and negative text for unsigned types are never silently accepted, truncated or wrapped, and every integer the type can hold is accepted.',
     [I], 'all texts, all numeric types', 'Range ends, huge values and trailing characters for each of the types are only sampled.',
     [B + 'Type/FromString.hpp', B + 'Type/Impl/FromStringImpl.hpp'],
     [('end-pointer, errno and range checks', B + 'Type/FromString.hpp')],
     technique='path-sensitive constant and position propagation from every conversion primitive over its failure outcomes and the ends of each integer range')

prop('C16', 'Command line parsing stays within the arguments and starts afresh each time',
     'Parsing a command line never reads an argument beyond the ones supplied, reports a missing value as an error, and leaves no option, value or final value from an earlier parse in the result.',
     [I, H], 'all argument vectors and sequences of parses', 'Tests parse well formed vectors once per object.',
     [B + 'Application/CommandLine.hpp'], [('index checks and clearing', B + 'Application/CommandLine.hpp')],
     technique='difference-bound dataflow over argument positions and sizes, and must-be-empty analysis of the result containers')

prop('C17', 'Every selected test produces one recorded outcome, whatever it throws',
     'Whatever the setup, body and teardown of a selected test throw, the run goes on: the body runs exactly when the setup succeeded, the teardown always follows, and exactly one result is recorded for the test, an error or failure taking precedence over success; '
     'each test is run by exactly one worker, a test whose process dies is recorded as an error, the run ends once every test has a result, and it returns failure exactly when a result is a failure or an error.',
     [P, F, H], 'every combination of normal end and exception of setup, body and teardown, in every execution model, and the death of a process in any test', 'The test framework tests itself only with passing tests.',
     [B + 'Testing/Impl/TestRunnerExecutor.hpp', B + 'Testing/Impl/MultiProcessTestRunnerExecutor.hpp', B + 'Testing/Impl/WorkerThreadsTestRunnerExecutor.hpp', B + 'Testing/Impl/TestGroupBase.hpp', B + 'Testing/TestRunner.hpp'],
     [('catch clauses and result recording', B + 'Testing/Impl/TestRunnerExecutor.hpp')],
     technique='abstract interpretation of the control flow graph with exception edges over a finite domain of outcomes')

prop('C18', 'All digest entry points of one algorithm compute the same digest',
     'For each digest algorithm and size, the entry points taking a file, a stream, a byte sequence and a string use that same algorithm and size over all of the bytes given, files are read as bytes, and a file that cannot be opened is an error, never the digest of nothing.',
     [I, F], 'all inputs, all entry points, open failures', 'Tests check one vector for some of the entry points.',
     [B + 'Util/Hashing.hpp'], [('overload families', B + 'Util/Hashing.hpp')],
     technique='sibling agreement over resolved instantiations and open-failure dominance')

prop('C19', 'Archive operations check every failure and never touch a closed archive',
     'Every operation on a zip archive that needs it open is refused with an exception when it is not, an archive that has been closed or committed is never used again, the failure of every archive-library call is turned into an exception, and reading an entry never writes beyond the buffer or loops for ever.',
     [F, I, H], 'all failing library calls, all sequences of open, close and use', 'Library failures are not injected by tests.',
     [B + 'Util/Zip.hpp', B + 'Resource/ZipEntry.hpp', B + 'Resource/ZipFile.hpp'],
     [('open check and return code checks', B + 'Util/Zip.hpp')],
     technique='nullness dataflow for the open state, constant propagation of each failing result along all paths, linear invariants for buffer bounds')

prop('C20', 'Nothing kept or handed back refers to an object that has gone',
     'What an operation of the library returns, stores for later or leaves in an archive, a stream or another thread (a pointer, reference, view, iterator, function object, or an object holding one) never refers to a local variable, a by-value parameter or a temporary of that operation; '
     'and a function object that is kept also holds nothing that was only borrowed for the call, such as a text view given as an argument.',
     [P, H], 'every place where the library returns, stores or defers a reference-like value', 'A dangling reference often still reads the old bytes in a test.',
     [B + 'Application/Injector.hpp', B + 'Util/Zip.hpp', B + 'Util/Compression.hpp', B + 'Util/Strings.hpp', B + 'Lang/Property/Parser/PropertyParser.hpp', B + 'Network/Http/Server/HttpServer.cpp'],
     [('capture lists and retained buffers', B + 'Application/Injector.hpp')],
     technique='interprocedural storage-escape analysis of references, views, iterators and closures')

prop('C22', 'Failures reported by the operating system are never ignored',
     'Whenever a system call or C library call the library makes fails, an error code it asks for is set, or a file it opens cannot be opened, the failure is noticed on every path and reported: by an exception, a distinguishable result or an error message, unless the path has tested for that particular cause.',
     [F], 'every failing system call', 'System calls do not fail in the test environment.',
     [B + 'Concurrent/Fork.hpp', B + 'Util/User.hpp', B + 'Util/Impl/AppImpl.hpp', B + 'Resource/File.hpp'],
     [('return value checks', B + 'Concurrent/Fork.hpp')],
     technique='constant propagation of the failing result of each resolved system call, error code and file opening along every path, through helpers and callers')

prop('C23', 'Every loop over input makes progress',
     'No library operation can spin for ever on some input: in each loop whose end depends on what it reads, every way round the loop leaves it or changes something that its end depends on; a step by an amount that can be zero, or a search begun again where the last one ended, is no change.',
     [I], 'all inputs', 'A non-terminating input is by definition one the tests do not contain.',
     [B + 'Util/Strings.hpp', B + 'Util/User.hpp', B + 'Util/Zip.hpp', B + 'Lang/Common/ScannedTokens.hpp', B + 'Lang/Property/Parser/PropertyScanner.hpp'],
     [('loop conditions and steps', B)],
     technique='loop progress analysis on the CFG: dependence of the exits and must-change on every cycle')

prop('C24', 'Success flags and output arguments are always written',
     'An operation that reports through an output argument writes it on every path on which it returns normally.',
     [I, S], 'every path of every such operation', 'Callers in tests pre-initialise the flag and take one path.',
     [B + 'Container/ArrayBlockingQueue.hpp', B + 'Container/SynchronizedQueue.hpp', B + 'Interprocess/SharedMemoryQueue.hpp'],
     [('assignments to output references', B + 'Container/ArrayBlockingQueue.hpp')],
     technique='definite-assignment dataflow on output parameters')

prop('C25', 'Nothing that promises not to throw can throw a library exception',
     'No operation declared not to throw, no destructor and no function run by a thread that the library starts lets an exception escape that the library throws itself (or that a checked standard operation such as at(), stoi() or a file system query throws), so that an error reported by the library can never terminate the process.',
     [P, F], 'all call paths from non-throwing operations', 'The failing path inside a destructor or a non-throwing accessor is not taken by tests.',
     [B + 'Resource/ZipEntry.hpp', B + 'Util/Zip.hpp', B + 'Resource/File.hpp'], [('noexcept specifications', B)],
     technique='may-throw call graph analysis')

prop('C26', 'Every property-language construct is dispatched and every visitor handles it',
     'Each token that can begin a construct of the property language is accepted by the production that it is dispatched to, the parser decides on the token it stands at (never on one read before it moved on), and each visitor of the syntax tree visits every child of a composite node.',
     [I, P], 'all token sequences', 'Tests contain a few sample files.',
     [B + 'Lang/Property/Parser/PropertyParser.hpp', B + 'Lang/Property/Lang/PropertyAst.hpp', B + 'Lang/Property/Util/PropertyVisitor.hpp'],
     [('token dispatch', B + 'Lang/Property/Parser/PropertyParser.hpp')],
     technique='first-set agreement between dispatch and productions')

prop('C27', 'A lookup that can find nothing is tested before its result is used',
     'The result of every search, environment query, conditional cast or optional pointer in the library is tested for "not found" on every path before it is dereferenced.',
     [I, C, H], 'every lookup and every path from it', 'Tests look up things that exist.',
     [B + 'Application/Injector.hpp', B + 'Application/EnvironmentProperties.hpp', B + 'Container/DependencyGraph.hpp', B + 'Util/User.hpp'],
     [('end and null comparisons', B)],
     technique='null-state dataflow from nullable sources')

# ---------------------------------------------------------------- declined

def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech, na=reason)


prop('C30', 'Elements are read only at positions that exist',
     'Wherever the library reads an element of a string, sequence, queue, stack or fixed-size array by position, or takes its first or last element, that element exists for every input: '
     'empty texts, missing parts, delimiters at either end, wrapped ring indices and arguments left out are all tested for on every path before the access.',
     [I, H], 'all inputs and all histories of the containers concerned',
     'Reading one element past the end of a string or vector normally yields a plausible value; the inputs that do it (empty, truncated, delimiter last) are rarely in the tests.',
     [B + 'Util/Strings.hpp', B + 'Container/ArrayBlockingQueue.hpp', B + 'Application/CommandLine.hpp', B + 'Network/Utilities/UrlDecode.hpp', B + 'Logging/Impl/LoggingState.cpp',
      B + 'Resource/UriComponents.hpp', B + 'Testing/Impl/StandardRenderers.hpp', B + 'Application/Impl/BindingKey.hpp', B + 'Interprocess/SharedMemoryQueue.hpp'],
     [('length tests before each access', B + 'Util/Strings.hpp'), ('wrapping of the ring index', B + 'Container/ArrayBlockingQueue.hpp')],
     technique='difference-bound dataflow over indices and container sizes, with inferred class invariants and function summaries',
     note='Tries, dependency graphs, the binding map, scanned tokens, test executors and property visitors index by invariants of whole data structures and are not judged; capacities are taken to be positive.')

na('N01', 'Blocking queue delivers each item once, in order',
   'Every item put in a queue is delivered to exactly one consumer, in the order in which items were put, and the queue never holds more than its capacity.',
   [S, H], 'all schedules', 'Linearizability quantifies over histories.', [B + 'Container/ArrayBlockingQueue.hpp'], [('ring buffer indices', B + 'Container/ArrayBlockingQueue.hpp')],
   'FIFO order and capacity quantify over runtime counters and histories; static analysis decides only the locking and signalling part (C01, C02).')
na('N02', 'The injector returns the object that was bound',
   'A request for a key returns an instance produced by the binding registered for that key, with the lifetime of that binding.',
   [P, H], 'all configurations', 'Configurations are unbounded.', [B + 'Application/Injector.hpp'], [('binding map', B + 'Application/Impl/BindingMap.hpp')],
   'which object a runtime map returns is a value question; the structural parts are C08 and C27.')
na('N03', 'Dependency graph and trie operations compute the right sets',
   'Graph and trie queries return exactly the related items for every sequence of additions and removals.',
   [H, I], 'all histories', 'Histories are unbounded.', [B + 'Container/DependencyGraph.hpp', B + 'Container/ObjectTrie.hpp'], [('graph and trie algorithms', B + 'Container/DependencyGraph.hpp')],
   'functional correctness of data-structure contents over histories is out of reach of a sound static argument here.')
na('N04', 'URI parsing and resolution follow the standard',
   'Parsing a URI yields its components as the standard defines and resolving a relative reference gives the standard result.',
   [I], 'all URIs', 'The input space is unbounded.', [B + 'Resource/UriComponents.hpp', B + 'Resource/UriResolve.hpp'], [('component parser', B + 'Resource/UriComponents.hpp')],
   'a value-level specification over all strings.')
na('N05', 'String utilities compute the documented result',
   'Splitting, joining, trimming, replacing and case conversion give the documented result for all texts.',
   [I], 'all texts', 'The input space is unbounded.', [B + 'Util/Strings.hpp'], [('string algorithms', B + 'Util/Strings.hpp')],
   'a value-level specification; only memory safety (C14) and progress (C23) are decided.')
na('N06', 'Property files parse to the properties written in them',
   'Parsing the text of a property file yields exactly the names, values and hierarchies it contains, and printing and re-parsing gives the same.',
   [I], 'all files', 'The input space is unbounded.', [B + 'Lang/Property/Parser/PropertyParser.hpp'], [('parser', B + 'Lang/Property/Parser/PropertyParser.hpp')],
   'round-trip equality over all texts; only the dispatch part is decided (C26).')
na('N07', 'Compression round-trips',
   'Decompressing what was compressed, or reading an entry that was put in an archive, yields the same bytes.',
   [I], 'all byte strings', 'The input space is unbounded.', [B + 'Util/Compression.hpp', B + 'Util/Zip.hpp'], [('library calls', B + 'Util/Zip.hpp')],
   'round-trip equality through an external library; the error discipline is decided in C19.')
na('N08', 'Log lines have the configured layout',
   'Each log line shows the configured items in the configured order with correct values and the message parameters substituted in order.',
   [I, C], 'all formats and messages', 'Formats are unbounded.', [B + 'Logging/Impl/LoggerItems.cpp', B + 'Logging/Logger.cpp'], [('log items', B + 'Logging/Impl/LoggerItems.cpp')],
   'a property of rendered text.')
na('N09', 'Messages through shared memory arrive whole and in order',
   'A message of any size put in a shared memory queue by one process is received whole, once, by another, also if a process dies.',
   [S, K], 'all schedules and crash points', 'Crashes are not injected.', [B + 'Interprocess/SharedMemoryQueue.hpp'], [('chunk reassembly', B + 'Interprocess/SharedMemoryQueue.hpp')],
   'reassembly correctness depends on runtime chunk contents and on another process; no static argument in reach.')
na('N10', 'Random values follow the requested distribution',
   'Generated random values lie in the requested range with the requested distribution.',
   [I], 'all seeds', 'Statistical.', [B + 'Util/Random.hpp'], [('standard distributions', B + 'Util/Random.hpp')], 'a statistical property of values.')
na('N11', 'Dates, times and durations format and parse faithfully',
   'Formatting a date or time and parsing it back yields the same instant.',
   [I], 'all instants', 'The value space is unbounded.', [B + 'Util/DateTime.hpp'], [('date library calls', B + 'Util/DateTime.hpp')], 'round-trip equality of values in third-party code.')
na('N12', 'HTTP requests are routed to the application that serves their path',
   'Each HTTP or web socket request reaches the application registered for the longest matching path and receives one complete response.',
   [I, S, F], 'all requests', 'The network code is not compiled in this environment.', [B + 'Network/Http/Server/HttpSession.cpp', B + 'Network/Http/Server/HttpWebApps/RoutingHttpWebApp.cpp'], [('routing trie', B + 'Network/Http/Server/HttpWebApps/RoutingHttpWebApp.cpp')],
   'routing is a value question, the response is produced by asynchronous continuations, and the sources do not compile against the installed Boost, so that no change to them could be confirmed.')
na('N13', 'Character classification agrees with Unicode',
   'Every character classification function agrees with the Unicode character database for all code points.',
   [I], 'all code points', 'Only samples are tested.', [B + 'Type/Character.hpp'], [('library calls', B + 'Type/Character.hpp')], 'agreement with an external database is a value question.')

CLAIMED = ['C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C08', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C22', 'C23', 'C24', 'C25', 'C26', 'C27', 'C30']
for _p in PROPS:
    if _p['id'] in CLAIMED:
        _p['claimed'] = True
