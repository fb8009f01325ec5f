# executed by catalog.py
prop("C01", "Bounded strings behave as character strings limited to capacity",
     "A fixed-capacity string always holds, under any history of construction, assignment, appending, prefix/suffix removal, element writes, swapping and stream extraction from sources of any length, exactly the characters up to the first NUL cut at its capacity (an append keeps the characters already held and adds those of the appended text that fit), and never touches memory outside itself. Every query (size, element access with bounds check, iteration, substring, find/rfind/find_first_of/find_last_of and their negations from any position, three-way and relational comparison, concatenation, hash, streaming) returns what the standard string with the same characters would return, whatever the capacities of the operands. Comparison is a total order consistent with equality, and an operation changes no string but its target(s).",
     ["inputs", "histories"], "all contents, all capacities including 0 and 1, all positions and lengths, all operation sequences, all operand kinds (pointer, pointer+length, view, std::string, other capacity)",
     "The existing tests call each operation a few times on short strings that fit; truncation, zero capacity, positions past the end, mixed capacities and non-ASCII bytes are an unbounded space.",
     ["include/Xsmp/String.h"],
     [("String<Nm> member and free functions", "include/Xsmp/String.h")],
     [("internalString", "NUL-terminated storage of capacity+1 bytes", "include/Xsmp/String.h")],
     ["c_str(), size(), iterators, results of every query"])
prop("C02", "Owned C strings are private, exact, leak-free copies",
     "An owning C string holds exactly the text (up to its terminating NUL) it was constructed or last assigned from, in memory of its own, whether the source is a C string, another object, itself, or a part of its own text; moving transfers the text and leaves only the source empty. No operation changes the text of another object, an operation that fails for lack of memory leaves every object unchanged, and once the objects are destroyed no memory remains allocated or is freed twice.",
     ["histories", "inputs", "fault_sequences"], "all interleavings of construction, copy, move, assignment (including aliasing) and destruction of several objects, with allocation allowed to fail at any point",
     "The one existing test constructs a few objects; aliasing, self-assignment, refused allocations and double frees depend on the sequence.",
     ["include/Xsmp/cstring.h", "src/Xsmp/cstring.cpp"],
     [("copy/move constructors and assignments", "src/Xsmp/cstring.cpp")],
     [("internal pointer", "owned text or null after a move", "include/Xsmp/cstring.h")],
     ["c_str()", "allocation counters"])
prop("C03", "Fixed-size arrays keep their size and compare lexicographically",
     "A fixed-size array has its declared number of elements at all times (zero included); element writes through index, checked access, front/back, data pointer, iterators, fill, aggregate initialisation, copy and swap change exactly the addressed elements, and reads through every access path agree. Checked access throws for every index at or beyond the size and for no other. Relational operators are the lexicographic order of the element sequences and are mutually consistent.",
     ["inputs", "histories"], "all element values, indices, operation sequences, sizes (0, 1, several), iteration directions",
     "The tests cover one or two arrays with fixed values; zero-size arrays, reverse iteration and comparison chains are not exercised.",
     ["include/Xsmp/Array.h"],
     [("Array<T, N> accessors, iterators, comparison", "include/Xsmp/Array.h")],
     [("internalArray", "the elements", "include/Xsmp/Array.h")],
     ["element reads, iterators, comparison results"])
prop("C04", "Mixed-type integer comparison follows mathematical value",
     "Comparing two integers of any standard types (signed or unsigned, 8 to 64 bits) gives for equal, not equal, less, less-or-equal, greater and greater-or-equal the relation of their mathematical values. Testing whether a value fits in a type is true exactly when the type can represent that value.",
     ["inputs"], "all pairs of integer types and all values",
     "No unit test enumerates type pairs; the errors live at sign boundaries and type limits.",
     ["src/Smp/utility.h"],
     [("cmp_* and in_range", "src/Smp/utility.h")], (),
     ["results of the comparison templates"])
prop("C05", "Shared data: one writer or many readers, no lost wake-up",
     "Data shared between threads is only ever accessible under a guard: at any time either one writer guard or any number of reader guards is held, under every interleaving of acquiring, try-acquiring, unlocking, re-locking and dropping guards. A try-acquire succeeds exactly when the access is compatible with the guards held, a blocking acquire returns as soon as it becomes compatible, dropping or unlocking a guard always releases it exactly once, and a reader sees the last value written. No data race is possible through the guards.",
     ["schedules", "histories"], "all interleavings of guard operations of several threads",
     "A unit test sees one or two schedules; mutual exclusion and release-exactly-once quantify over all of them.",
     ["src/Xsmp/ThreadSafeData.h"],
     [("read/write/try_read/try_write guards", "src/Xsmp/ThreadSafeData.h")],
     [("mutex + data", "shared mutex and the protected value", "src/Xsmp/ThreadSafeData.h")],
     ["values read under guards, results of try operations, blocking"])
prop("C06", "Libraries and packages are loaded, initialised and finalised exactly as often as asked",
     "Loading a library that exists gives a usable handle, the same one each time, and the library stays resident until it has been closed as often as it was loaded; a null, missing, malformed or unresolvable library gives no handle, and a missing or null symbol no address. After a failure the last-error text is non-empty exactly once. The services package refuses a null simulator; it initialises its six sub-packages (logger, time keeper, resolver, event manager, link registry, scheduler), in that order and all of them, once for every distinct simulator with the arguments it was given, reports success exactly when all succeeded, and does nothing (successfully) when asked again for the same simulator. Finalising runs the sub-packages' finalisation once, in reverse order, until something is initialised again. The entry points exported by each package library do what the statically linked functions do.",
     ["histories", "inputs", "fault_sequences"], "all sequences of load/close/symbol lookup/last-error/initialise/finalise over several libraries and simulators, with sub-packages allowed to fail",
     "The tests load one library once; residency counts, failing sub-packages and repeated initialisation depend on the history.",
     ["src/Xsmp/LibraryHelper.cpp", "src/xsmp_services.cpp", "src/xsmp_services.pkg.cpp", "src-gen/xsmp_logger.pkg.cpp"],
     [("LoadLibrary/GetSymbol/CloseLibrary/GetLastError", "src/Xsmp/LibraryHelper.cpp"),
      ("Initialise_xsmp_services/Finalise_xsmp_services", "src/xsmp_services.cpp")],
     [("simulators", "simulators already initialised", "src/xsmp_services.cpp")],
     ["handles, return values, order of sub-package calls"])
prop("C07", "A value of any simple type keeps its kind and its value, and converts only without loss",
     "An AnySimple holds a kind and a value of it. Storing a value under a kind succeeds exactly when the kind can hold that value: an integer in its range under any integer kind, duration or date, and under a floating point kind that represents it exactly; a floating point number under a wider kind, or under Float32 when the nearest Float32 is within 2^-52 of it; a boolean, a character, a text only under its own kind; otherwise InvalidAnyType is thrown and a number, boolean or character held before stays. Reading as a type follows the same ranges (as a boolean: whether it is not zero, not empty) and gives exactly the value stored, or throws InvalidAnyType; every 64-bit integer comes back the same. A text is owned: copied in, copied with the variable (even from the variable's own text), released once, and taken by move; a variable moved from is empty; swapping exchanges values. == converts the right value to the kind of the left: among values of one kind it is that of the values (floating point numbers within one epsilon, infinities equal to themselves, nan to nothing), an empty variable equals only an empty one, incomparable kinds differ without an exception. A value is printed with the suffix of its kind, a character with its escape, a text in quotes.",
     ["inputs", "histories"], "all kinds, types and values around every limit of range and rounding, and sequences of stores, copies, moves, swaps",
     "The tests convert a few values of each type.",
     ["src/Smp/AnySimple.cpp", "src/Smp/StreamOperators.cpp"],
     [("SetValue, conversions, comparison, ownership", "src/Smp/AnySimple.cpp"), ("printing", "src/Smp/StreamOperators.cpp")],
     [("type, value", "kind and value", "src/Smp/AnySimple.cpp")],
     ["values read", "exceptions", "comparisons", "printed text", "memory errors"])

prop("C08", "A Uuid is its 32 hexadecimal digits: read strictly, ordered, hashed and printed alike",
     "A text makes a Uuid exactly when it is 32 hexadecimal digits of either case in groups of 8, 4, 4, 4 and 12 separated by dashes and nothing else; any other text, shorter, longer or null, throws InvalidUUID and nothing beyond the end of the text is read. Printing a Uuid gives those digits, in lower case, and reading them back gives an equal Uuid. == holds exactly when the 32 digits are the same, != is its opposite, < is the order of the digits, the leftmost that differs deciding: a total order. Equal values have equal hashes, so sets and maps, ordered or hashed, hold each value once and in order.",
     ["inputs"], "all texts (every byte at every position, missing and added bytes) and all pairs of identifiers",
     "The tests read a few texts and compare a few pairs.",
     ["src/Smp/Uuid.cpp", "src/Smp/StreamOperators.cpp"],
     [("reading, comparisons, hash", "src/Smp/Uuid.cpp"), ("printing", "src/Smp/StreamOperators.cpp")],
     [("Data1, Data2, Data3", "the digits", "src/Smp/Uuid.cpp")],
     ["exceptions", "printed text", "comparisons", "contents of containers"])

prop("C09", "Durations and dates are exact numbers of nanoseconds, and dates follow the calendar",
     "A Duration and a DateTime hold a 64-bit number of nanoseconds (a date counts from 2000-01-01 12:00:00). As long as nothing overflows: the functions and literals of each unit (ns, us, ms, s, mn, h, d, w) give that many nanoseconds; addition, subtraction, multiplication by an integer, negation, ++ and --, in place or not, with numbers, with Xsmp values and with std::chrono durations of any unit, are exact; comparisons, with std::chrono durations on either side too, are those of the numbers; conversion to a std::chrono unit keeps the whole units, towards zero; conversion to and from a time_point of the system clock uses 1970-01-01 as origin. By default a date is written, by format, to_stream and <<, as year-month-day hours:minutes:seconds with nine decimals in the Gregorian calendar, a duration as hours:minutes:seconds with nine decimals after a '-' when negative; reading such a text, from a string or a stream, gives the value back. A text that is no duration gives zero.",
     ["inputs"], "all values in the 64-bit range (dates from 1760 to 2240), operations and orders of them",
     "The tests check a few values and conversions.",
     ["include/Xsmp/Duration.h", "include/Xsmp/DateTime.h", "src/Xsmp/Duration.cpp", "src/Xsmp/DateTime.cpp"],
     [("operators", "include/Xsmp/Duration.h"), ("origin and conversions", "include/Xsmp/DateTime.h")],
     [("_value", "number of nanoseconds", "include/Xsmp/Duration.h")],
     ["values", "texts", "comparisons"])

prop("C10", "The simulator follows its state machine, and every component its life cycle",
     "A simulator starts in Building. Publish, Configure and Connect act only in Building; Connect passes through Connecting and Initialising to Standby; Initialise, Run, Reconnect, Exit act only in Standby (and not from a LeaveStandby handler, Run also not from an EnterStandby handler), Hold only in Executing (and not from a LeaveExecuting handler); any other call changes nothing. Every transition emits its Leave event in the old state and its Enter event in the new one, exactly once and in order; a Leave event is emitted before the state changes. Initialisation entry points run once, in the order added, in Initialising only. Traversals visit services before models, each container in order of addition, parent before children, including components added meanwhile, and take each component through Created, Publishing, Configured, Connected exactly once, each hook called once with the simulator's publication, logger, link registry, or itself; Exit disconnects every connected component (the hook still sees the simulator); Reconnect does for the components under its root what Connect does. Hold(false) holds at the next change of simulation time, once, however often asked. Abort, or an exception in an event handler, leads to Aborting for good: no later event is emitted and no transition in progress changes the state. Models and services are accepted only in Building, Connecting and Standby, under a name unique among siblings; the first service of each standard kind is the one returned by its accessor. Libraries are initialised when loaded, a missing, incomplete or refusing one is reported by its own exception, and destruction holds, exits, finalises the libraries in reverse order and then deletes every component once.",
     ["histories"], "all sequences of simulator calls, with calls and exceptions from inside component hooks, event handlers, entry points and library entry points",
     "The tests drive one nominal life cycle; illegal calls, re-entrant calls and failures at each point form a combinatorial space.",
     ["src/Xsmp/Simulator.cpp", "src/Xsmp/Simulator.h", "include/Xsmp/ComponentHelper.h", "src/Xsmp/Component.cpp", "src/Xsmp/Container.cpp", "src/Xsmp/Helper.cpp"],
     [("state transitions and traversals", "src/Xsmp/Simulator.cpp"),
      ("life cycle hooks", "include/Xsmp/ComponentHelper.h"),
      ("SafeExecute", "src/Xsmp/Helper.cpp")],
     [("_state, _lastGlobalEventId, _initEntryPoints, _libraries", "progress of the simulation", "src/Xsmp/Simulator.h")],
     ["GetState", "global events", "component hooks", "component states", "service accessors"])

_SCHED = ["src/Xsmp/Services/XsmpScheduler.cpp", "src/Xsmp/Services/XsmpTimeKeeper.cpp", "src/Xsmp/Simulator.cpp"]
prop("C12", "A run executes the scheduled events in order of time, each at its time, and stops where asked",
     "While the simulator is Executing: first the immediate events; then, again and again, PreSimTimeChange is emitted, simulation time becomes that of the earliest event, PostSimTimeChange is emitted, and the events of that time are executed in the order of their identifiers (first posted, first executed), before each of them all immediate events; each is executed at exactly its time with its own identifier as current event, epoch and mission time following simulation time. Events added, changed or removed meanwhile are taken into account, including by the event being executed. An epoch or mission event whose time has become past is passed over. A one-shot event is executed once, one repeated n times n+1 times, one repeated -1 times for ever, at intervals of its cycle time. Nothing is executed after the simulation was held or aborted, wherever that happened; Run(d) executes everything due within d (the events of the last instant included), ends in Standby with simulation time advanced by d and leaves no event of its own behind; without event a run goes on with time standing still. A run is not faster than the target speed (kept within 0.01..100). Events posted for a time of the clock are executed in order of that time in Standby and Executing, not early, also when a new one precedes the next, and never at the same time as another event.",
     ["histories", "schedules"], "all sets of events, calls made by the executed entry points and time change handlers, holds and aborts at any point, and zulu events due at any point",
     "The tests run a few fixed schedules; ordering at equal times, re-entrant changes, holds in the middle of an instant and interleavings with the zulu thread are beyond them.",
     _SCHED,
     [("execution loop and zulu thread", "src/Xsmp/Services/XsmpScheduler.cpp"), ("Run(duration), Hold", "src/Xsmp/Simulator.cpp")],
     [("_events_table, _immediate_events, _zulu_events_table, _simulationStatus", "events waiting and whether to stop", "src/Xsmp/Services/XsmpScheduler.h")],
     ["executed entry points with GetCurrentEventId and the times", "time change events", "GetNextScheduledEventTime", "simulator state", "duration of a run"])
prop("C13", "Every call that manages events acts on that event only, or is refused",
     "Each added event gets an identifier never used before, one more than the last. Adding an event before the current simulation, epoch, mission or zulu time throws InvalidEventTime, a cycle time that is not positive with a repeat other than 0 throws InvalidCycleTime, and nothing is added. SetEvent...Time moves the event of that identifier and kind, or removes it when the time is past, and throws InvalidEventId for any other identifier or kind; SetEventCycleTime, SetEventRepeat and RemoveEvent throw InvalidEventId for an event that does not exist (any more), and the first two InvalidCycleTime rather than leave a repeated event without positive cycle time. All of this also holds for calls made by an executed entry point, about itself (an event that moves itself is kept at the new time, one that removes itself is not executed again), about other events of the same instant, and about immediate and zulu events. No event is lost, executed twice for one time, or left waiting in two places.",
     ["histories"], "all sequences of add, set time, set cycle, set repeat and remove for events of every kind, from outside a run and from the entry points executed by it",
     "The tests call each operation once or twice in Standby; combinations, and calls by the event being executed, are unbounded.",
     _SCHED,
     [("AddEvent, SetEventTime, Unpost, Remove, Execute", "src/Xsmp/Services/XsmpScheduler.cpp")],
     [("_events, _lastEventId", "the events", "src/Xsmp/Services/XsmpScheduler.h")],
     ["returned identifiers", "exceptions", "entry points executed by later runs", "GetNextScheduledEventTime"])
prop("C14", "The time keeper keeps its four times consistent",
     "Simulation time starts at 0, never decreases, and changes only between PreSimTimeChange and PostSimTimeChange (or the end of the run): SetSimulationTime then accepts exactly the times from the current one to that of the next scheduled event and throws InvalidSimulationTime for others, and otherwise does nothing. Epoch time has a fixed offset to simulation time, changed by SetEpochTime only; mission time is epoch time minus mission start, changed by SetMissionStartTime and SetMissionTime; each of these takes effect at once and emits EpochTimeChanged or MissionTimeChanged exactly once, after the change. In a run, every entry point and handler sees simulation time at that of the current instant and the other times at their offsets; events posted for epoch or mission time keep the simulation time computed when they were posted and are passed over if a later change put their own time in the past; cyclic ones keep their cycle.",
     ["histories"], "all sequences of time changes, from outside a run and from handlers and entry points within it, with events of every kind pending",
     "The tests check single changes on an idle simulation.",
     _SCHED,
     [("times and their changes", "src/Xsmp/Services/XsmpTimeKeeper.cpp")],
     [("_simulationTime, _epochStart, _missionStartTime, _simTimeChanging", "the offsets", "src/Xsmp/Services/XsmpTimeKeeper.h")],
     ["GetSimulationTime, GetEpochTime, GetMissionTime, GetMissionStartTime at every entry point", "EpochTimeChanged and MissionTimeChanged events"])

prop("C15", "Subscribers of an event are each called once for every emission, in order",
     "An event name has one identifier for ever: the standard ones theirs, any other the next free one at its first query; an empty name is refused. An entry point is subscribed to an event at most once; unknown identifiers, double subscriptions and unsubscriptions of an entry point not subscribed are refused and change nothing. Emitting an event logs it and calls the entry points subscribed at that moment, each once, in the order of subscription, whatever these do meanwhile (subscribe, unsubscribe, emit the same event again, query names); an entry point that fails aborts the simulation, and the others are still called. Any number of threads may query, subscribe, unsubscribe and emit at the same time.",
     ["histories", "schedules"], "all sequences of queries, subscriptions and emissions, from outside and from the entry points called, and all interleavings of several threads",
     "The tests subscribe one entry point; changes made while an event is being emitted, and concurrent use, are not tested.",
     ["src/Xsmp/Services/XsmpEventManager.cpp", "src/Xsmp/Helper.cpp"],
     [("QueryEventId, Subscribe, Unsubscribe, Emit", "src/Xsmp/Services/XsmpEventManager.cpp"), ("SafeExecute", "src/Xsmp/Helper.cpp")],
     [("_events, _ids, _subscriptions", "names, identifiers and subscribers", "src/Xsmp/Services/XsmpEventManager.h")],
     ["identifiers", "exceptions", "calls of entry points", "event messages logged", "simulator state"])

prop("C16", "Links are counted per source and target, and removed by asking the sources",
     "The number of links from a source to a target is the number of AddLink calls minus the number of successful RemoveLink calls for that pair, whatever else happened and whatever the names of the components; RemoveLink succeeds exactly when that number is positive. The sources of a target are the components with at least one link to it, each once, in the order of their first link, and a collection obtained earlier shows the same as one obtained now. The links to a target can be removed exactly when every such source supports it; RemoveLinks asks each of them that does once, also when they change the registry meanwhile. Several threads may add and remove links at the same time.",
     ["histories", "schedules"], "all sequences of calls on several sources (of equal name, not supporting removal) and targets, calls made by a source asked to remove its links, and all interleavings of threads",
     "The tests add and remove one link.",
     ["src/Xsmp/Services/XsmpLinkRegistry.cpp"],
     [("AddLink, RemoveLink, GetLinkSources, CanRemove, RemoveLinks", "src/Xsmp/Services/XsmpLinkRegistry.cpp")],
     [("_links, _targets", "counts, and sources of each target", "src/Xsmp/Services/XsmpLinkRegistry.h")],
     ["GetLinkCount", "GetLinkSources", "CanRemove", "RemoveLinks calls received by the sources"])

prop("C18", "Every message logged is written, once, as the configuration says",
     "The logger reads its configuration file as documented (the first value of a name counts, blank lines and comments do not, texts are trimmed) and gives every message, to each appender of rootLogger, in its order, or to a console with the defaults when there is none. An appender takes a message when its level is at least the appender's threshold and the path of its sender matches the filter; what it writes is its pattern, with the name of the sender, its path, the message, the kind and the four times of the simulation at the moment of the call (in the format asked), backslash sequences, and unknown kinds named as unknown. Each message logged before the logger is deleted is written exactly once by each appender that takes it, whole, in the order of logging (for concurrent callers, in the order of each thread). QueryLogMessageKind gives the five predefined kinds 0 to 4, and to each other name one new identifier, the next one, which never changes, whichever thread asks, and which Store and Restore keep. A wrong configuration is reported, with its defaults used instead, and never makes the program crash.",
     ["histories", "interleavings", "inputs"], "all configuration files and all sequences of messages, kinds and stores on them, and all schedules of concurrent callers",
     "The tests log a few messages with one configuration and no assertion on the text.",
     ["src/Xsmp/Services/XsmpLogger.cpp", "src/Xsmp/Services/XsmpLogger.h"],
     [("Log, QueryLogMessageKind, Store, Restore", "src/Xsmp/Services/XsmpLogger.cpp"), ("appenders, layouts, the processor thread", "src/Xsmp/Services/XsmpLogger.cpp")],
     [("appenders", "for each: destination, threshold, filter, pattern", "src/Xsmp/Services/XsmpLogger.cpp"), ("kinds", "the names in the order of their identifiers", "src/Xsmp/Services/XsmpLogger.cpp"), ("queue", "the messages logged and not yet written", "src/Xsmp/Services/XsmpLogger.cpp")],
     ["the files and the console", "identifiers of kinds"])
prop("C19", "Containers own components of their type within bounds, references link to them",
     "A container holds the components added to it, in order, and gives the same view of them through every accessor (count, by index, by name, collection, forward and reverse iteration). AddComponent is refused, in this order, for a component that is null or of another type (InvalidObjectType), when the container is at its upper bound (ContainerFull), when a sibling component in any container of the composite, or a published field, operation, property, an entry point, event source, event sink or failure of it has the same name (DuplicateName), and when the parent of the component is not that of the container (InvalidParent). DeleteComponent is refused for a component not in it (NotContained) and at the lower bound (CannotDelete); otherwise a connected component is disconnected first, then deleted, once, and removed, also when its Disconnect hook changes the composite; if the hook throws, the component stays. Destroying the composite deletes every contained component once. A reference holds the components of its type added to it, repeatedly if so added, up to its upper bound (ReferenceFull, InvalidObjectType), and gives up one of them unless absent (NotReferenced) or at the lower bound (CannotRemove); removing the links to a component removes all references to it and no other. A refused call changes nothing.",
     ["histories"], "all sequences of calls on several containers and references of different types and bounds, components of several types, names and parents, and calls made from Disconnect hooks",
     "The tests add and delete components one at a time; name clashes, bounds and hooks that change the container are not covered.",
     ["include/Xsmp/Container.h", "src/Xsmp/Container.cpp", "include/Xsmp/Reference.h", "src/Xsmp/Reference.cpp", "src/Xsmp/Component.cpp"],
     [("AddComponent, DeleteComponent, name checks", "src/Xsmp/Container.cpp"), ("AddComponent, RemoveComponent, RemoveLinks", "include/Xsmp/Reference.h")],
     [("_vector", "components in order", "include/Xsmp/Container.h"), ("_vector", "referenced components", "include/Xsmp/Reference.h")],
     ["GetComponents, GetComponent, GetCount, typed accessors", "exceptions", "component hooks and destructors"])

prop("C17", "Every object is found again by its path, and a path finds nothing else",
     "GetPath of an object is its name preceded by those of its ancestors: a component is separated from its parent component by '/' (containers do not appear), an element of a composite by '.', an item of an array follows it as [index]. ResolveAbsolute of the path of an object of the simulator, and ResolveRelative of the rest of the path after an ancestor component, give that object; GetField of the path of a field, given with or without separator, gives that field, and throws InvalidFieldName for a path that leads to no field. A path is a sequence of names or indexes separated by '/' or '.'; '..' is the parent and '.' the object itself; negative, out of range or malformed indexes, names of nothing, and anything after an object that has no members lead to null, never to another object; nothing throws and nothing outside the path is read. At each step the elements published by the composite come before the components of its containers, and those before the components of its references, which a '.' does not follow. IsAncestor(a, b) holds exactly for the parents of b, their parents and so on.",
     ["inputs", "histories"], "all trees of components, containers, references, fields of every kind, entry points, failures and so on, and all paths over names, indexes and separators",
     "The tests resolve a handful of well formed paths in one tree; names that clash across elements and references, relative steps through fields and malformed paths are not tested.",
     ["src/Xsmp/Helper.cpp", "include/Xsmp/Helper.h", "src/Xsmp/Services/XsmpResolver.cpp", "src/Xsmp/Publication/Publication.cpp", "src/Xsmp/Component.cpp", "src/Xsmp/Publication/Field.cpp"],
     [("GetPath, Resolve, IsAncestor", "src/Xsmp/Helper.cpp"), ("ResolveAbsolute, ResolveRelative", "src/Xsmp/Services/XsmpResolver.cpp"), ("GetField", "src/Xsmp/Publication/Publication.cpp")],
     [("the tree of objects", "parents, names, containers, references, fields", "src/Xsmp/Publication/Publication.h")],
     ["GetPath", "the object returned by Resolve, ResolveAbsolute, ResolveRelative and GetField", "IsAncestor"])

prop("C23", "What a component publishes is seen exactly as published",
     "The type registry registers each type once per uuid and describes it exactly: its name, description, kind, range, literals, items, fields and base; wrong kinds, sizes, items and bases are refused. The predefined types and their literals are there. A type accepts exactly its values. Each field, array, anonymous structure, operation, parameter and property published is seen exactly as published: name, description, flags, type, direction or access, place in the tree, memory of each nested field, and it is found by its path. Two fields in one place never have the same name, whether published by description or given, nor two parameters of an operation; fields of type String8 or Void are refused. What is refused throws the exception of its fault and leaves everything as it was. An operation or property published again replaces the former one in place. Unpublish removes everything.",
     ["histories", "inputs"], "all sequences of type registrations and publications, valid or not, over all kinds of types, nested to any depth",
     "The tests publish one example of each kind, in a valid order.",
     ["src/Xsmp/Publication/Publication.cpp", "src/Xsmp/Publication/Field.cpp", "src/Xsmp/Publication/Type.cpp", "src/Xsmp/Publication/TypeRegistry.cpp", "src/Xsmp/Publication/Operation.cpp", "src/Xsmp/Publication/Property.cpp"],
     [("publications", "src/Xsmp/Publication/Publication.cpp"), ("types", "src/Xsmp/Publication/Type.cpp"), ("registry", "src/Xsmp/Publication/TypeRegistry.cpp"), ("fields", "src/Xsmp/Publication/Field.cpp")],
     [("_fields", "published fields", "src/Xsmp/Publication/Publication.h"), ("_types", "registered types", "src/Xsmp/Publication/TypeRegistry.h")],
     ["GetField, GetFields, GetOperations, GetProperties", "IType and its subinterfaces", "values written to fields", "exceptions"])

prop("C28", "A request holds what its operation takes, and reaches the component only when it fits",
     "CreateRequest of a component gives a request for a published operation whose parameters and return value are all of simple types (arrays and structures as their parts), for the getter of a readable property and for the setter of a writable one, and null for anything else. The request has the parameters of the operation by name and index in order, and a return value where there is one. A parameter or return value takes exactly the values of its type: those of another kind, out of range, at a wrong index or for a void operation are refused with the exception of that fault, which tells the kinds, index or operation, and the former value is kept. Invoke reaches the component exactly when the request names an operation or allowed access of it, with the number of parameters and the kinds of the input parameters published, and the component is given that very request; otherwise it throws the exception of the fault and nothing runs. The typed get, set and setReturnValue of Xsmp::Request carry numbers, strings, enumerations, arrays and structures, and default values, unchanged. GetValue and SetValue of a property pass the value to the component when its access allows.",
     ["histories", "inputs"], "all sequences of publications, requests, parameter accesses and invocations with all kinds of values, in range and not",
     "The tests invoke a few operations with good values.",
     ["src/Xsmp/Publication/Request.cpp", "src/Xsmp/Publication/Operation.cpp", "src/Xsmp/Publication/Property.cpp", "src/Xsmp/Publication/Publication.cpp", "src/Xsmp/Request.cpp", "include/Xsmp/Request.h", "src/Xsmp/Component.cpp"],
     [("requests", "src/Xsmp/Publication/Request.cpp"), ("creation and invocation", "src/Xsmp/Component.cpp"), ("typed access", "include/Xsmp/Request.h"), ("published operations", "src/Xsmp/Publication/Operation.cpp")],
     [("_values, _returnValue", "parameters and return value of a request", "src/Xsmp/Publication/Request.h")],
     ["IRequest", "what the component receives", "exceptions and their details"])

prop("C24", "An object can only be made with a valid name",
     "A name is valid exactly when it is an ASCII letter followed by ASCII letters, digits and underscores, or an index, one or more digits in brackets. Making any kind of object (component, container, reference, entry point, event source or sink, failure, each kind of field, factory, simulator, service, published field, property, operation, type) with another name, empty or null included, throws InvalidObjectName, which carries that name, and leaves the parent as it was, so that the same object can be made with a valid name afterwards; with a valid name it succeeds and GetName gives it, unchanged when the text given is changed later.",
     ["inputs"], "all names, each single byte and all short strings over letters, digits, underscores, brackets and other bytes, for every kind of object",
     "The tests try a few names with one class.",
     ["src/Xsmp/Object.cpp", "src/Xsmp/Helper.cpp", "include/Xsmp/Object.h"],
     [("name check", "src/Xsmp/Helper.cpp"), ("constructor", "src/Xsmp/Object.cpp")],
     [("_name", "name of the object", "include/Xsmp/Object.h")],
     ["exceptions and the name they carry", "GetName", "members of the parent"])

prop("C25", "The simulator finds and uses the factory of each type, and frees what it must",
     "RegisterFactory adds a factory to the simulator, which owns it: it is found by its uuid (GetFactory), by name (the first of that name), by index and in order of registration by iterating GetFactories, and is freed with the simulator. A factory whose uuid is already registered is refused with DuplicateUuid, which names both; it is freed and nothing else changes. CreateInstance of the simulator makes the instance with the factory of that uuid, with the name, description and parent given and the simulator, and returns null when there is none; CreateInstance of a factory does the same. An instance whose own uuid is not that of its factory is freed and InvalidFactory thrown; an exception of the constructor (InvalidObjectName) passes and leaves nothing behind. DeleteInstance frees the instance. The type name of a factory is the C++ name of the type.",
     ["histories"], "all sequences of registrations, creations and deletions with all combinations of uuids and names",
     "The tests register a couple of factories.",
     ["src/Xsmp/Factory.cpp", "src/Xsmp/FactoryCollection.cpp", "src/Xsmp/Simulator.cpp"],
     [("registration", "src/Xsmp/FactoryCollection.cpp"), ("creation", "src/Xsmp/Factory.cpp")],
     [("_uuid_map, _factory_map, _factories", "the factories", "src/Xsmp/FactoryCollection.h")],
     ["results", "exceptions", "live factories and instances"])

prop("C26", "A collection is its elements in order of addition, found by index and by name",
     "A collection holds the elements added to it and not removed or cleared since, in the order of addition, and gives the same view of them through size, at(index), at(name), forward, reverse and constant iteration; at gives null past the end and for names of no element, and for a name of several elements (where allowed) the first. Add throws InvalidObject for an element that is no named object, and DuplicateName for the name of an element held where names are unique, and then changes nothing; Remove of an element that is no named object throws InvalidObject too. Remove takes that element out, once, and tells whether it was there. A containing collection owns its elements: each is destroyed exactly once, when removed, cleared or with the collection. A delegating collection shows at each moment what the collection behind it holds.",
     ["histories"], "all sequences of additions, removals and clears over elements of equal and different names, for every collection class",
     "The tests add three elements once.",
     ["include/Xsmp/Collection.h"],
     [("Collection, ContainingCollection, DelegateCollection", "include/Xsmp/Collection.h")],
     [("_vector and _map", "elements in order and by name", "include/Xsmp/Collection.h")],
     ["size, at, iteration", "exceptions", "destructors run"])

prop("C22", "A restored simulation continues as the stored one would have",
     "Store writes the state of the simulation: the values and forced states of all fields published as state, failures, what components store themselves, the scheduler's events and identifiers, simulation, epoch and mission time, the event manager's names, identifiers and subscriptions. It changes nothing of it. Restore in the same or another simulation of that structure brings all of it back, whatever happened in between, so that every later operation (run, change of an event, subscription, emission, field access) has the outcome it would have had at the time of Store; pending zulu time events too are executed at their time, and events posted after Store are gone. What is not state (transient fields and members, fields published as no state) keeps its value. A file that is missing or cut anywhere, a state that refers to an object that the simulation has not, and a component for which nothing was stored make Restore throw CannotRestore; a place where no file can be made makes Store throw CannotStore.",
     ["histories", "inputs", "faults"], "all histories of field, scheduler, time and event operations with stores to and restorations from several files, in the same and in new simulations, and all lengths of a cut file",
     "The tests store and restore single fields through a memory buffer; the simulator's Store and Restore are only called on simulations without components.",
     ["src/Xsmp/Simulator.cpp", "src/Xsmp/StorageReader.cpp", "src/Xsmp/StorageWriter.cpp", "src/Xsmp/Field.cpp", "include/Xsmp/Field.h", "src/Xsmp/Publication/Field.cpp", "src/Xsmp/Services/XsmpScheduler.cpp", "src/Xsmp/Services/XsmpTimeKeeper.cpp", "src/Xsmp/Services/XsmpEventManager.cpp", "include/Xsmp/Persist.h"],
     [("Store, Restore", "src/Xsmp/Simulator.cpp"), ("Store, Restore of fields", "include/Xsmp/Field.h"), ("Store, Restore of the events", "src/Xsmp/Services/XsmpScheduler.cpp")],
     [("the stored file", "tags of the structure, then the state of each component", "src/Xsmp/Simulator.cpp")],
     ["values of fields", "entry points executed, with identifiers and times", "exceptions"])

prop("C20", "An event reaches each subscribed sink once, with its value and sender",
     "Subscribe adds a sink to an event source; it throws InvalidEventSink for a sink of another event type and EventSinkAlreadySubscribed for one that is subscribed; Unsubscribe removes it and throws EventSinkNotSubscribed for one that is not; both then change nothing. Emit notifies, before it returns, each sink that is subscribed throughout exactly once, with the value given and the sender given (the parent of the source if none is given), and no sink that is not subscribed at that moment, in an order that is open; this holds too where sinks, when notified, subscribe or unsubscribe themselves or others, remove links or emit again, from the same source or another. A sink without value throws InvalidAnyType when notified with one. RemoveLinks to a component ends exactly the subscriptions of its sinks. Sources, sinks, entry points and failures made with a component as parent are found there by name and in the order of their making, with their parent, name and description; a second one of a name is refused with DuplicateName and leaves the component as it was. An entry point calls its function once per execution. A model is failed exactly while at least one of its failures is.",
     ["histories"], "all sequences of subscriptions, emissions and direct notifications over sources and sinks with and without values, in two components, with sinks that subscribe, unsubscribe, remove links and emit when notified, and of objects made with equal and different names",
     "The tests emit to one sink that does nothing else.",
     ["src/Xsmp/EventSource.cpp", "include/Xsmp/EventSource.h", "src/Xsmp/EventSink.cpp", "include/Xsmp/EventSink.h", "src/Xsmp/EventProvider.cpp", "src/Xsmp/EventConsumer.cpp", "src/Xsmp/EntryPointPublisher.cpp", "src/Xsmp/EntryPoint.cpp", "src/Xsmp/FallibleModel.cpp"],
     [("Subscribe, Unsubscribe, DoEmit, RemoveLinks", "src/Xsmp/EventSource.cpp"), ("Notify", "src/Xsmp/EventSink.cpp"), ("IsFailed", "src/Xsmp/FallibleModel.cpp")],
     [("_event_sinks", "sinks subscribed to the source", "include/Xsmp/EventSource.h"), ("the collections of the component", "objects by name", "include/Xsmp/EventProvider.h")],
     ["notifications with sink, sender and value", "exceptions", "collections and lookup by name", "IsFailed"])

prop("C21", "Values reach every input they are connected to, and no forced field",
     "A field holds what was last assigned to it, whichever way: SetValue, SetValues, an assignment or compound assignment, increment, an item, fill, swap or assignment of an array. A forced field keeps the value it was forced to, and stays forced, whatever is assigned to it, until Unforce; Freeze keeps the present value. Connect makes the input hold the value of the output at once; from then on every assignment to a simple field, an item of an array or a member of a structure that is part of an output is passed on to the corresponding part of each connected input, and from it to those connected to it in turn, in the order of connection; an output published by its address passes its values on when Push is called. Disconnect and RemoveLinks end exactly the connections concerned, those of arrays and structures with all their parts and those of parts of fields too. Connect throws InvalidTarget if the source is no output, the target no input, both are the same, or their types or structure differ, and FieldAlreadyConnected if they or parts of them are connected; values of a wrong type or outside the enumeration, wrong sizes and indexes are refused with the respective exception, and none of these changes anything.",
     ["histories", "inputs"], "all sequences of assignments, forcing, connections, disconnections, pushes and removals of links over simple fields, simple arrays, arrays, structures and arrays of structures, of the SDK and published by address, in four components connected in chains",
     "The tests connect one output to one input and assign one value.",
     ["include/Xsmp/Field.h", "src/Xsmp/Field.cpp", "src/Xsmp/Publication/Field.cpp", "src/Xsmp/Component.cpp"],
     [("assignments", "include/Xsmp/Field.h"), ("Connect, Disconnect, Push, Force", "src/Xsmp/Field.cpp"), ("published by address", "src/Xsmp/Publication/Field.cpp"), ("RemoveLinks", "src/Xsmp/Component.cpp")],
     [("_connectedFields", "inputs that each output sends to", "include/Xsmp/Field.h"), ("_forced", "of a forcible field", "include/Xsmp/Field.h")],
     ["values of all fields after each operation", "IsForced", "exceptions"])

prop("C27", "What is stored in a file is what is restored from it",
     "A value stored with Xsmp::Persist::Store and restored with the same type comes back equal, whatever was in the variable before: numbers, enumerations, narrow and wide strings of any content and length, vectors, sets, maps (ordered or not), pairs, arrays, atomics, nested in each other, and pointers to objects of the simulation, null included. Values come back in the order in which they were stored, several at once or one by one. Where the file holds another type, holds no further value, or ends within the value, Restore throws CannotRestore, after the values before it have come back. Storing to a file replaces its content and creates missing folders; a file that cannot be opened makes StorageWriter throw CannotStore and StorageReader CannotRestore. The reader and the writer report the file name and path they were given.",
     ["histories", "inputs", "faults"], "all sequences of values of all supported types and nestings, all restorations of a prefix, of other types or of more, and all lengths of a cut file",
     "The tests store and restore one value of a few types.",
     ["include/Xsmp/Persist.h", "include/Xsmp/Persist/StdString.h", "include/Xsmp/Persist/StdVector.h", "include/Xsmp/Persist/StdMap.h", "include/Xsmp/Persist/StdSet.h", "include/Xsmp/Persist/SmpIObject.h", "src/Xsmp/StorageReader.cpp", "src/Xsmp/StorageWriter.cpp"],
     [("Store, Restore", "include/Xsmp/Persist.h"), ("Helper of each type", "include/Xsmp/Persist"), ("Store", "src/Xsmp/StorageWriter.cpp"), ("Restore", "src/Xsmp/StorageReader.cpp")],
     [("a file", "for each value a hash of its type, then its content", "include/Xsmp/Persist.h")],
     ["restored values", "exceptions"])
