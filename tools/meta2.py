A = "titus/pfaast.py"
R = "titus/reader.py"
SIMH = "deterministic simulation of call histories with injected faults, lockstep refinement against a small reference interpreter"

prop("C04", "A failed action restores exactly the state that asked for rollback",
     "When a call of action or merge fails, whatever the error, every cell and pool declared with rollback has exactly the contents it had before the call, deletions and creations included, while cells and pools without rollback keep the changes completed before the failure. Later calls continue from that state.",
     ["programs", "fault_sequences", "histories"],
     "every document, every history of calls and every point of an evaluation at which the document, a library function, a consumer of output or the host (memory, recursion, I/O, an interrupt) can raise an error",
     "the tests roll back one cell and one pool at one hand-placed error; failures at other points, of other kinds, after nested updates, and the calls that follow are not reached",
     [G], [("backup before the call", G + ":maybeSaveBackup"), ("restore on any exception", G + ":GeneratePython.__call__ (action, merge), maybeRestoreBackup"), ("updates build new values", G + ":update")],
     SIMH, "faults: user and library errors, failing emit/log consumers, exceptions and interrupts raised at a seeded call of the evaluation; the reference enumerates every point at which such a fault may have struck")

prop("C05", "Engines that share nothing do not influence one another",
     "What an engine returns, emits, logs and remembers is the same whether it runs alone or while other engines that share no state with it are loaded and run before it or at the same time in other threads. This includes engines of one load that share no cell, and engines of different documents.",
     ["schedules", "programs", "histories"],
     "every interleaving of engines of arbitrary documents, private to each thread",
     "every test runs its engines one after another in one thread",
     [G, "titus/lib", "titus/datatype.py", "titus/util.py"], [("a fresh scope and state per call", G + ":action"), ("separate cells per instance", G + ":PFAEngine.fromAst"), ("library functions keep no state between calls", "titus/lib")],
     "deterministic thread simulation (seeded preemption at every bytecode): concurrent run compared with the run alone",
     "documents are those of the library's own corpus plus generated ones; library functions run for real; neighbours also fail (injected exceptions, failing consumers)")

prop("C06", "Values that crossed the API never change afterwards",
     "An engine never modifies the input it is given, and a result, emitted or logged value or snapshot that it has handed out never changes afterwards, whatever calls follow on this engine or on engines sharing its state.",
     ["histories", "programs", "schedules"],
     "every history of calls; values kept across later updates of the cells and pools they came from, also updates by other threads and updates that fail",
     "tests look at each result once, right after the call",
     [G, "titus/lib", "titus/datatype.py"], [("functional updates", G + ":update"), ("library functions build new values", "titus/lib")],
     "deterministic simulation of call histories; every value that crossed the API is re-checked after every later step",
     "faults: failing calls and consumers, failing updates by other threads")

prop("C07", "Fold: the tally is the fold of the successful inputs, and merge replaces it",
     "For a fold document and any history of calls, some of which fail, each successful action sees the previous tally and its result becomes the tally, a failed or rejected call leaves the tally as it was, and merge of two tallies returns the merged tally and continues from it. The number of actions started counts every accepted input and the number of actions finished counts exactly the successful ones.",
     ["histories", "programs", "fault_sequences"],
     "every history of actions, merges, begin and end calls and rejected inputs, with failures at arbitrary points",
     "the tests fold a few numbers and merge once, with no failure in between",
     [G], [("tally assigned after success", G + ":GeneratePython.commandsFold, commandsFoldMerge"), ("counters", G + ":GeneratePython.__call__ (action)")],
     SIMH, "fold documents generated over five tally types")

prop("C08", "Emitted and logged values reach their consumer once, in program order",
     "Every value a document emits or logs is handed to the engine's consumer exactly once, in program order and before the call returns, also when the call fails later; replacing the consumer takes effect for the next call. An error raised by a consumer is raised to the caller unless the document catches it, and the engine stays usable.",
     ["programs", "histories", "fault_sequences"],
     "every document that emits or logs from any position, every history of calls, every consumer call that may fail",
     "the tests collect a handful of emitted values with consumers that never fail",
     [G], [("emit and log call the engine's current consumer", G + ":FakeEmitForExecution; titus/lib/core.py; " + G + ":GeneratePython.__call__")],
     SIMH, "consumers fail at seeded calls")

prop("C09", "A call that exceeds its time limit fails at the next loop iteration",
     "When a time limit is set for begin, action (and merge) or end, a call of it that has run longer than the limit raises a timeout error no later than the next iteration of any loop, and a call that has not run longer than its limit never raises one. Only time elapsed in that call counts: idle time between calls and changes of the wall clock do not, and limits given by the host override the document's.",
     ["programs", "histories", "fault_sequences"],
     "every document with loops, every limit configuration, every pattern of slow consumers and clock jumps",
     "one test lets a fixed loop run against the real clock",
     [G, "titus/options.py"], [("checkTime in every loop", G + ":doWhile, doUntil, doFor, doForeach, doForkeyval, ExecutionState"), ("limits", "titus/options.py:EngineOptions")],
     "deterministic simulation on a virtual clock: slow consumers, idle time and wall-clock jumps, lockstep refinement against a reference interpreter",
     "time passes only at emit and log calls; the model allows the timeout to be noticed anywhere between the deadline and the next loop iteration")

prop("C17", "try catches the errors its filter admits and passes on all others unchanged",
     "A try expression without a filter absorbs any error raised inside it and yields null; with a filter it absorbs exactly the errors whose message or code is listed and lets every other error, whatever its origin, reach the caller unchanged. State changed before the error stays changed unless the whole call fails and rolls back.",
     ["programs", "fault_sequences", "histories"],
     "every nesting of try, loops, functions and updates, and errors of every origin (document, library, consumer, timeout, host) at every point",
     "the tests raise one document error in one try",
     [G, A], [("tryCatch", G + ":tryCatch"), ("result type", A + ":Try")],
     SIMH, "")

prop("C20", "An engine's state evolves exactly as its document says, over any history",
     "Over any history of begin, action and end calls, on one engine or interleaved over several engines of one load, every result, emitted and logged value, error and every cell and pool is what evaluating the document's expressions one after another gives. Nothing else is carried from call to call, and private state of one engine is never seen by another.",
     ["histories", "programs"],
     "every document of the modelled subset of the language and every history of calls on one or several engines, with rejected inputs and injected faults in between",
     "tests check one or a few calls of fixed documents",
     [G, A, "titus/util.py"], [("generated engine code", G + ":GeneratePython"), ("dynamic scopes", "titus/util.py:DynamicScope")],
     SIMH, "")

prop("C10", "An engine's random draws depend only on its seed and instance number",
     "When a document gives a randseed, everything an engine draws at random is a function of the document, the seed, the engine's instance number and its own calls: it is the same after a restart, in any process, whatever other engines or the host draw from other generators, and whatever runs in other threads. Different instances of one load draw different sequences, and without a randseed two engines do not draw the same sequence.",
     ["programs", "histories", "schedules"],
     "every document that draws, every history of calls with failures, every interleaving with other engines and with draws of the host from the process-wide generators",
     "tests compare a few draws of single functions with constants on one engine in one thread",
     [G, "titus/lib/rand.py", "titus/lib/model/cluster.py", "titus/lib/array.py"], [("one generator per engine, seeded from the instance number", G + ":PFAEngine.fromAst"), ("library functions draw from the engine's generator", "titus/lib/rand.py")],
     "deterministic simulation with virtual entropy: the same engine alone, restarted, and among interfering engines and threads must draw the same values",
     "the process-wide generators and operating-system entropy are simulated; every drawing function of the library is in the workload")

prop("C15", "Loading documents from several threads gives what loading them alone gives",
     "Loading a document -- as JSON, YAML or PrettyPFA -- gives the same engine, or the same error with the same text, whether it is done alone or while other threads load other documents, correct or broken ones. A load that fails, for whatever reason, leaves nothing behind that changes or blocks a later load.",
     ["schedules", "programs", "fault_sequences"],
     "every interleaving of loads of arbitrary documents by any number of threads, and failing allocations at any call inside a load",
     "every test loads one document at a time and in one thread",
     ["titus/prettypfa.py", R, G, A, "titus/util.py", "titus/signature.py", "titus/datatype.py"], [("one PrettyPFA lexer and parser per process", "titus/prettypfa.py:Parser, parser, exprParser"), ("invented names", "titus/util.py:uniqueRecordName"), ("library function tables", A + ":FunctionTable.blank"), ("type resolution per load", "titus/datatype.py:AvroTypeBuilder")],
     "deterministic thread simulation (seeded preemption at every bytecode or line) of concurrent loads, compared with each load alone in a pristine process",
     "real reader, PrettyPFA grammar, type checker and code generator; faults: exceptions at the n-th call inside a load")

prop("C21", "Between calls an engine remembers its state and nothing else",
     "What a call does is determined by the document, the engine's cells and pools, its tally, its call counters and its random generator, and the arguments of the call: at any point of any history, a fresh engine given exactly those behaves the same from there on. In particular failed calls leave nothing behind, and no library function remembers anything from earlier calls.",
     ["histories", "programs", "fault_sequences"],
     "every document of the library's corpus and generated ones, every history, with failures at arbitrary points",
     "tests call library functions once or twice; residue left by earlier or failed calls shows only against a fresh engine",
     [G, "titus/lib", "titus/util.py"], [("per-call scope and state", G + ":PFAEngine.action"), ("library functions as module-wide objects", "titus/lib")],
     "deterministic simulation of call histories with injected faults; each checked call is repeated on a fresh engine in a pristine process that was given the same state",
     "the state is handed over through the engine's cells, pools, tally, counters and rand attributes")

prop("C11", "An engine restarted from its snapshot continues as the original would have",
     "A snapshot taken between any two calls, written out as a document and loaded again, after a crash or on another machine, gives an engine with the same contents of all cells and pools, whose answers to the calls that follow are those the original engine would have given. Taking a snapshot changes nothing in the engine and the snapshot itself never changes afterwards, and it contains this engine's cells and pools only.",
     ["crash_points", "histories", "programs"],
     "every document and type of state, every history with failures, every point at which the process may be lost",
     "the tests take a snapshot and look at one cell of it; they never load one again",
     [G, A, R, "titus/datatype.py"], [("snapshot", G + ":PFAEngine.snapshot, SnapshotCell, SnapshotPool"), ("writing documents", A + ":EngineConfig.toJson, Cell.jsonNode"), ("loading state", G + ":PFAEngine.fromAst; titus/datatype.py:jsonDecoder")],
     "deterministic crash-restart simulation: histories with injected failures, crash at seeded points, restart from the written snapshot in a process that has run nothing, comparison with the run that did not crash",
     "the tally of fold documents, the call counters and the random generator are not part of a snapshot and are handed over; bytes and text of the same characters, int and double of the same value, and tagged and untagged union members count as equal")

prop("C12", "Documents with updates inside updates are refused; others never block",
     "A document in which an update of a shared cell or pool item can reach, through any chain of user functions, function references, calls by name or nested expressions, another update or removal of a cell or pool is refused when it is loaded; every other valid document is accepted, and none of its engines ever blocks for ever, whatever the other engines sharing its state do.",
     ["programs", "schedules"],
     "every way the language can reach an update from inside an update, every call graph (recursion included), every interleaving of engines over one shared state",
     "the tests try a few fixed shapes of nested updates, in one thread",
     [G, A, R], [("the check", G + ":checkForDeadlock"), ("call graph", G + ":PFAEngine.callGraph, calledBy, hasSideEffects"), ("calls of every expression", A + ":*.walk, collect")],
     "deterministic simulation: generated documents are loaded and, when accepted, their engines run in simulated threads until all calls are done; a small independent analysis of the document says which must be refused", "")

prop("C13", "A run over Avro files reads and writes every datum once, in order",
     "When an engine's inputs come from avroInputIterator and its results or emitted values are appended to avroOutputDataFileWriter, the engine is given exactly the data of the input file, in order, and answers as if it had been given them in memory; once the writer is closed, the output file holds exactly the values the engine gave, in order, each as the member of the output type that it is. After a failing or full disk or a kill, the file still holds everything flushed before and nothing but outputs of the run in order. An input that ends early or cannot be read gives the data before that point and then an error.",
     ["programs", "fault_sequences", "crash_points"],
     "every input and output type and value, every document and method, every point at which a file fails, fills up, ends early or the process is lost",
     "no test reads or writes a stream through an engine",
     [G, "titus/datatype.py"], [("reading streams", G + ":PFAEngine.avroInputIterator"), ("writing streams", G + ":PFAEngine.avroOutputDataFileWriter, OutputDatumWriter"), ("accepting data", "titus/datatype.py:checkData")],
     "deterministic simulation of whole stream-processing runs over an in-memory file system with injected faults and kills; oracle: an engine given the data in memory, and an Avro implementation of our own",
     "members of a union that a reader without tags cannot tell apart may come back as each other; a float is what 32 bits hold; files are not cut inside sync markers or within 16 bytes of the start of a block (the avro package goes astray there)")

prop("C18", "A chain of documents behaves as the documents one after the other",
     "A document made by titus.producer.chain from documents whose outputs and inputs fit gives, on every history of begin, action and end calls, what the documents give one after the other: each output is the input of the next document, each emitted value is passed on at the moment it is emitted, logs come in order, and every document keeps its own cells, pools, functions and variables, whatever names they share. To its host the chain is one engine: its name, instance, version, metadata and counts of actions are what all its documents see, one call has one time limit, and a failing action restores every rollback cell and pool of every document. Chaining changes none of the documents given, and refuses none that fit (documents that use fold, or call functions by computed name, are not chained).",
     ["programs", "histories", "fault_sequences"],
     "every sequence of documents, types and names, every history of calls, every point at which a document, a consumer, the clock or the host fails",
     "no test runs a chain",
     ["titus/producer/chain.py", G], [("combining documents", "titus/producer/chain.py:ast"), ("making engines", "titus/producer/chain.py:engine")],
     "deterministic simulation of generated chains under call histories with failing consumers, host exceptions, interrupts, a virtual clock and restarts; oracle: one reference model per document, composed",
     "generated chains have two to four map or emit documents of the subset the reference model covers, with records, enumerations and unions of records passed between them; begin is called before the first action, and emits nothing")

prop("C14", "External state is loaded whole, equal for all instances, or the load fails",
     "Cells and pools whose initial values live in JSON or Avro files or behind URLs hold exactly what an embedded initial value of the same meaning would give, the same in every instance of one load and in the configuration the engine reports, whatever happens to the files meanwhile. When a file cannot be opened or read, or its contents do not fit, the load fails as a whole; a load that fails for any reason leaves no open file and nothing in the shared state.",
     ["fault_sequences", "programs", "histories"],
     "every type and value of state, every source, every fault while opening, reading and closing, and files replaced at any moment of a load",
     "the tests load one fixed file without faults",
     [R, G, A, "titus/datatype.py"], [("reading sources", R + ":_readCell, _readPool"), ("building engines and publishing shared state", G + ":PFAEngine.fromAst"), ("writing documents", A + ":Cell.jsonNode, Pool.jsonNode")],
     "deterministic simulation of loads over an in-memory file system with injected faults and replacements; oracle: the same document with embedded values",
     "errors are those the operating system reports; silent corruption of bits is not injected")

prop("C16", "An inspector command takes effect completely or not at all",
     "In any pfainspector session, each command either does what its documentation says or reports an error and changes neither the loaded documents nor any file in use; later commands always show documents as they are now. What a save command reports as written is completely in the file. No input, error of a file or interrupt ends the session except by its exit commands and end of input.",
     ["histories", "fault_sequences"],
     "every sequence of commands on any documents, with failing, full, short and slow files, and interrupts and ends of input at any point",
     "the tests check helper functions; whole sessions, failing files and stale answers are not tested",
     ["titus/inspector"], [("the command loop", "titus/inspector/main.py:Main"), ("commands on documents", "titus/inspector/jsongadget.py, titus/inspector/pfagadget.py"), ("parsing", "titus/inspector/defs.py")],
     "deterministic simulation of whole sessions over an in-memory file system with injected faults, checked after every command against a small model of the documents and files", "")

prop("C22", "What crosses an engine's boundary has its declared type",
     "A message that is no datum of the document's input type (wrong kind, a part missing, out of range, unknown symbol, wrong tag or size) is refused with an error and without any effect: cells, pools, tally, random generator and earlier results stay as they were, and nothing is emitted or logged. Every other message means the datum it denotes, in whichever of its forms it arrives (numbers and booleans as text, bytes or their text, unions with or without tags, surplus fields), and the engine treats that datum alike, whether it computes with it, compares it with one of the same value from elsewhere, stores it, casts it to JSON or Avro or gives it back. Everything an engine gives out is a datum of the output type and survives being written as JSON and read again.",
     ["inputs", "histories", "programs", "fault_sequences"],
     "every input and output type, every datum and every way a channel may garble it, at any point of a history",
     "the tests send data of the right types in one form; garbled data and other forms of the same data are sampled in a handful of places",
     ["titus/datatype.py", G], [("accepting data", "titus/datatype.py:checkData"), ("giving out data", "titus/datatype.py:jsonEncoder, jsonDecoder, compare; " + G + ":PFAEngine.fromAst")],
     "deterministic simulation of a host behind a channel with injected garbling; oracle: a reference reading of the input type that says what a message means, if anything, and twin engines that are given only the meaning",
     "messages that can be read as more than one member of a union without a tag, integral floating point numbers for integers, odd spellings of numbers and halves of surrogate pairs are not judged")

prop("C19", "A command-line tool that reports success has written its whole result",
     "Whatever happens to the files it reads and writes, a run of pfachain, pfarandom, pfaexternalize or pfasize ends with an error status or has written its complete and correct output: the chain of the documents given with the arguments given, a document with the schemas given whose answers are data of the output schema, the same document with the named cells and pools moved to files of their own (it loads to the same engine), the true sizes. Given readable input and right arguments it does not fail, also when the clock is set back. It changes no other file.",
     ["programs", "configurations", "fault_sequences"],
     "every document, schema and combination of arguments, every point at which a file or standard output fails, fills up, ends early or comes in pieces, interrupts and clock changes at any file operation",
     "no test runs a command-line tool",
     ["scripts/pfachain", "scripts/pfarandom", "scripts/pfaexternalize", "scripts/pfasize", "titus/producer/chain.py"], [("writing the result", "scripts/*: __main__"), ("streaming a document", "scripts/pfaexternalize:doValue, doMap, doArray"), ("random data and documents", "scripts/pfarandom:makeData, makePFA")],
     "deterministic simulation of tool runs as processes (arguments, standard streams, exit status) over an in-memory file system with injected faults, interrupts and clock changes; oracles: the library call, the document before, a reference reading of schemas, a count of our own",
     "the ijson package is not installed and stands for itself as a stub; output of a tool that reports failure may be incomplete; cells and pools given to pfaexternalize go to different files")

# What nothing nondeterministic enters: one line why a simulator has nothing to decide there.
prop("N01", "A document that loads never fails with an error of types when it runs",
     "A document accepted by the type checker, run on data of its input type, never fails inside a library function or user function because a value does not have its static type, and ends every successful call with a value of its output type.",
     ["programs", "inputs"], "every document the language allows and every datum of its input type",
     "the tests sample documents by hand, mostly to see them accepted or refused",
     [A, G, "titus/signature.py", "titus/datatype.py"], [("types of expressions", A + ":*.walk"), ("signatures", "titus/signature.py")],
     na="The judgement of the type checker is a pure function of one document: no schedule, clock, fault or history enters it, so a simulated run would be one random unit test; the part of it that crosses an engine's boundary over histories is C22.")
prop("N02", "Library functions compute what the PFA specification says",
     "Every library function returns, for all arguments of its signature, the value (or raises the error code) that the PFA specification gives for it.",
     ["inputs"], "every function and all arguments in its domain",
     "each function is tried on a handful of arguments", ["titus/lib"], [("library functions", "titus/lib/*.py")],
     na="The functions are pure in their arguments; what does depend on histories, threads, failures and entropy around them (no residue, no sharing, untouched arguments, draws) is C05, C06, C10 and C21, and the numerical value of one call is not a matter for a simulator.")
prop("N03", "All notations of a document mean the same document",
     "A document written as JSON, as YAML or as PrettyPFA and its syntax tree written back as JSON are the same document: they load to engines that behave alike.",
     ["programs"], "every document in every notation", "the tests compare fixed examples",
     [R, "titus/prettypfa.py", A], [("reading", R + ":jsonToAst, yamlToAst"), ("PrettyPFA", "titus/prettypfa.py"), ("writing", A + ":*.jsonNode")],
     na="Translation is a pure function of one text. Its stateful side is decided elsewhere: loads in several threads or after failed loads (C15), and writing and reading snapshots in several notations (C11).")
prop("N04", "Models made by the producers fit the data they were made from",
     "The k-means, tree and transformation producers give, for every data set and configuration, models that are valid PFA and the best of their kind by the producer's own measure.",
     ["inputs", "configurations"], "every data set and configuration", "the tests make one model from one small data set",
     ["titus/producer/kmeans.py", "titus/producer/cart.py", "titus/producer/transformation.py", "titus/producer/expression.py"], [("producers", "titus/producer")],
     na="One call over arrays in memory without I/O, time, concurrency or state from call to call; the only draw (starting clusters) is an argument of the numerical problem and not a fault or schedule.")
