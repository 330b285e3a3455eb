APP = "libs/databases/infrastructure/files/application.go"
prop("C01", "A commit replaces the database file atomically",
 "At every instant of a commit, and after a crash at any point of it, the file found under the database's name is a complete database, either the previous one or the new one: the new file is written completely and flushed to disk beside it before one rename puts it in place. Creating a database never truncates an existing one, deleting removes nothing but the named database, and no other operation (opening, listing, reading, writing, cancelling, closing) changes any file.",
 ["crash_points", "fault_sequences", "inputs"], "every point of every database operation at which the process can stop or a file-system call can fail",
 "The database test runs one commit to its end on a healthy disk; it never stops in the middle nor makes a call fail.",
 [APP], [("write beside, flush, rename", "application.updateDatabaseOnFile"), ("existence probe", "application.New")],
 ["the file under the database's name"],
 "path-sensitive typestate of files and paths over an inlined IR of every database operation",
 "Every path of the 15 database operations (bounded only by joins of equal states, so loops are covered) is explored on the current source; each file-system effect is checked for its target and its order. Paths are compared as terms over the directory, the name and constants. Assumes rename is atomic and sync durable.")
prop("C02", "A failed step is never reported as success",
 "Whenever a step an operation relies on fails (a file, lock, hashing, encoding, decoding, building or lookup step), the operation that ran it returns an error itself rather than a success built on what the failed step returned, and it does not retry nor skip the step silently. Only probing for existence, releasing a lock or closing a handle on the way out, the end of file after at least one byte and one alternative of a grammar failing to match may fail without the operation failing.",
 ["fault_sequences", "inputs"], "every call, in every non-test function, of a function that can report an error, on every path",
 "Tests run the success path of each operation and a few argument errors; almost none of the error returns can be provoked by them.",
 [APP, "libs/databases/domain", "libs/cryptography/domain", "libs/asts", "libs/interpreters", "libs/queries", "instances"],
 [("if err != nil { return err }", "every operation")], ["error results"],
 "path-sensitive error-propagation analysis of every non-test function",
 "Every error-returning call of every non-test function is split into its failed and successful outcome; on each path on which it failed the function must return a non-nil error.")
prop("C04", "A commit changes files only under the lock of its database",
 "A commit changes the file system only between a successful acquisition and the release of the exclusive lock created on the path of the database its context was opened on. On every way out of a commit, success or failure, the lock it acquired has been released, and it never releases a lock it does not hold or that belongs to another context.",
 ["schedules", "fault_sequences"], "every path of a commit, for every step at which it can fail, whatever other processes do",
 "The test commits once from one process; it observes neither exclusion nor what is left locked after a failure.",
 [APP], [("TryLock / deferred Unlock", "application.updateDatabaseOnFile"), ("lock creation", "application.Open")], ["the database's lock"],
 "lockset typestate on the inlined path graph of commit",
 "Decides that every mutating effect of a commit is dominated by a successful acquisition of the context's own lock and followed by its release on every path. That fslock excludes other processes is trusted; what is read before the lock is taken is not covered.")
prop("C05", "Pending writes stay in their context until it commits or cancels",
 "A successful write adds exactly one pending content, made of the given hash, data and kind, after the pending contents of its context; a successful cancel or commit leaves none, and a successful commit makes its context serve the reference it saved, the new file and its data offset, never before the new file is in place. An operation that fails, and any operation other than these, leaves the pending and the committed state of its context unchanged, and no operation uses or changes another context.",
 ["histories", "fault_sequences"], "every sequence of operations over any number of contexts, with any of them failing",
 "The test follows one happy history over one context.",
 [APP, "libs/databases/domain/contents"], [("context fields", "application.Write, Cancel, Commit")], ["reads and commits after the operation"],
 "inductive effect analysis of every database operation over the open contexts",
 "Per operation, every store to a context and every use of one is checked on every path (which context, which value, which outcome); the history claim follows by induction over operations. Run under the assumption that one process uses a context from one goroutine at a time.")
prop("C07", "A context handle designates exactly one open context",
 "Opening a database gives a handle no other open context has, designating a context on the named database, and fails when a context is already open on that database. Any operation given a handle that designates no open context fails and changes nothing (a bulk read of an empty list excepted), and once closing a context succeeds its handle designates nothing.",
 ["histories", "inputs"], "every sequence of opens and closes and every handle value",
 "Tests open at most one or two contexts and never reuse a handle.",
 [APP], [("contexts by identifier", "application.Open, Close"), ("lookup before use", "every operation taking a handle")], ["handles and errors"],
 "path-sensitive map-key and lookup typestate over every database operation",
 "Freshness of the handle is proved from a counter that only grows or from a failed lookup; every use of a context is preceded by a successful lookup of the caller's handle on every path.")
prop("C08", "Database files are closed exactly when nothing uses them any more",
 "Every file a database operation opens is, on every way out including failures, either closed or owned by the open context, and no file is used after it was closed. Closing a context closes its file; a commit that succeeds closes the file it replaces, and one that fails leaves its context with a usable one.",
 ["fault_sequences", "histories"], "every path of every database operation, whatever step fails",
 "Nothing in the tests observes descriptors, and failing steps are not provoked.",
 [APP], [("defer Close, close on error", "application.Open, updateDatabaseOnFile, Close")], ["open file descriptors"],
 "path-sensitive handle typestate (open, owned, closed) over every database operation",
 "Every open handle is tracked on every path of the inlined operations to a close or to the context field.")

DOM = ["libs/asts/domain", "libs/cryptography/domain", "libs/databases/domain", "libs/interpreters/domain", "libs/queries/domain"]
prop("C13", "A built instance holds exactly the values its builder was given",
 "On every domain builder, each setter keeps the value it is given, whatever else is set, before or after; each accessor of the instance that is built, whatever combination of optional values was given, returns the value its own setter received, unchanged and not mixed up with another's. An optional value that was not given (or, for a list or bytes, given empty) shows as absent, and of values that are alternatives of each other only one shows.",
 ["inputs", "histories"], "every builder of every domain package, every subset of its setters, every value",
 "Tests build each entity with one or two combinations of values, and most entities with none.",
 DOM, [("With... setters", "every builder"), ("Now", "every builder"), ("accessors", "every entity")], ["the accessors of a built instance"],
 "path-sensitive value-flow analysis from setters through Now to accessors, for all builders",
 "For 72 builders, every path of the building function that returns an instance is explored; what each accessor reads is traced back to the builder field its setter wrote. The correspondence of accessors and setters is a committed table. Derived values (hashes, scores, heights, lookups by name) are not covered.")
prop("C14", "Builders return a complete instance or an error, never both or neither",
 "Building returns either an instance or an error, and never panics for lack of a value. An instance is only returned when every mandatory value was given (for a list, bytes or a name of bytes: and is not empty) and, where values are alternatives of each other, when exactly one is shown; a presence accessor (Is..., Has...) of an instance is true exactly when the part it announces is there.",
 ["inputs"], "every domain builder, every subset of its setters, every presence accessor",
 "Tests omit at most one value of a few builders.",
 DOM, [("mandatory checks", "every builder's Now"), ("presence accessors", "every entity")], ["results of building; presence accessors"],
 "path-sensitive must-be-given analysis of every builder, against a committed contract table",
 "Every returning path of 72 builders: what it knows about each value the builder was given (given, not empty, absent) is compared with the committed contract; dereferences of optional values must be guarded.")
LIBS = ["libs", "instances"]
prop("C15", "A built instance never changes, and arguments are left as they were",
 "Once built, an instance never changes: no operation of any package writes to its fields, nor to the lists, bytes, tables or numbers it holds or hands out, and memory handed to an instance while it is built is not written by the operation afterwards. No operation writes into the lists, bytes, tables or numbers its caller passed to it.",
 ["histories", "inputs"], "every write through a reference in every function, whatever it is called with and in whatever order",
 "A test looks at an instance once; that a later call, or the same call on another input, changed it is never observed.",
 LIBS, [("copying accessors and lists", "every entity"), ("loop buffers", "adapters and services")], ["any accessor of an instance, after any other operation"],
 "interprocedural ownership and effect analysis of every write through a reference",
 "For every write, and every call that may write through an argument, of every non-test function, the memory it reaches is traced back to where it was made: it must be the operation's own, a builder being filled or the state of the database service. Retained memory must not be written afterwards. What a caller does with a list it got from an accessor is outside.")
prop("C17", "The same inputs give the same result, whatever ran before",
 "No operation depends on the clock, on chance, on the environment, on goroutines or on the order in which a table is iterated, nor on earlier uses of the same service: the open contexts of the database and the creation time of a commit are the only exceptions. Every instance is built by a builder freshly created for it, so nothing given to one instance shows in another.",
 ["histories", "inputs", "schedules"], "every operation of every package, every history of earlier uses, every iteration order",
 "Tests run an operation once on a fresh service; they neither repeat it nor vary the order of a table.",
 LIBS, [("builder creation before use", "every service and adapter"), ("iteration over tables", "coverages, interpreters, compile")], ["results of two runs on the same inputs"],
 "effect and taint analysis: sources of non-determinism, service state, table iteration order, builder freshness",
 "All functions: calls to clock, randomness, environment and goroutines; writes to fields of services and package variables; every loop over a table (nothing that depends on its order may leave it); and every builder that is filled or asked to build must have been created by the same operation for that instance.")
INT = "libs/interpreters/applications/application.go"
TERM = "path-sensitive symbolic summarisation of the source to closed forms, compared with a committed specification"
TNOTE = "The operation and everything it calls in the repository are summarised, on every run, from the type-checked IR to guarded closed forms (results, errors, effects and the exact condition of each; loops as one term over every iteration), which are compared with the forms the property allows. Names, helpers, order of independent steps and loop style do not matter. "
prop("C20", "A compiled program is what its instructions say, in their order",
 "A program compiled from a list of instructions holds, in their order, one instruction for each assignment and each execution, and lists as outputs the positions (among those) of the assignments to parameters declared as outputs before them. A value read from an input parameter carries the number of input parameters declared before it; an execution carries its application as declared and attached so far: the module its name designates, numbered by the applications declared before it, with one value and target per attachment, in order; a block of instructions compiles to a program of its own. A module, application or parameter declared twice, a name used before it is declared, and an output parameter read as a value all make the compilation fail; nothing else does, as long as the parts it builds are valid.",
 ["inputs", "histories"], "every list of instructions, every set of modules",
 "One test compiles a few fixed scripts; the guarantee is about every sequence of declarations, uses and attachments.",
 [INT], [("one pass over the instructions", "application.Compile"), ("declared modules, applications, parameters, values", "application.compile...")], ["the compiled program"],
 TERM, TNOTE + "What the builders do with what they are given is C13/C14. Only names that resolve to declared values are covered; the numbering is as declared, not as reachable.")
prop("C21", "Executing a program runs its instructions in order and returns its outputs",
 "Executing a program on a list of inputs takes its instructions in order: a value instruction yields its constant, the input at its index (failing when there is none), what executing its program on the same inputs returns, or what its application returns; an execution runs its application. Running an application calls the function of its module once with a table holding the value of each of its attachments under its target, each evaluated the same way. The result lists the values at the program's outputs, in their order, and is empty when it has none; an output that no value instruction produced makes the execution fail.",
 ["inputs", "histories"], "every program, every list of inputs, whatever the modules' functions return",
 "One test executes a few fixed scripts with fixed inputs; order, arity and missing values are not varied.",
 [INT], [("one pass over the instructions", "application.Execute"), ("values and applications", "application.executeValue, execute")], ["the returned list; the calls of module functions"],
 TERM, TNOTE + "Module functions are opaque: what matters is when, how often and with what they are called.")
AST = "libs/asts/applications/application.go"
QRY = "libs/queries/applications/application.go"
prop("C18", "A grammar matches bytes line by line and leaves exactly what it did not eat",
 "Matching a token tries its lines in order on the same bytes and takes the first that matches; a line matches when each of its containers in turn does, on what the one before left: a composition matches each of its bytes as often as it occurs, an element matches its content again and again up to its maximum or the end of the bytes and at least its minimum of times. A value matches the one byte it stands for, past the channels; a token, a recursion into an enclosing token (except on a line already entered with the same bytes) and another grammar match by their own rules; 'everything' matches all bytes up to where its exception matches, what its escape introduces excluded. Channels are taken, before a value and after a token, as long as one of them, its condition on what precedes and follows holding, eats something; the tree holds what was matched in that order, and its remaining bytes are exactly those that nothing in it ate.",
 ["inputs", "programs"], "every grammar and every list of bytes",
 "Tests match a few grammars on a few inputs; nesting, recursion, cardinalities, channels and escapes are hardly combined.",
 [AST], [("lines in order", "application.block"), ("containers in order, cardinality", "application.line"), ("content", "application.elementContent, elementValue"), ("channels", "application.channels, channel"), ("recursion", "application.token")], ["the tree and its remaining bytes"],
 TERM, TNOTE + "Recursive functions are cut at themselves and each is compared on its own, so the guarantee is by induction over the calls. Termination on left-recursive grammars is not covered, nor is what the accessors of a tree make of it.")
prop("C22", "A query returns what its path designates in the tree, or fails",
 "A query on a tree fails unless the tree is of the query's token and has a successful line; it then selects, among the elements of that line with the name the query asks for (unnamed content, matched in reverse, counts under the name of its own), the one at the requested position, and all of its contents or the requested one, failing when there is no such content and selecting nothing when there is no such element. The contents are passed to the query's function, all of them or the first (failing when there is none) as the query says; or each tree among them is queried by each inner query in order, a recursive one standing for the query of that token met on the way (failing when there is none), the results that are valid are collected in order, and the query's function gets them, all or the first. The result is what that function returns, not valid when nothing was found or it says so, with the tree's remaining bytes.",
 ["inputs", "programs"], "every query and every tree, whatever the query's functions return",
 "Tests run one query on one tree; positions, missing elements, recursion and several inner queries are not varied.",
 [QRY], [("selection of element and contents", "application.element, contents"), ("inside functions and fetchers", "application.inside, fetchers")], ["the returned value, its validity, the remaining bytes, the calls of query functions"],
 TERM, TNOTE + "The query's functions are opaque: what matters is when and with what they are called.")
TRE = "libs/asts/domain/trees"
prop("C19", "Coverage runs every suite of a grammar and tells which elements none covers",
 "The coverages of a grammar have one entry for each token with suites among those reachable from its channels and its root (through the tokens, the everything tokens with their exceptions and escapes, and the other grammars of its elements), a token name being visited once per grammar; the entry has, in the order of the suites, one execution each: the suite and the tree of matching, with the channels of the grammar (none within a channel), the bytes it composes, or the error of that match. They contain an error exactly when one of their executions does. Covered elements are, for each tree of an execution, by the name of the token, the index of the successful line and the position of the container that was matched, the name of the element, at every depth. Uncovered elements are all the elements of the reachable tokens, by token, line and position of their container, that are not covered; all of them when there is no coverage.",
 ["inputs", "history"], "every grammar: any nesting of tokens, everything tokens, other grammars and channels, with any suites",
 "The tests count coverages of a few grammars; positions after optional elements, exceptions, escapes, channels and other grammars are not varied.",
 [AST], [("tokens visited, suites run", "application.Coverages, coveragesToken, coverageTokenSuite"), ("positions covered", "application.Covered, findCoveraredElementsFromBlock"), ("positions that exist", "application.Uncovered, findElementsFromToken")], ["the coverages of a grammar", "the covered and uncovered elements"],
 TERM, TNOTE + "What a match gives is C18 and what a composition writes C26. That a grammar in which a token is reachable from itself makes the visit of all elements endless is out of scope: builders cannot make one.")
prop("C23", "A match is successful exactly when it has what its grammar asks for",
 "An element matched for an element of a grammar is successful when it has at least the minimum and at most the maximum number of contents of its cardinality; one matched for a composition when it has at least as many contents as its bytes occur; one without a grammar always. A line is successful when it has elements, all of them are successful and, unless it was matched in reverse, each of its containers that must occur has, after the match of the container before it, an element of its name with enough contents, the number of contents of a composition being exact. The successful line of a block is the first of its lines that is successful, and a block has at least one line.",
 ["inputs"], "every line, element and block, whatever their grammars and contents",
 "A few matches and failures are asserted; names shared by containers, cardinalities and amounts are not combined.",
 [TRE + "/line.go", TRE + "/element.go", TRE + "/block_builder.go"], [("containers in order", "line.IsSuccessful, indexOf"), ("cardinality", "element.IsSuccessful, Amount"), ("first successful line", "blockBuilder.Now")], ["IsSuccessful of a line and an element; the successful line of a block"],
 TERM, TNOTE + "Which contents a match has is C18.")
prop("C25", "The bytes of a tree are those it matched, in order, channels only on request",
 "The bytes of a tree are those of the elements of its successful line, in their order, and none when it has no successful line; the bytes of an element are those of its contents, in their order; a content has the one byte of its value or the bytes of its tree, and a list of trees has theirs one after the other. When channels are included, the bytes of the trees found before a value come directly before its byte and those of the trees found after a line directly after it; when they are not, no byte of theirs appears at any depth.",
 ["inputs"], "every tree, element, content and list of trees",
 "The tests compare the bytes of a few trees, mostly without channels.",
 [TRE + "/tree.go", TRE + "/trees.go", TRE + "/element.go", TRE + "/content.go"], [("tree, then its suffix", "tree.Bytes"), ("prefix, then the byte", "element.Bytes, content.Bytes"), ("one after the other", "trees.Bytes")], ["the returned bytes"],
 TERM, TNOTE + "Tree.Bytes is cut at itself: the guarantee is by induction on the depth of the tree. That these are the bytes a match consumed is C18, except for what 'everything' skips as an escape.")
prop("C26", "Composing a token writes its compositions and nothing else",
 "Composing a token whose only line is made of compositions alone gives, in the order of its containers and of the elements of each, the number of the value of each element as many times as it occurs, and nothing else. A token of several lines, or with a container that is no composition, makes it fail.",
 ["inputs"], "every token",
 "One test composes one token; order, occurrences and mixed lines are not varied.",
 [AST], [("containers and their elements in order", "application.Compose, composeCompose")], ["the returned bytes, the error"],
 TERM, TNOTE + "A token without lines cannot be built (C14).")

RNG = "interprocedural interval and linear-inequality analysis of the type-checked IR (relational abstract interpretation)"
prop("C10", "No stored or received bytes make decoding or the database service panic",
 "Whatever bytes a database file or an adapter's argument holds (empty, truncated, of sizes or amounts that contradict each other, hostile), and whatever pointers are asked for, the decoders of the database, cryptography and hash packages and the operations of the database service return a value or an error: they never index or slice out of range, read a number from fewer bytes than it has, allocate a size taken from the data without a bound by what exists, divide by zero, or fail a type assertion.",
 ["inputs"], "every list of bytes and every pointer, on every path of every function of the database and cryptography packages",
 "Tests decode what the encoders just wrote; truncated or contradicting bytes never occur.",
 ["libs/databases", "libs/cryptography"], [("ToContents, ToCommit, ToKeys, ...", "every adapter"), ("reading by pointer", "application.Read, retrieveReference")], ["panics"],
 RNG, "Every index, slice bound, fixed-size read, allocation size, division and type assertion of the 60 functions (callees of the repository followed in place) is an obligation proved from the inequalities that hold on every path to it, loops by inferred invariants. Allocation by a commit is bounded by its configuration and left out. Nil dereference and stack depth are not covered.")
prop("C16", "No grammar, program, query or input makes an operation index out of range",
 "Whatever grammar, program, query, tree, positions, indexes and inputs they are given, the operations of the grammar, interpreter and query packages never index or slice a list out of range, divide by zero or fail a type assertion: a position beyond what there is, an empty list, a missing element or a composition without lines leads to an error or to nothing found. How far into the bytes a recursive match goes is not part of this.",
 ["inputs", "programs"], "every value of every position, index and length, on every path of every function of the three packages",
 "Tests only use positions that exist.",
 ["libs/asts", "libs/interpreters", "libs/queries"], [("positions of elements and contents", "queries application"), ("input and output positions", "interpreters application"), ("first element, last line", "grammar and tree builders, coverages")], ["panics"],
 RNG, "Every index, slice bound, division and type assertion is an obligation proved from the inequalities that hold on every path to it; fields that the constructors never leave empty are inferred. Assumes positions held by grammars, programs and queries fit an int.")
REF = "libs/databases/domain/references"
HT = "libs/cryptography/domain/hashtrees"
prop("C03", "What is committed is laid out and read back where the reference says",
 "After a successful commit the database file is made, from its first byte, of: the length of its reference (8 bytes, little-endian), its reference, all the data it held before, and the data of each pending content of the context, in the order of the writes. That reference holds the earlier commits followed by a new one, made of the hashes of the pending contents in order, whose parent is the hash of the latest earlier commit when there is one, and the content keys it held before followed by one per pending content, in order: its hash, its kind, the hash of the new commit and a pointer to its data, right after all that earlier content keys point to and the data of the pending contents before it, of the length of its data. Opening a database reads this reference and takes data to start right after it; a file without bytes opens without reference, and one whose header announces nothing or more than the file holds is refused. Reading a pointer returns as many bytes as its length, found in the file at the position of the pointer counted from the start of data, or fails, always when the length exceeds the file; reading by hash reads the pointer of the content key found by that hash; reading several returns as many, in the order asked. Commits, a commit by hash and content keys of a kind are those of the reference of the context. Each of these fails when there is no such context (a bulk read of an empty list excepted); those that need a reference also fail when the database has none.",
 ["inputs", "histories"], "every reference, every list of pending contents, every size of data, pointer and copy chunk",
 "The test commits a few small contents twice with one chunk size; the branches of the copy loops (several chunks, a short last one, nothing to copy) and what is shared by several contents are only met by chance.",
 [APP], [("header, reference, old data, new data", "application.writeDataAndReferenceOnDestinationFile"), ("new commit, content keys, offsets", "application.updateReference"), ("reading the header", "application.retrieveReference"), ("Read, ReadAll, ReadByHash, ReadAllByHashes, Commits, CommitByHash, ContentKeysByKind", "application")], ["the bytes of the database file; what reading returns; the commits and content keys listed"],
 TERM, TNOTE + "Files are modelled by the contract of os.File (ReadAt fills the buffer or fails, Write writes all or fails); copy loops are summarised by relational loop facts (offsets follow the length of what was read or written). That a copy loop ends, and io errors, are the matter of C10 and C02. Retried and failing commits belong to C01, C05 and C08.")
prop("C09", "What is stored has one fixed layout, which writing and reading share",
 "The bytes of an entity of the database are laid out in one fixed way, and reading them takes every part from where writing puts it. Numbers and lengths are 8 bytes, little-endian; hashes are their 64 bytes. A pointer is its start and length; a content key its hash, kind, pointer and commit hash; content keys their amount, then each of them; a commit its creation time in nanoseconds, its values preceded by their length, then, when it was mined, a byte 0 and its proof preceded by its length, then, when it has a parent, a byte 1 and the parent's hash; commits and contents each preceded by its length; a reference its content keys, then its commits, both preceded by their length; a content its hash, kind and data. A hash tree is its head and its parent leaf; a parent leaf its left leaf, preceded by its length, and its right leaf; a leaf its head, then its parent leaf when it has one; leaves their amount, then each preceded by its length; a compact tree its head and leaves. Fewer bytes than a part needs are refused, and so are a content key or a pointer of another size and a commit followed by anything but a parent hash.",
 ["inputs"], "every entity and every sequence of bytes given to the adapters of references, contents and hash trees",
 "Tests encode and decode one small entity each with the same code, so a change made in both ways, or one that only shows with a parent, a proof or several elements, passes.",
 [REF, "libs/databases/domain/contents", HT], [("ToContent", "adapters of references, contents, hash trees"), ("ToReference, ToCommit, ToContentKey, ToPointer, ToInstance, ToLeaf, ...", "the same adapters")], ["the bytes written; the entity read back"],
 TERM, TNOTE + "Writing and reading are each compared with the specified layout. Layout of the database file around the reference is not part of it.")
prop("C11", "The reference names commits and contents by what they hold",
 "The hash of a commit is the hash of the bytes of the head of its values, its creation time in nanoseconds in decimal, the hash of its parent if it has one and its proof if it has one, in this order; a commit with a proof was mined: its result is the hash of its hash followed by its proof and its score the number of bytes at the start of the result that equal the mining value. The latest of several commits is the last of their list. A commit or content key is found by the hash it has, the last with that hash, and asking for any other hash fails; the content keys of a kind are those of that kind, in order; the next free position is the greatest end of all content pointers. Lists of commits and of content keys keep what they are given, in order, and are never empty.",
 ["inputs"], "every combination of values, time, parent and proof; every list of commits and content keys",
 "Tests build commits with random values and only compare what they decode with what they encoded; the hash, the score and the order are not compared with anything.",
 [REF + "/commit_builder.go", REF + "/commits.go", REF + "/contentkeys.go"], [("hash, result and score", "commitBuilder.Now"), ("tables by hash", "commitsBuilder.Now, contentKeysBuilder.Now"), ("latest, by kind, next", "commits.Latest, contentKeys.ListByKind, Next")], ["the hash, result and score of a commit; what Latest, Fetch, ListByKind and Next return"],
 TERM, TNOTE)
prop("C12", "A hash tree is made of its blocks, in order, pairwise up to one head",
 "The leaves of a hash tree are the hashes of its blocks, in order, after which come as many hashes of nothing as needed for their number to be a power of two of at least two (a single block or none is first completed by empty blocks). Level by level, each two neighbours become one leaf whose head is the hash of both heads, left before right, until two are left: the head of the tree is the hash of their heads. Leaves that cannot be paired are refused. Its leaves, in order, can be listed and counted and make its compact form, which keeps its head; blocks in any order are put in the order of its leaves, those of equal hash being the same, and refused when this does not use as many as there are. A hash is the SHA-512 of the bytes, unless they are 64 bytes: these are the hash itself.",
 ["inputs"], "every list of blocks and every hash tree",
 "One test builds trees of a few blocks and asks for the amount of leaves and their order; how heads are made, and of which neighbours, is not compared with anything.",
 [HT, "libs/cryptography/domain/hash"], [("blocks to leaves", "builder.Now"), ("pairs", "leavesAdapter.ToHashTree, leafAdapter.ParentLeafToHashTree"), ("leaves in order", "leafAdapter.ParentLeafToLeaves, LeafToLeaves, Leaves.Merge"), ("hashing", "hash.Adapter")], ["the head and the leaves of a tree; the order of blocks"],
 TERM, TNOTE + "That the number of leaves is brought to a power of two is decided as the formula in the code (powers and logarithms of floats), not for numbers of blocks beyond the precision of floats.")
