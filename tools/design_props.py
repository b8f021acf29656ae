# per property: what exactly is specified and how it is decided
HOW = dict(
C01='Postconditions of `dateTimeDiffSeconds`, `dateTimeToUnixSeconds`, `dateToUnixSeconds`, `timeToSeconds`, `isLeapYear`/tables against a closed calendar oracle (days(y,m,d) in mathematical integers, checked to be a bijection by its own lemma units). Arithmetic shifts, 64-bit wrap and the month tables (read from the initialisers in the IR) are exact.',
C02='Total correctness of `unixSecondsToDateTime`/`ToDate`/`ToTime`: loop invariant (days remaining + days before the current year is constant) is inferred per run, termination measure |days remaining|, result valid and inverse to C01\'s oracle. Split into sign cases to keep z3 in linear fragments.',
C03='`dateTimeShift`, `dateShift`, `timeShift` over the contracts proved in C01/C02 (callee by contract, not body).',
C04='`Date::toInt`, `Date(uint64_t)`/`fromInt`, `operator+/-`: round trip, density, monotonicity; loop invariant of the year correction; lemma units for order. The Gregorian disagreement is the known finding.',
C05='All comparison operators, `std::hash` and field constructors of Date, Time, DateTime: biconditional postconditions against lexicographic field order, for bit-field storage as laid out; order = C01\'s timestamps on valid values.',
C06='Representation invariant of the block chain; each operation maps a cord representing rope R to one representing the specified rope, for any block size and any chain (split at an arbitrary block: induction step); loops over the chain cut by an invariant "blocks before the cursor have been emitted". Visitor and stream are contracts with a ghost trace. Memory obligations included.',
C07='Every constructor, conversion, assignment and accessor of `EitherOr<L,R>` for every combination of states, with opaque held types: state and content as specified, ghost lifetimes balanced, self-assignment and aliasing of own content included. Failing accessors must end in the CHECK.',
C08='As C07 for `StatusOr<T>`; Status behind its contract (C09).',
C09='Every generator, predicate and special member of Status: code, length field, text (rope), comparison, ownership of the buffer. The code/predicate/generator correspondence is over all codes.',
C10='Monitor proof: `down`, `wait`, `downWait`, `isReady` against a rely (counter decreases only) and guarantee (decrease by exactly one under the lock; broadcast when it reaches 0; return from wait only at 0; no access without the lock). Spurious wake-ups and every interleaving at lock granularity are covered by havoc at each acquisition.',
C11='Monitor proof of `Barrier::wait`: generation counter and count as the ghost history; the completion runs once per generation, before the release, under which all of that generation return; a waiter returns only when its generation has advanced.',
C12='Equality of all records of `graph/Response.h` is the conjunction of field equality (strings, vectors by contract), nulls as absence; clear and default construction; nested unique_ptr ownership. Biconditional, field by field, so a forgotten or doubled field fails one obligation.',
C13='`ErrorCode` numbers and `getErrorCode` text against `common.thrift`, parsed on each run as the oracle; unknown codes.',
C14='`TempFile`/`TempDir` over contracts of mkstemp/mkdtemp/close/remove with ghost file-system state: name is the template with the last six X replaced, unique, removed exactly once by the owner (or never if asked), descriptor closed once (0 included), failures leave nothing behind.',
C15='`NamedThread`, `Nominator`, `setCurrentThreadName`, `gettid` over contracts of prctl, syscall and std::thread with ghost thread names; thread-local cache per thread.',
C16='State machine of `Duration` (paused/running, accumulated ticks) and conversions of `TscHelper` with real arithmetic and an error bound; unit conversions; calibration loop invariants.',
C17='`WallClock`, `SlowOpTracker` over contracts of clock_gettime and TscHelper: unit conversions exact, threshold decision, text.',
C18='Every constructor, setter, mover, copy, assignment, `clear` and accessor of `Value` for each of its kinds x old state: type tag, content, ownership (no leak, double free, stale use), source of a move, aliasing with own content. 14 units, 24k obligations; contained types opaque.',
C19='`+ - * / %` and unary minus over the full product of kinds (by symbolic tags): result kind and value, overflow and division by zero as null kinds, null/empty propagation, text of concatenation with NULs, list concatenation; floating operations are uninterpreted IEEE functions.',
C20='`== != < > <= >=` and `std::hash<Value>` over all pairs of kinds, plus law units (reflexive, symmetric, transitive, irreflexive, trichotomy, hash respects equality) proved over the contracts of the operators.',
C21='`&& || !`, `lessThan`/`equal` family: full kind x kind table against the documented three-valued tables.',
C22='`toBool/toInt/toFloat/typeName/toString/operator<<(Type)` over all kinds: strtoll/strtod by contract (end pointer, errno, clamping), NaN and out-of-range conversions, texts as ropes.',
C23='The oracle (fields, ids, names, wire types) is parsed from `common.thrift` on every run; the driver that instantiates the codecs is generated from it. Writing and sizes: a ghost token trace compared with the schema for an arbitrary record. Reading: a ghost stream delivers at each step the stop marker or an arbitrary header; the decoder is proved from the start and from an arbitrary iteration (invariant at the one block all its cycles pass, found in the control flow graph), so any number of fields in any order is covered. Value: all 16 kinds x every first field, ownership as in C18.',
C24='As C23 over `graph.thrift`, with every subset of optional members present before decoding, and the `isset` flags of required fields inferred as part of the invariant.',
C25='Strings, Values, maps, sets and vectors are opaque: their special members are ghost lifetime contracts, their ==, <, size and hash uninterpreted functions of ghost contents. Every special member, relation, hash and lookup of each record is executed from arbitrary members; == and < are proved equal to the formula over the members, and the order laws (irreflexive, asymmetric, transitive, agreeing with equality of members) are lemmas over those formulas under the laws of the members. Hashing is run on two records of the same contents (for an edge also the reverse). The loops of hash<Vertex>, hash<Path> and the lookups over tags are C26.',
C26='A vector is a ghost sequence (length, position -> content); its elements form an address space, so the real iterator and index code runs on symbolic positions. Every loop is cut at its head: each location it changes gets a closed form in the number k of rounds (counts, walks, "each element in turn", "one more element", "of the last element", a fold, or the shape named by the unit), found by trial on the code of this run and then proved on entry and for round k -> k+1; termination is k bounded by the length. Postconditions speak about an arbitrary position. Duplicate search is against the first repeated key D of the key sequence the statement describes; hashes are folds of an arbitrary step, compared on two copies. Undischarged obligations go to random paths and tables on the real code against a reference.',
C27="Each expression object is built by its own factory (real code) over opaque sub-expressions and an arbitrary old result; eval is executed symbolically with virtual calls of sub-expressions and the context given contracts (a value is a term with a kind, a content and, for NULL, a null kind). The logical operators of Value are written out as three-valued tables, other operators are uninterpreted functions of the operand terms, so the wrong operator, the wrong order or a stale result is a failed obligation. Loops over operands / cases are cut at the head with closed forms in the number of rounds (first deciding operand, first NULL, first EMPTY, parity), proved on entry and at the back edge, so the number of operands is unbounded. A failed obligation is replayed by a search over the real expressions (all sources, ASan/UBSan) with an oracle written from the documentation.",
C28="As C27, with lists, maps, tables and vertices as ghost sequences and records of any length. Each loop (elements of a list, items of a literal, tags of a vertex) is cut at the head with closed forms in the number of rounds; a fold is specified by uninterpreted recursive functions whose step equation is the specification (reduce, any / all / single / none, the filter of a comprehension as a counting function), so wrong order, a skipped element, a wrong initial value or a stale variable fails an obligation. 2329 obligations over 14 eval functions. Undischarged obligations start a search that evaluates random expressions over random collections twice with the real classes against an independent oracle.",
C29='Each class\'s object is built by its own factory over arbitrary members, kinds and any number of opaque sub-expressions; the real writeTo runs with an encoder that is a ghost sequence of typed items, the real decode (its whole switch), factory and resetFrom run on a reader over that sequence. Every read is an obligation (before the end, and an item of this type was written there), and afterwards each member is compared with the original at an arbitrary position and the reader stands at the end. Loops get closed forms in the number of rounds, including "m more items per round". The items themselves are decided on bytes: Encoder::operator<< appends exactly the bytes of its argument behind the existing ones and Decoder::read* takes them back from where it stands. Undischarged obligations start a search that encodes and decodes random trees of all classes with the real code.',
C30='Objects as in C29. clone() must give a fresh object whose members, taken from its memory cell by cell, equal those of the original with sub-expressions replaced by their copies, at an arbitrary position of every vector. operator== must return exactly the conjunction of the equality of all members of the two objects (vectors: equal length and no first difference), both objects arbitrary, with loops closed by "all earlier pairs are equal". Which members exist is read from the object that the real constructor built, so a new member joins by itself. Undischarged obligations start a search over pairs of trees that differ in one choice.',
C31='The constructor of FunctionManager is executed symbolically, which gives the table (name, arity, purity, body). What getReturnType declares is printed by a program built from /repo on each run for every tuple of up to three types, and each body has the obligation that its value is of the declared type, or null, for arguments of those types (a declaration of __EMPTY__ says nothing; tuples of three with null or empty are left out). Each body, the real lambda, is executed on arbitrary argument values against a contract written from the documentation; loops over lists, tags and steps are closed by invariants on the number of rounds (the elements so far, the end of the last step, the first element that is not null, the number of elements of a range), so any length is covered. Integer overflow, casts of doubles, positions and empty lists are obligations. Undischarged obligations start a search that runs the real functions on random arguments against an oracle written in C++ (also the bounded stand-in for keys, split, lpad, rpad, cos_similarity, udf_is_in).',
C32='The table of aggregates comes from executing the constructor; each body is executed for one more value from an arbitrary state of the aggregate data, which makes the contract an induction step over every sequence. AggregateExpression::eval and apply are executed with an arbitrary set of values seen, DISTINCT or not, the aggregate function being a call that is recorded (once, with this data and this value). The search feeds random sequences to the real expressions and compares with the aggregate of the whole history.',
C33='Each member function is executed from an arbitrary provider: n fields with arbitrary members (a sequence), a map given by an arbitrary partial function from names to positions below n. addField is shown to extend the sequence by the field the contract describes, to leave the rest and to keep the invariant; so every history is covered. Fields are made by the real constructor and read through the real virtual accessors, the iterator through the real operators. A second executable specification (a model of the layout) is what a failing obligation is replayed against. Cost: 20 s.',
C34='sampling() is executed from an arbitrary state that satisfies the invariant (min(seen, asked) values are held), on an element type of which nothing is known. The draw is any number below its bound; the contract says over which values it is uniform and for which outcomes the value is kept, and a lemma in real arithmetic closes the induction to k/n. For the replay, all outcomes of all draws are enumerated for small numbers, which gives the exact probabilities on the real code. Cost: 5 s.',
C35='The list is a set of nodes with keys and ranks (smaller: used more recently), the map a partial function from keys to a value and a node. Both are arbitrary at the start up to the class invariant (they hold the same keys, at most the capacity), each function of LRU is executed between the contracts of the containers, and what is left is compared, for two arbitrary keys and two arbitrary nodes, with the abstract cache: who is in it, with which value, and who was used before whom; the invariant is shown again. The cache is executed against these contracts of LRU, with obligations on the lock of the bucket at every call. It found that the counters were summed without the locks (a data race, shown by ThreadSanitizer; repaired). Replay: random histories against a model, then threads. Cost: 60 s.',
C36='As C06: the representation predicate ties the real fields, the block inside the object and the chain of heap blocks to the abstract content, in four shapes (empty, one block, two, many, the last with any number of blocks); every member is executed on every shape, write against its own contract for the recursive call, the loops over blocks with the invariant that exactly the content before the block was processed. It found that a cord cleared could not be written to, and that applyTo and operator<<(ICord) lost a last block that is full (repaired). Replay: random operations against std::string. Cost: 30 s.',
C37='The loop over the entries of a map is cut at its head: any set of entries was visited, the next is any of the others, and each bit range of the memory that only the entry k writes holds what k writes there exactly if k was visited (found by executing one round per key, then proved to be preserved); every entry visited is legal. So maps of any size and order are covered, with keys that are not names as one arbitrary further entry. Text is an opaque value that std::get_time reads by contract (which parts it gives, in which range, what it leaves), the calendar is the contract of TimeConversion, isLeapYear is proved against the Gregorian rule. It found that localDateTime, localDate and localTime subtracted the offset of the time zone (repaired). A text may give the second 60 (a leap second), as get_time accepts it: accepted. Replay: random maps, texts, zones and clock readings against a calendar of its own. Cost: 40 s.',
)
HOW_FILE = 'vc/props/{}_*.py'
