TB = 'All obligations discharged for all inputs (no bound). Trusted: clang front end + SROA, the VC generator, z3; '
prop('C01', 'Date-time to timestamp conversion is calendar-exact',
     'Converting any valid date-time, date or time of day to seconds gives exactly the number of seconds since 1970-01-01T00:00:00 (midnight for a time of day) in the proleptic Gregorian calendar, and the difference of two date-times is the difference of those numbers. Leap years follow the 4/100/400 rule for every representable year, negative ones included.',
     ['inputs'], 'all valid date-times with 16-bit years (about 2*10^12 instants) and all pairs of them',
     'no test in the built suite touches the calendar; the domain (all pairs of valid date-times, negative years, century rules) cannot be sampled meaningfully',
     ['src/common/time/TimeConversion.h', 'src/common/time/TimeConversion.cpp', 'src/common/datatypes/Date.h', 'src/common/datatypes/Date.cpp'],
     [('leap-day count with arithmetic shifts', 'TimeConversion::dateTimeDiffSeconds'), ('day tables', 'kDaysSoFar/kLeapDaysSoFar in datatypes/Date.cpp'), ('epoch constant', 'TimeConversion::kEpoch')],
     TB + 'arguments are valid calendar values.')
prop('C02', 'Timestamp to date-time conversion is total and exact',
     'For every timestamp in the range of 16-bit years, converting it terminates without undefined behaviour and yields an existing calendar date and in-range time whose timestamp is the original one, with zero microseconds. The date-only and time-only conversions agree with it.',
     ['inputs'], 'all 64-bit timestamps within years -32768..32767',
     'the year is found by an iterated guess whose termination and exactness depends on every timestamp; tests sample none of it',
     ['src/common/time/TimeConversion.h', 'src/common/time/TimeConversion.cpp'],
     [('guess-and-correct year loop (invariant: days + days before the year is constant; measure: |days|)', 'TimeConversion::unixSecondsToDateTime')],
     TB + 'the instant lies in the range of 16-bit years; loop invariants are inferred per run and re-proved.')
prop('C03', 'Time-zone shifts move by exactly the offset',
     'Shifting a date-time by an offset yields the date-time exactly that many seconds later with its microseconds unchanged; shifting a date yields the date containing its midnight plus the offset; shifting a time of day wraps modulo one day and keeps its microseconds.',
     ['inputs'], 'all valid values and all offsets whose result is in the range of 16-bit years',
     'wrap-around over midnight, month, year and negative offsets is a product of domains that examples cannot cover',
     ['src/common/time/TimeConversion.h'], [('shift by way of the timestamp', 'TimeConversion::dateTimeShift/dateShift/timeShift')],
     TB + 'the contracts of dateTimeDiffSeconds and unixSecondsToDateTime, proved by C01 and C02, are used at the calls.')
prop('C04', 'Date ordinals are lossless and date arithmetic is exact',
     'Turning a date into its day number and back gives the same date, day numbers are dense and ordered like the dates, and adding or subtracting n days moves the day number by exactly n. The calendar behind the day numbers is the one used for timestamps.',
     ['inputs'], 'all dates with 16-bit years, all day numbers in range, all n',
     'the inverse corrects its year guess in a loop whose iteration count depends on the distance from year -32768; the built suite has no test of it',
     ['src/common/datatypes/Date.cpp', 'src/common/datatypes/Date.h'],
     [('year-guess correction loop and month search', 'Date::fromInt'), ('closed formula', 'Date::toInt')],
     TB + 'proved over the calendar the code uses (every 4th year is leap); its disagreement with the Gregorian calendar in century years is a known finding.')
prop('C05', 'Dates and times are totally ordered chronologically',
     'Comparison of dates, times and date-times is a total order by their most significant differing field, equality holds exactly when all fields agree, equal values hash equally, and for valid values the order is the chronological one. Building a value from fields or a date-time from a date keeps every field.',
     ['inputs'], 'all pairs of values', 'an order law quantifies over all pairs; the tests compare none',
     ['src/common/datatypes/Date.h', 'src/common/datatypes/Date.cpp'],
     [('packed bit-fields', 'DateTime'), ('field-wise comparison', 'operator< / operator== of Date, Time, DateTime'), ('hash of the fields', 'std::hash specialisations')],
     TB + 'folly fnv64_buf is assumed to be a function of its bytes and seed.')
prop('C06', 'A cord is exactly the concatenation of what was written',
     'A Cord of any block size behaves as the byte string obtained by appending, in order, everything written to it (raw bytes, numbers, strings, C strings, other cords, itself): size, empty, str, appendTo and applyTo agree with that string, applyTo stops when the visitor says so, clear empties it and the cord can be used again, sources stay unchanged, and no memory is lost, freed twice or accessed out of bounds.',
     ['inputs', 'histories'], 'all well-formed cords (any block size, any number of blocks, any content) and all writes; by induction all histories',
     'the tests write a few short sequences; the guarantee is over every split of the content into blocks (exact-fit, cross-block, empty) and every history',
     ['src/common/base/Cord.cpp', 'src/common/base/Cord.h'],
     [('block chain with the next pointer behind the content', 'Cord::write/allocateBlock'), ('chain traversal', 'Cord::appendTo/applyTo/clear/operator<<(const Cord&)')],
     TB + 'the representation invariant quantifies over chains by splitting at an arbitrary block; std::string and std::function are contracts; malloc does not fail.')
prop('C07', 'An EitherOr holds exactly one live value and never the wrong one',
     'An EitherOr (and the ErrorOr built on it) is empty, left or right; after every construction, copy, move, conversion and assignment (from values, from other objects, from itself, from the value it holds) it is in the state and holds the value just given, a copied source is unchanged, a moved-from source is empty, every held value is constructed once and destroyed once, no destroyed value is read, and access to the wrong side aborts instead of returning garbage. ok, error, hasValue and value of an ErrorOr agree with that state.',
     ['inputs', 'histories'], 'all held types that are proper class types, all states and values; by induction all histories',
     'the tests construct a handful of objects over two types; lifetime errors (double destruction, use after destruction, leaks) show only for particular states and types',
     ['src/common/base/EitherOr.h', 'src/common/base/ErrorOr.h'],
     [('tagged union with placement construction', 'EitherOr constructors and operator='), ('state tag', 'EitherOr::state_'), ('checked access', 'EitherOr::left/right')],
     TB + 'held types are opaque with ghost-lifetime contracts; the finitely many shapes of state are enumerated, values are symbolic.')
prop('C08', 'A StatusOr holds exactly one live status or value',
     'A StatusOr is empty, holds a status or holds a value; after every construction, copy, move, conversion and assignment (also from itself and from its own content) it holds what was given, moved-from sources are empty, copied sources unchanged, everything held is constructed once and destroyed once and never read after destruction. ok() is true exactly when it holds a value; asking for the status of one that holds none aborts.',
     ['inputs', 'histories'], 'all value types that are proper class types, all states and values; by induction all histories',
     'the built suite has no test of it, and lifetime errors depend on the combination of old and new state',
     ['src/common/base/StatusOr.h', 'src/common/base/Status.h'],
     [('tagged union with placement construction', 'StatusOr constructors and operator='), ('state tag', 'StatusOr::state_')],
     TB + 'the special members of Status are used through their contract, proved by C09; the value type is opaque.')
prop('C09', 'A Status keeps its code and message',
     'A Status is OK or carries the code and message it was created with: every generator gives its own distinct code, is<Name>() is true for exactly that code, code, message and toString report exactly what was given (messages are cut at 65535 bytes), copies are independent, a moved-from status is OK, comparison compares codes, and no buffer is lost or freed twice.',
     ['inputs', 'histories'], 'all codes and messages; by induction all histories of copies, moves and assignments',
     'messages of every length and content, in every sequence of copies and moves, cannot be sampled',
     ['src/common/base/Status.h', 'src/common/base/Status.cpp'],
     [('header + message buffer', 'Status::Status(Code, StringPiece), Status::copyState'), ('generators', 'STATUS_GENERATOR')],
     TB + 'printf-style construction is outside (vsnprintf); std::string is a contract.')
prop('C10', 'A Latch releases its waiters exactly when the count reaches zero',
     'A Latch created with n>0 (zero is refused with invalid_argument) counts down by one per down()/downWait() and never below zero: a further decrement throws runtime_error and changes nothing. wait() and downWait() return only once the count is zero; every waiter blocked is woken when it becomes zero, no wake-up is lost and a spurious one is harmless; isReady() is true exactly when the count is zero. Every access happens under the lock, which is free again after every call and every exception, so work done before down() is visible after wait(). For every number of threads and every schedule.',
     ['inputs', 'schedules'], 'all counts, all numbers of threads, all schedules and spurious wake-ups',
     'the guarantee is over all interleavings; the built suite does not run the latch at all and a test would see a few schedules',
     ['src/common/concurrent/Latch.cpp', 'src/common/concurrent/Latch.h'],
     [('counter under a mutex', 'Latch::down/downWait/isReady'), ('condition variable with predicate', 'Latch::wait/downWait'), ('broadcast on zero', 'cond_.notify_all')],
     TB + 'rely/guarantee over critical sections; the mutex and condition variable of the C++ library are contracts.')
prop('C11', 'A Barrier lets a full generation of threads through together',
     'A Barrier created with n>0 (zero is refused with invalid_argument) releases threads in generations of exactly n: wait() returns only after n threads of its generation have arrived; the last one runs the completion exactly once, before anybody is released, then every blocked thread is woken; the barrier is then ready for the next generation, whose arrivals neither block nor release threads of an earlier one. Spurious wake-ups are harmless and all state is accessed under the lock, which is free again afterwards. For every number of threads, generations and every schedule.',
     ['inputs', 'schedules', 'histories'], 'all counts, generations, schedules and spurious wake-ups',
     'reuse across generations goes wrong only in particular interleavings of late leavers and early arrivals',
     ['src/common/concurrent/Barrier.cpp', 'src/common/concurrent/Barrier.h'],
     [('arrival count and generation under a mutex', 'Barrier::wait'), ('generation captured before blocking', 'Barrier::wait predicate'), ('completion before notify_all', 'Barrier::wait')],
     TB + 'rely/guarantee over critical sections; the mutex and condition variable of the C++ library are contracts; the completion returns and does not use the barrier.')
prop('C12', 'Query responses compare and reset by all of their fields',
     'Two AuthResponse, ProfilingStats, PlanNodeBranchInfo, Pair, PlanNodeDescription, PlanDescription or ExecutionResponse records compare equal exactly when every field agrees, an optional field (errorMsg, spaceName, planDesc, timeZoneName, ...) agreeing when it is absent in both, or present in both with equal content; absent never equals present and comparison never reads through an absent field. clear()/__clear() leaves the record as newly made: every field at its default, every optional field absent, what they held released exactly once.',
     ['inputs'], 'all values and presence patterns of all fields of both records',
     'each record has up to seven fields with 4 presence patterns; a forgotten or cross-wired field shows only for a pair differing in exactly that field',
     ['src/common/graph/Response.h', 'src/common/graph/Response.cpp'],
     [('field-wise comparison', 'operator== in AuthResponse, ExecutionResponse, PlanDescription, ...'), ('presence of optional fields', 'checkPointer'), ('reset', 'clear/__clear')],
     TB + 'equality of strings, containers and DataSet is a reflexive symmetric relation on contents.')
prop('C13', 'Error codes agree with the wire protocol and print their own names',
     'Every ErrorCode of the client-side graph/Response.h has exactly the name and number of the ErrorCode in interface/common.thrift, no code is missing or extra, no two share a number, and errorCode(c) (as used by operator<<) returns the name of c for every code and "Unknown error" for every other 32-bit value.',
     ['inputs'], 'all 2^32 values of the code; all codes of the wire definition',
     'a transposed or missing number compiles and is only noticed by the peer that receives the code',
     ['src/common/graph/Response.h', 'src/common/graph/Response.cpp', 'src/common/interface/common.thrift'],
     [('X-macro table of codes', 'ErrorCodeEnums in graph/Response.h'), ('names', 'getErrorCode / errorCode')],
     TB + 'common.thrift of the same tree is the oracle.')
prop('C14', 'Temporary files and directories are private, named and cleaned up once',
     'A TempFile/TempDir created from a template either exists under the unique name mkstemp/mkdtemp chose (which path() reports, the template text of the caller unchanged) or fails as documented with nothing left behind; no file descriptor or memory leaks; the destructor removes exactly the created file or directory, exactly once, when and only when autoDelete was asked for, and never anything else.',
     ['inputs', 'histories'], 'all templates (any length and content), both autoDelete settings, success and failure of the system call',
     'tests create a few files that succeed; failure of the system call, the descriptor balance and non-deletion are not observed',
     ['src/common/fs/TempFile.cpp', 'src/common/fs/TempFile.h', 'src/common/fs/TempDir.cpp', 'src/common/fs/TempDir.h'],
     [('copy of the template', 'TempFile::TempFile / TempDir::TempDir'), ('removal in the destructor', 'TempFile::~TempFile / TempDir::~TempDir')],
     TB + 'system calls are contracts with a ghost file system; FileUtils::remove is a contract.')
prop('C15', 'A named thread runs its work once under its own name',
     'NamedThread(name, f, args...) runs f exactly once, with exactly the given arguments (copied or moved into the thread before the constructor returns), in the new thread and not in the caller, after the thread has taken the given name (an empty name leaves the inherited one); the name of the creating thread is not changed. A Nominator sets the name of the calling thread and restores the previous one when it goes out of scope, and its get/set read and write exactly the name. thread::gettid() returns the id of the calling thread, in every thread.',
     ['inputs', 'schedules'], 'all names, functions and arguments; any interleaving of creator and new thread',
     'the tests start a few threads with literal names; lifetime of arguments and the naming order depend on the schedule',
     ['src/common/thread/NamedThread.h', 'src/common/thread/NamedThread.cpp'],
     [('bound call with a name', 'NamedThread::NamedThread, NamedThread::hook'), ('scope guard of the name', 'NamedThread::Nominator'), ('cached thread id', 'gettid')],
     TB + 'prctl, gettid and thread creation are contracts; the std::thread and std::bind machinery of libstdc++ is executed, not assumed.')
prop('C16', 'A stopwatch reports exactly its running time, in every unit',
     'A Duration reports the time it has been running since it was made or last reset, excluding every span between pause() and the next resume(): pausing twice or resuming twice changes nothing, a paused stopwatch stands still, reset(paused) starts from zero in the requested state, isPaused() tells the state, and reading changes nothing. elapsedInSec and elapsedInMSec give the elapsed ticks over the calibrated ticks per unit rounded to the nearest, elapsedInUSec rounded down; calibration takes the ticks per microsecond measured since the start, and a tick converted to a time point is the start time plus the time since then. For every sequence of operations.',
     ['inputs', 'histories'], 'all states, tick values and (by induction) all operation sequences; all ticks below 2^62 and calibrations from 1 MHz to 10 THz for the conversions',
     'real-time tests must tolerate noise larger than the errors in question, and cannot cover sequences of pause, resume and reset',
     ['src/common/time/Duration.cpp', 'src/common/time/Duration.h', 'src/common/time/detail/TscHelper.cpp', 'src/common/time/detail/TscHelper.h'],
     [('accumulated ticks and start tick', 'Duration::pause/resume/reset'), ('unit factors', 'TscHelper::calibrate'), ('conversion', 'TscHelper::ticksToDurationIn*, tickToTimePointIn*')],
     TB + 'the counter is monotone; floating point by the standard model (relative error 2^-53 per operation).')
prop('C17', 'Clock readings are in their unit and slow operations are judged right',
     'WallClock::slowNowInSec/MilliSec/MicroSec give the real time since 1970 in exactly that unit, rounded down; the fast versions give the time point of the tick read during the call in that unit. A SlowOpTracker measures milliseconds from its construction, never negative even if the clock is set back, and slow(t) is true exactly when that exceeds t if t>0 and the configured threshold otherwise.',
     ['inputs'], 'all clock readings, thresholds and start times',
     'a unit or rounding slip shows only at particular readings of the clock; clock steps cannot be produced by a test',
     ['src/common/time/WallClock.cpp', 'src/common/time/WallClock.h', 'src/common/base/SlowOpTracker.h'],
     [('unit conversion', 'WallClock::slowNowIn*/fastNowIn*'), ('verdict', 'SlowOpTracker::slow')],
     TB + 'clock_gettime is a contract; TscHelper by its contract proved in C16.')
prop('C18', 'A Value holds exactly what was put in, and copies are independent',
     'A value made from or set to any content of any of its 15 kinds (empty, null, bool, integer, float, string, date, time, date-time, vertex, edge, path, list, map, set, data set) reports exactly that kind and returns exactly that content, whatever it held before; narrower integers are widened. Copying gives an independent equal value and leaves the source unchanged; moving or taking content out transfers it and leaves the source empty; assignment from itself or from a part of its own content keeps the assigned content. Every content is destroyed exactly once and never used afterwards.',
     ['inputs', 'histories'], 'all ordered pairs of kinds for every setter, assignment and swap, with all contents; by the class invariant, all histories',
     'a leak, double free or wrong kind shows only for one of the 16x16 transitions and one of four ways of setting; the datatype tests are not built here and sample a few',
     ['src/common/datatypes/Value.h', 'src/common/datatypes/Value.cpp'],
     [('tagged union of contents', 'Value::setX/__clear/operator='), ('boxed contents', 'unique_ptr members of Value::Storage'), ('reads and mutable access', 'Value::getX/mutableX/moveX')],
     TB + 'copying, moving and destroying the contained string and graph types are contracts with ghost lifetimes; LOG(FATAL) ends the program; swap is std::swap.')
prop('C19', 'Value arithmetic is exact, or says why it has no result',
     'Adding, subtracting, multiplying, dividing, negating, taking the remainder and the bitwise operations on two values give: the left null if the left is null, else the right null, else empty if one is empty, else the exact integer for integers (an overflow null when it does not fit, a division-by-zero null for a zero divisor), the IEEE result when one is a float, list append or concatenation and string concatenation of the textual forms for addition, date plus or minus days, days between dates, and a bad-type null for every other pair of kinds. No operands cause undefined behaviour or termination, and operands are not changed.',
     ['inputs'], 'all pairs of kinds and all values of both operands',
     'overflow shows only at particular pairs of 64-bit integers; 16x16 kinds times eight operators are sampled by a few unbuilt tests',
     ['src/common/datatypes/Value.cpp'],
     [('overflow tests', 'operator+ - * / % on INT'), ('null propagation', 'checkNumericNull-style branches of each operator'), ('textual forms in concatenation', 'operator+ with STRING')],
     TB + 'date arithmetic by contract (C04); float operations are those of the hardware and libm; textual forms of numbers and dates are functions of the value; vector<Value> is a sequence.')
prop('C20', 'Values compare consistently: equality, order and hash agree',
     'Two values are equal exactly when they are of one kind with equal content, or are numbers of equal numeric value (floats that differ by less than 1e-8 count as equal); any two empty values are equal, as are any two nulls. Less-than orders values of different kinds by kind (except integer against float, by numeric value), and values of one kind by content; it never holds both ways nor of a value and itself, it is transitive (NaN aside), and the other four comparisons are derived from these two. Exactly equal values of one kind have equal hashes.',
     ['inputs'], 'all pairs (for the laws: triples) of kinds and of values',
     'transitivity and hash consistency are statements over all triples and all equal pairs, the float and integer corner cases are isolated points',
     ['src/common/datatypes/Value.cpp', 'src/common/datatypes/Value.h'],
     [('comparison by kind', 'operator< / operator== on Value'), ('hash', 'std::hash<nebula::Value>')],
     TB + 'order, equality and hash of the contained types are lawful (C05 for dates and times); hashing maps, sets and data sets is documented as not implemented and excluded.')
prop('C21', 'Three-valued logic and null-aware comparison follow the documented tables',
     'Conjunction, disjunction and negation of values give the boolean result on booleans; otherwise the left null if the left operand is null, else the right null, else empty if one is empty, else a bad-type null. The null-aware equality is null when either side is null and otherwise the plain equality as a boolean; the null-aware less-than is null when either side is null or the kinds cannot be compared, empty when either side is empty, and otherwise the comparison as a boolean. The predefined null constants hold exactly their own kind of null.',
     ['inputs'], 'all pairs of kinds and all values',
     'the tables have 256 entries per operator, each over all values; the unbuilt tests sample a few',
     ['src/common/datatypes/Value.cpp', 'src/common/datatypes/Value.h'],
     [('logic operators', 'operator&& / operator|| / operator!'), ('null-aware comparison', 'Value::lessThan / Value::equal'), ('constants', 'Value::kNullValue, kNullNaN, ...')],
     TB + 'order and equality of the contained types are contracts.')
prop('C22', 'Value conversions give the exact result or the documented null',
     'Converting a value to a boolean, an integer or a float gives: null for null and empty; the value itself for its own kind; for text exactly the boolean it spells in any letter case, the number C reads from the whole text (decimal text cut towards zero), null when the text is not such a number, and overflow when an integer is out of range; for a float the integer cut towards zero, the nearest end of the integer range beyond it and the NaN null for NaN; bad type for every other kind. The type names, and the text of every null, number, boolean and string, are those of the value.',
     ['inputs'], 'all kinds, all texts, all numbers',
     'out-of-range numbers, NaN, trailing characters and letter case multiply; the unbuilt tests sample a few texts',
     ['src/common/datatypes/Value.cpp', 'src/common/datatypes/Value.h'],
     [('conversion', 'Value::toBool / toInt / toFloat'), ('names', 'Value::typeName, operator<<(std::ostream&, Value::Type)'), ('text', 'Value::toString')],
     TB + 'strtoll, strtod, tolower and folly::to are contracts (C library); text of the contained types is a function of their content.')
prop('C23', 'Wire codecs of values and graph records agree with the interface definition',
     'Encoding a Value, Date, Time, DateTime, Vertex, Tag, Edge, Step, Path, List, Map, Set, DataSet, HostAddr or KeyValue writes exactly the fields that interface/common.thrift declares, each once under its declared name, id and wire type and with the content of the member (an edge or step type is written as its sign), then the stop marker; for a Value the one field of its kind, none when empty. Both serialized sizes add up the parts of the same fields. Decoding accepts the fields in any order, by id or by name, puts each value into its own member, skips every unknown field and every field of another wire type with its own type, leaves all other members as they were and ends exactly at the end of the struct; a Value with a second field is rejected, one without a field is empty.',
     ['inputs'], 'all records, all messages: any fields in any order and number, any unknown ids and types',
     'the messages are unbounded sequences of fields; the order, unknown fields and names mode are paths that a round trip test of the same build never takes',
     ['src/common/datatypes/ValueOps.inl', 'src/common/datatypes/DateOps.inl', 'src/common/datatypes/EdgeOps.inl', 'src/common/datatypes/PathOps.inl', 'src/common/interface/common.thrift'],
     [('hand-written codecs', 'apache::thrift::Cpp2Ops<nebula::...>::write / read / serializedSize / serializedSizeZC'), ('field names', 'TccStructTraits<nebula::...>::translateFieldName'), ('interface', 'src/common/interface/common.thrift')],
     TB + 'the protocol and the codecs fbthrift generates for strings, numbers and containers are contracts over a ghost token sequence; the fbthrift names come from a stand-in header (fbthrift is not installed), the codecs themselves are compiled unmodified.')
prop('C24', 'Wire codecs of query responses agree with the interface definition',
     'Encoding an ExecutionResponse, AuthResponse, PlanDescription, PlanNodeDescription, PlanNodeBranchInfo, ProfilingStats or Pair writes exactly the fields of interface/graph.thrift: every required field and every optional field that is present, each once under its declared name, id and wire type with the content of the member, then the stop marker; the serialized sizes cover the same fields. Decoding accepts the fields in any order, by id or by name, creates each optional member that comes and puts each value into its own member, skips unknown fields and fields of another wire type, leaves the members that do not come, and reports a required field as missing exactly when it did not come.',
     ['inputs'], 'all records with any set of optional members, all messages: any fields in any order and number',
     'presence of up to five optional members times any sequence of known and unknown fields; the responses have no decoding tests here',
     ['src/common/graph/ExecutionResponseOps.inl', 'src/common/graph/AuthResponseOps.inl', 'src/common/graph/PlanNodeDescriptionOps.inl', 'src/common/graph/PlanDescriptionOps.inl', 'src/common/interface/graph.thrift'],
     [('hand-written codecs', 'apache::thrift::Cpp2Ops<nebula::...Response/Plan...>::write / read / serializedSize / serializedSizeZC'), ('field names', 'TccStructTraits<nebula::...>::translateFieldName'), ('interface', 'src/common/interface/graph.thrift')],
     TB + 'the protocol, the generated codecs of strings, numbers and containers and the codec of DataSet (C23) are contracts; the fbthrift names come from a stand-in header.')
prop('C25', 'Graph records keep, compare, order and hash exactly their members',
     'Tag, Vertex, Edge, Step, Path, List, Map, Set, DataSet, HostAddr and KeyValue: default construction and clear() give the empty record (numbers 0); construction, copy, move, assignment and swap carry every member and nothing else, also onto itself. == holds exactly for equal members; an edge also equals its reverse with the opposite non-zero type, and an edge name does not count. < compares the members in the declared order and is a strict order that agrees with equality of members. Equal contents hash alike, an edge like its reverse. reverse() and format() turn an edge round; contains and value look a name up in the properties of an edge, the entries of a map, and an element up in a list or set, with the fixed null for an absent name.',
     ['inputs'], 'all contents of the members, all pairs and triples of records',
     'a member left out of a copy, a comparison or a hash shows only for records that differ in nothing else; the datatype tests are not part of the build',
     ['src/common/datatypes/Edge.cpp', 'src/common/datatypes/Edge.h', 'src/common/datatypes/Path.h', 'src/common/datatypes/Vertex.cpp', 'src/common/datatypes/Vertex.h', 'src/common/datatypes/HostAddr.cpp', 'src/common/datatypes/DataSet.h', 'src/common/datatypes/KeyValue.h'],
     [('life', 'constructors, assignment, clear, swap of the records'), ('relations', 'operator==, operator!=, operator<'), ('hashing', 'std::hash<nebula::Tag / Edge / Step / HostAddr>'), ('lookup', 'contains, value, at, size')],
     TB + 'strings, Values, maps, sets and vectors are contracts over uninterpreted contents whose own equality and order are assumed lawful.')
prop('C26', 'Paths, tables and hashed sequences do what they say at any length',
     'Path::reverse turns a path around: it begins where it ended, the steps come in reverse order, each with its own edge (name, ranking, properties) and opposite type, ending where the path began; addStep appends; append joins exactly a path that begins at the vertex (id and tags) where this one ends, and otherwise returns false and changes nothing. hasDuplicateVertices is true exactly when two vertices of the path have the same id, hasDuplicateEdges exactly when two steps are the same edge (end points, type and ranking), whichever way each is walked. DataSet::append takes exactly data with the same column names (or any, when it has none) and adds its rows behind its own; merge takes exactly data with as many rows and puts the other columns and values behind its own, row by row; emplace_back takes exactly rows as wide as the header; a refused call changes nothing; colValues gives the column of the first column of that name, in row order. Vertex::contains and value find the property of the first tag that has it, and nothing otherwise. Equal contents hash equally, for vertices, lists and paths of any length.',
     ['inputs', 'histories'], 'paths, tables and sequences of any length (including none), all contents',
     'off-by-one errors show only at particular lengths, aliasing and mixed directions; the datatype tests are not part of the build',
     ['src/common/datatypes/Path.cpp', 'src/common/datatypes/Path.h', 'src/common/datatypes/DataSet.h', 'src/common/datatypes/Vertex.cpp', 'src/common/datatypes/List.h'],
     [('paths', 'Path::reverse, append, addStep, hasDuplicateVertices, hasDuplicateEdges'), ('data sets', 'DataSet::append, merge, emplace_back, colValues, rowValues'), ('lookup', 'Vertex::contains, Vertex::value'), ('hashing', 'std::hash<nebula::Vertex / List / Path>')],
     TB + 'vectors are sequences (a length and a function from positions to contents); std::reverse, std::find, insert and the hash sets are contracts over them; strings, Values and maps opaque. Assumed: no step type is INT32_MIN; rows at least as wide as the header when a column is read.')
prop('C27', 'Scalar expressions evaluate as the operators and references they name',
     'Evaluating an expression gives the documented result for every value of its operands, whatever it gave before, and changes nothing of the context (except ++ and --, which set exactly their variable): arithmetic and unary expressions give what the Value operators give on the operands in order; comparisons give equal / lessThan and their negations and combinations with the three-valued rules; IN / NOT IN look in the list, set or map and give NULL when either side is NULL or when only a NULL could match; CONTAINS, STARTS WITH, ENDS WITH and =~ (and NOT) test the strings, NULL beside a string or NULL gives NULL, anything else BAD TYPE. AND, OR and XOR over any number of operands stop at the first deciding operand (bad null or false / bad null or true / any null; a non-logical operand gives BAD TYPE) and otherwise give NULL if one was NULL, else EMPTY if one was EMPTY, else the truth value. CASE takes the first case that applies, else the default, else NULL. A cast converts to the type named. Constants, variables (latest or given version), properties (of edges, tags, source, destination, input, variables), the built-in edge properties, vertices, edges and columns give what the context gives under exactly those names.',
     ['inputs', 'histories'], 'any operand values, any number of operands / cases, any earlier result of the same expression object',
     'the result depends on combinations of kinds, on the position of a null or empty operand and on what the expression object gave before; the expression tests are not part of the build',
     ['src/common/expression/' + x for x in ('ArithmeticExpression.cpp', 'UnaryExpression.cpp', 'RelationalExpression.cpp', 'LogicalExpression.cpp', 'CaseExpression.cpp', 'TypeCastingExpression.cpp', 'VariableExpression.cpp', 'PropertyExpression.cpp', 'ConstantExpression.h', 'VertexExpression.cpp', 'EdgeExpression.cpp', 'ColumnExpression.cpp')],
     [('operators', 'ArithmeticExpression / UnaryExpression / RelationalExpression ::eval'), ('logic', 'LogicalExpression::evalAnd, evalOr, evalXor'), ('choice', 'CaseExpression::eval'), ('references', 'TypeCasting / Variable / VersionedVariable / Property / Constant / Vertex / Edge / Column ::eval')],
     TB + 'Assumed: a sub-expression gives a value that depends on itself and the context only; the operators of Value are functions of their operands (they are decided by C18-C22); std::regex and the regex cache of the context by contract.')
prop('C28', 'Collection expressions look up, slice, build and fold at any length',
     'For lists, sets, maps, tables, vertices and edges of any length and contents, and whatever the same expression object gave before: l[i] is the element counted from the front, or from the back when i is negative, and out of range otherwise (a table row only from the front); m[k], v.k and e.k give the entry, the vertex id / src / dst / rank / type name for the reserved keys, the property of the first tag that has it, and NULL (for an attribute: unknown property) when absent; an attribute of a date or time is its field; other kinds give BAD TYPE; l[a..b] holds exactly the elements from a up to but without b, negative bounds counted from the back, bounds outside clipped, an absent bound meaning the end of the list, and NULL when a bound is NULL; list, set and map literals hold the values of their items in order (sets without repeats, maps with one entry per key); [x IN l WHERE f | m] gives, for the elements where f is true, in order, the mapped values, the variable holding each element; any / all / single / none and exists give the quantifier over the list; reduce folds from the initial value; a function call evaluates its arguments in order and calls the function once with them. Edge keys are non-empty strings, attribute keys strings.',
     ['inputs', 'histories'], 'collections of any length and contents, all bounds and keys, any earlier result of the same expression object',
     'off-by-one errors show at particular lengths and bounds, stale results only on the second evaluation, and folds only with particular orders; the expression tests are not part of the build',
     ['src/common/expression/' + x for x in ('SubscriptExpression.cpp', 'AttributeExpression.cpp', 'ContainerExpression.cpp', 'ListComprehensionExpression.cpp', 'PredicateExpression.cpp', 'ReduceExpression.cpp', 'FunctionCallExpression.cpp')],
     [('lookup', 'SubscriptExpression / AttributeExpression / SubscriptRangeExpression ::eval'), ('literals', 'ListExpression / SetExpression / MapExpression ::eval'), ('folds', 'ListComprehension / Predicate / Reduce / FunctionCall ::eval')],
     TB + 'Assumed: a sub-expression gives a value that depends on itself and the context only; the called function, TimeUtils::get*Attr, hash sets and maps by contract; path building is not covered.')
prop('C29', 'An expression survives encoding and decoding',
     'Expression::decode(pool, e.encode()) gives a new expression of the same class and kind with the same members: names, values, flags (DISTINCT, generic CASE), optional parts present or absent as they were, the original strings, and any number of operands, items, cases or arguments in the same order, each sub-expression being what comes back from its own wire form; all bytes are consumed, nothing is read beyond what was written or as another kind of item, and the original is unchanged. An empty string decodes to no expression. Items (kind, size, value type, string, Value, sub-expression) are written behind what was written before and read back where the reader stands, any length. Excluded: classes whose encoding is documented as unsupported (label attribute, versioned variable, input / variable property, text search); a UUID needs a non-empty field and only inner variables are encoded.',
     ['inputs', 'histories'], 'all members, every kind, any number of operands and items, every combination of optional parts',
     'an asymmetry between writing and reading shows only for particular kinds, optional parts or counts; the expression codec tests are not part of the build',
     ['src/common/expression/' + x for x in ('Expression.cpp', 'Expression.h', 'CaseExpression.cpp', 'PredicateExpression.cpp', 'ListComprehensionExpression.cpp', 'ReduceExpression.cpp', 'ContainerExpression.cpp', 'FunctionCallExpression.cpp', 'ColumnExpression.cpp', 'SubscriptExpression.cpp', 'AggregateExpression.cpp')],
     [('members', 'the writeTo and resetFrom of every class'), ('kinds', 'Expression::decode'), ('items', 'Expression::Encoder::operator<<, Expression::Decoder::read*')],
     TB + 'Assumed: CompactSerializer reads back the Value it wrote, of the length it wrote (C23 decides the wire form of values); functions are found by name; strings and vectors by contract.')
prop('C30', 'A copy of an expression has its members, and == compares all of them',
     'For every expression class: clone() gives a new object of the same class and kind with equal members (including the original string, DISTINCT, default and optional parts), whose sub-expressions are copies of the originals in the same order, any number of them; the original is unchanged. a == b is true exactly when the kinds and all members agree: names, values, flags, the presence and equality of optional parts, the number of operands and each pair of operands in order; it changes neither side. The original string, the inner flag of a variable, cached results and resolved functions do not take part in ==. Where a class needs a sub-expression (both sides of an operator, the collection, the argument of an aggregate), it is present.',
     ['inputs', 'histories'], 'all members, every kind, any number of operands, every combination of optional parts',
     'a member left out shows only for expressions that differ in nothing else, a last operand only at particular counts; the expression tests are not part of the build',
     ['src/common/expression/' + x for x in ('Expression.h', 'ConstantExpression.cpp', 'CaseExpression.cpp', 'PredicateExpression.cpp', 'ListComprehensionExpression.cpp', 'ReduceExpression.cpp', 'ContainerExpression.cpp', 'FunctionCallExpression.cpp', 'TextSearchExpression.cpp', 'VariableExpression.cpp', 'AggregateExpression.cpp', 'LogicalExpression.cpp')],
     [('copies', 'the clone of every class'), ('equality', 'the operator== of every class')],
     TB + 'Assumed: clone() and == of a sub-expression are functions of it (the claim for each class, used one level down); Value and string equality are lawful (C20, std).')
prop('C31', 'Built-in functions give the documented value or null for every argument',
     'For each built-in function, looked up by name and number of arguments, and every argument value: the mathematical, string, list, path, graph, date and conversion functions give the documented value when the arguments are of a kind they take; null gives null, other kinds a null of bad type, values out of range a null of bad data or of overflow. abs, pow and range do not overflow, substr/left/right take exactly the characters asked for, head/last/tail/coalesce pick the documented element, range gives start, start+step, ... up to the end included, relationships and nodes follow the path in order, src/dst respect the direction of the edge, properties keeps the first value of a name, rand32/rand64 stay within their bounds. Arguments are not changed. The table has exactly the documented names, aliases, argument counts and purity. For argument types for which getReturnType declares a type, the value is of that type, or null.',
     ['inputs'], 'every argument value, lists, paths and strings of every length',
     'limits of int64, empty lists and paths, nulls of each type and the mixtures of kinds are far more than the expression tests sample, and those tests are not part of the build',
     ['src/common/function/FunctionManager.cpp', 'src/common/function/FunctionManager.h', 'src/common/time/TimeUtils.h'],
     [('functions', 'the body of each built-in function'), ('table', 'the registration: names, aliases, arity, purity'), ('declared types', 'FunctionManager::getReturnType and typeSignature_')],
     TB + 'Assumed: what the mathematical library, strcasecmp, folly trim/toLower, boost replace, hashing, time parsing and Value arithmetic give are functions of their arguments (the arithmetic is C19, conversion C22); doubles are opaque. Left to a bounded concrete search, not proved: keys, split, lpad, rpad, cos_similarity, udf_is_in.')
prop('C32', 'Aggregates give the documented result for every sequence of values',
     'For every aggregate function, state and next value: nulls and empty values are skipped; COUNT counts, SUM adds from 0, AVG divides the sum by the count of numbers, MAX/MIN keep the largest/smallest, STD follows the running mean and variance, BIT_* fold integers, COLLECT appends, COLLECT_SET adds; a value of a wrong kind makes the result a null of bad type, and a bad null stays. Nothing else in the aggregate data changes. AggregateExpression::eval gives each value of its argument to the function of its name exactly once, with DISTINCT only values not seen before, and answers with the result kept; apply gives the value it is handed.',
     ['inputs', 'histories'], 'every state of the aggregate data and every next value, so every sequence of values',
     'wrong folds show only after particular sequences (null first, a bad kind in the middle, a duplicate under DISTINCT)',
     ['src/common/function/AggFunctionManager.cpp', 'src/common/function/AggFunctionManager.h', 'src/common/expression/AggregateExpression.cpp', 'src/common/expression/AggregateExpression.h'],
     [('functions', 'the body of each aggregate function, one step'), ('expression', 'AggregateExpression::eval and apply')],
     TB + 'Assumed: Value arithmetic, order and the set of distinct values behave as their contracts say (C18-C20); doubles are opaque, so the rounding of AVG and STD is not judged. The lookup of the function by name answers the function registered under the upper-case name.')

prop('C33', 'A schema lays its fields out one after the other and finds them by name',
     'From any schema provider, addField appends one field whose offset is the end of the field before it (0 for the first), whose size is that of its type (BOOL and INT8 1, INT16 2, INT32, FLOAT and DATE 4, TIME 7, DATETIME 11, the other kinds 8 bytes, a fixed string its length, which must be positive), whose null flag, if nullable, is the number of nullable fields before it, and with the name, type and default given. Earlier fields do not move; a name added twice keeps its first position. size() is the end of the last field; lookups by position or name give the field or, when there is none, nothing, -1 or UNKNOWN; an unknown type ends the program. The iterator shows the fields in order and equals end() past the last. getTTLInfo gives column and duration exactly when the column is named and the duration is positive.',
     ['inputs', 'histories'], 'every history of addField with every type and length, every position and name looked up',
     'a shifted offset or null flag corrupts rows only for particular orders of types and nullable fields; no test of the built suite touches the class',
     ['src/common/meta/NebulaSchemaProvider.cpp', 'src/common/meta/NebulaSchemaProvider.h', 'src/common/meta/SchemaProviderIf.h', 'src/common/interface/meta.thrift'],
     [('layout', 'NebulaSchemaProvider::addField, fieldSize, size'), ('lookups', 'NebulaSchemaProvider::getFieldIndex, getFieldName, getFieldType, field'), ('iterator', 'SchemaProviderIf::Iterator')],
     TB + 'Assumed: vectors and hash maps by contract; sizes and offsets below 2^60. The code generated from meta.thrift is not available: PropertyType is read from meta.thrift on each run, and SchemaProp is a plain structure with the optional fields listed there.')
prop('C34', 'Reservoir sampling keeps every value seen with the same probability',
     'A ReservoirSampling asked for k values holds, after n values were given to it, min(k, n) of them; a value is kept while the sample is not full; afterwards there is one draw over all values seen, the new one included, and the new value replaces the one at the position drawn exactly when the draw falls below k. So each of the n values is in the sample with probability k/n. sampling() answers whether the value was kept, nothing else in the sample changes, and samples() gives the sample.',
     ['inputs', 'histories'], 'every number asked for and every number of values, any type of value, every outcome of the draws',
     'a biased draw gives samples that look right one by one; the test only checks that values come from the input',
     ['src/common/algorithm/ReservoirSampling.h'], [('one step of the reservoir', 'ReservoirSampling::sampling')],
     TB + 'Assumed: folly::Random::rand64(bound) is uniform below its bound; std::vector and the special members of the element type by contract.')
prop('C35', 'The LRU cache evicts the entry used longest ago and operations are atomic',
     'From any state of LRU<K, V>: insert makes the key present with the value and most recently used, evicting exactly the entry used longest ago when the cache is full and the key is new; get gives the value of a key that is present and makes it most recently used, or nothing; contains and the readers change nothing; evict removes the key, clear everything; the counters count requests, hits and evictions; at most capacity entries are held. ConcurrentLRUCache sends a key to the bucket of its hint or hash, shares the capacity out so that the buckets add up to it and each holds at least one entry, does each operation as one call on that bucket under its lock (putIfAbsent keeps the lock from look-up to insertion, gives the value found or Inserted), sums the counters over the buckets, each read under its lock, and leaves every lock free.',
     ['inputs', 'histories', 'schedules'], 'every state of the cache, any type of key and value, every capacity and hint; schedules through the lock discipline',
     'the order of use shows only in long histories, a lock not held only in rare schedules; the cache tests are not part of the build',
     ['src/common/base/ConcurrentLRUCache.h'],
     [('map and list of use', 'LRU::insert, get, evict, clear'), ('buckets and locks', 'ConcurrentLRUCache and its Bucket')],
     'Obligations of LRU discharged for all inputs; the loops over buckets (constructor, clear, counters) are bounded: 1 to 32 buckets. Trusted: clang front end + SROA, the VC generator, z3; std::list, unordered_map, vector, mutex by contract; keys compare and hash lawfully.')
prop('C36', 'ICord content is the concatenation of what was appended',
     'From any state of ICord: write and every operator<< append exactly the bytes of their argument (native byte order) and nothing else, another ICord or the cord itself contributes its whole content, size() is the number of bytes appended, empty() holds exactly when it is 0, str and appendTo give the content, applyTo visits it in order in nonempty pieces and stops when the visitor says so with the right result, clear makes the cord empty and usable again, clear and the destructor free each heap block once and never the block inside the object.',
     ['inputs', 'histories'], 'every content and length, every number of blocks, every argument',
     'errors sit where content ends at the border of a block and after clear; the ICord tests are not part of the build',
     ['src/common/base/ICord.h'],
     [('chain of blocks starting inside the object', 'write, allocateBlock, next, clear'), ('readers', 'applyTo, appendTo, str')],
     'All obligations discharged for all contents, for the instantiations with blocks of 16 and 1024 bytes. Trusted: clang front end + SROA, the VC generator, z3; malloc succeeds; a cord is not copied.')
prop('C37', 'Dates and times made from maps, text and the clock are what these say',
     'TimeUtils: a map gives a date, time or datetime exactly when each of its keys is the name of a part, each value a whole number in the range of the part, and the day exists; parts not named have their defaults. A text is read with the documented formats, only existing days are accepted, and what it leaves out is the first of January at midnight. A timestamp is given exactly for a whole second between 0 and the greatest the kernel can represent. Attributes are found by name in any case, any other name gives the null of an unknown property. Local = UTC + offset of the time zone, for the clock and for conversions both ways, keeping microseconds.',
     ['inputs'], 'every map with any keys and values in any order, every text, value, attribute name, offset and reading of the clock',
     'errors sit at the borders of the ranges, in narrowing, in leap years and in other time zones than UTC; these tests are not part of the build',
     ['src/common/time/TimeUtils.h', 'src/common/time/TimeUtils.cpp', 'src/common/time/TimeConversion.h'],
     [('entries of a map into parts', 'TimeUtils::dateFromMap, timeFromMap, dateTimeFromMap'), ('existing days', 'TimeUtils::validateDate, TimeConversion::isLeapYear'), ('text', 'TimeUtils::parseDate, parseTime, parseDateTime, toTimestamp'), ('clock and time zone', 'TimeUtils::local*, utc*, *ToUTC, utcTo*')],
     'All obligations discharged for all inputs. Trusted: clang front end + SROA, the VC generator, z3; std::get_time, the hash map, Value and Status by contract; TimeConversion by the contracts that C01 to C03 prove.')
NC='Outside the reach of the verifier here: '
prop('C40', 'The meta cache shows each client one consistent snapshot',
     'A reader of MetaClient sees schemas, parts, users and indexes of one load of the meta data, never a mixture of two, a load that fails leaves the previous snapshot in place, and a heartbeat or load sends a request to the leader until it succeeds or the retry limit is reached.',
     ['schedules', 'histories', 'faults'], 'every interleaving of loads, heartbeats and readers', 'races between the refresh thread and readers depend on the schedule', ['src/common/clients/meta/MetaClient.cpp', 'src/common/clients/meta/MetaClient.h'],
     [('swap of the local cache under the lock', 'MetaClient::loadData, loadSchemas')], '', na=NC+'MetaClient is written on the code generated from the Thrift interfaces (MetaServiceAsyncClient, cpp2 types), futures and fbthrift channels. The generator and fbthrift are not installed, so no translation unit that includes it compiles; a hand-written stand-in for the generated client would be a model, which is a different family. The properties are also about schedules of several threads, for which the VC generator has no logic beyond the monitor invariants of C16 and C17.')
prop('C41', 'Storage requests reach every part exactly once and partial failure is reported',
     'A storage request is split so that each part goes to its current leader once, the response lists exactly the parts that failed, and a changed leader is taken up; completeness is the percentage of parts that succeeded.',
     ['inputs', 'schedules', 'faults'], 'every distribution of parts, every order of answers and every failure', 'the order of answers and the set of failing hosts are not under a test\'s control', ['src/common/clients/storage/StorageClientBase.h', 'src/common/clients/storage/StorageClientBase.inl', 'src/common/thrift/ThriftClientManager.inl'],
     [('scatter and gather', 'StorageClientBase::collectResponse, clusterIdsToHosts')], '', na=NC+'StorageClientBase instantiates generated Thrift request types and folly futures on event bases (fbthrift, wangle and the code generator are absent), so the bodies cannot be compiled to the IR the verifier takes, and the guarantee is about asynchronous completion orders.')
prop('C42', 'Worker threads run every task exactly once, in order, and stop cleanly',
     'A task added to GenericWorker or GenericThreadPool runs exactly once on a worker thread, delayed tasks not before their time, repeated ones until purged, and stop waits for the task that is running.',
     ['schedules', 'histories'], 'every interleaving of addTask, purge, stop and wait', 'lost wake-ups and races at stop need particular schedules', ['src/common/thread/GenericWorker.cpp', 'src/common/thread/GenericWorker.h', 'src/common/thread/GenericThreadPool.cpp'],
     [('pending queue and event loop', 'GenericWorker::onNotify, addTask, purgeTimerInternal')], '', na=NC+'GenericWorker.cpp does not compile here (libevent is absent), its behaviour lives in the event loop of that library, and the property is about interleavings with real time.')
prop('C43', 'Statistics read back what was recorded in the window asked for',
     'StatsManager reads for a counter and a window the sum, count, average, rate or percentile of exactly the values added in that window, and registration under one name is unique.',
     ['inputs', 'schedules'], 'every history of addValue and every window', 'windows depend on the clock and on concurrent writers', ['src/common/stats/StatsManager.cpp', 'src/common/stats/StatsManager.h'],
     [('multi-level time series', 'StatsManager::readValue, addValue')], '', na=NC+'all of the arithmetic of StatsManager is in folly\'s MultiLevelTimeSeries and TimeseriesHistogram, which are not installed, so its translation units do not compile and what is left under contract would be calls to assumed functions only.')
prop('C44', 'The web service and the HTTP clients carry flags, statistics and files faithfully',
     'The flag handlers report and set exactly the flags named, the statistics handler the counters named, and the HTTP and HDFS helpers give the bytes of the remote file or an error.',
     ['inputs', 'faults'], 'every request and every failure of the transport', 'malformed requests and transport failures are unbounded', ['src/common/webservice/GetFlagsHandler.cpp', 'src/common/webservice/SetFlagsHandler.cpp', 'src/common/webservice/Router.cpp', 'src/common/http/HttpClient.cpp', 'src/common/hdfs/HdfsCommandHelper.cpp'],
     [('request handlers', 'GetFlagsHandler, SetFlagsHandler, GetStatsHandler')], '', na=NC+'the handlers derive from proxygen classes (not installed) and answer through folly::dynamic and JSON; HttpClient and the HDFS helper start curl and hdfs as processes, whose behaviour is outside the code. ')
prop('C45', 'Full-text requests are built and answers read as Elasticsearch defines',
     'The adapters build the documented request for put, bulk, delete and each query, escape the text they embed, and give exactly the rows of the answer or an error.',
     ['inputs'], 'every document, query and answer', 'special characters and malformed answers are unbounded', ['src/common/plugin/fulltext/elasticsearch/ESStorageAdapter.cpp', 'src/common/plugin/fulltext/elasticsearch/ESGraphAdapter.cpp'],
     [('request text', 'ESStorageAdapter::bulkCmd, ESGraphAdapter::cmd')], '', na=NC+'the commands and answers are built and read with folly::dynamic, folly::toJson and folly::parseJson; folly is not installed and its replacement in /verif/shim has no JSON semantics, so the contract would be about assumed functions.')
