import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

F="src/factory/";M="src/misc/";
p("C01","Value serialization round trip",
"For every introspection type and every value of it, serializing the value (either byte order, any buffer size, whatever pattern of flush / refill interruptions the transport imposes) and deserializing the bytes into a fresh or previously used object of the same type yields an equal value, consumes exactly the bytes that were produced, and leaves the source value unchanged. The same holds for partial serialization of an array or string range (it transfers exactly that range) and for Status, BitSet and size/string primitives.",
["inputs","histories"],"all types (nested structures, unions, variant unions, arrays of each, bounded and fixed arrays, bounded strings), all values, both byte orders, all buffer segmentations, all prior contents of the receiving object",
"testSerialization round-trips a few dozen hand-picked values through one roomy buffer; interruptions in the middle of a value, reused receivers and arbitrary nestings are never sampled.",
[F+"PVDataCreateFactory.cpp",F+"PVStructure.cpp",F+"PVUnion.cpp",F+"PVStructureArray.cpp",F+"PVUnionArray.cpp",M+"serializeHelper.cpp",M+"bitSet.cpp",M+"status.cpp",M+"pv/byteBuffer.h",M+"pv/serialize.h"],
[("per-class serialize/deserialize with ensureBuffer/ensureData",F+"PVDataCreateFactory.cpp"),("size and string encoding",M+"serializeHelper.cpp")],
["Serializable::serialize / deserialize","SerializableControl::flushSerializeBuffer, ensureBuffer","DeserializableControl::ensureData"])
p("C02","Encoded bytes follow the pvAccess wire format",
"The bytes emitted for any type description, value, bit-set, size, string or Status are exactly those the pvAccess data encoding prescribes for the chosen byte order, and any byte sequence built to that encoding by an independent encoder decodes to the value it denotes. The bytes do not depend on buffer size, on where flushes happen or on whether a direct-transfer path is offered.",
["inputs","configurations"],"all types and values, both byte orders, all buffer sizes and flush points, direct and buffered array transfer",
"Tests compare a handful of literal byte strings; a symmetric encoder/decoder change or a size/segmentation dependent one passes them all.",
[F+"FieldCreateFactory.cpp",F+"PVDataCreateFactory.cpp",F+"PVStructure.cpp",F+"PVUnion.cpp",F+"PVStructureArray.cpp",F+"PVUnionArray.cpp",M+"serializeHelper.cpp",M+"bitSet.cpp",M+"status.cpp",M+"pv/byteBuffer.h"],
[("type codes and ids",F+"FieldCreateFactory.cpp"),("SerializeHelper::writeSize/readSize",M+"serializeHelper.cpp"),("endian swap",M+"pv/byteBuffer.h")],
["bytes passed to flushSerializeBuffer / left in the ByteBuffer","Serializable::deserialize"])
p("C03","Type description round trip and type equality",
"Every introspection type that can be built survives serialization and deserialization as an equal type: same kind, id, field names and order, element types, array size policy and bound, and string bound, consuming exactly the bytes produced. Two types compare equal exactly when all of those agree, the id text of a type names its kind, element type and bound in full, and equality is reflexive, symmetric and transitive regardless of how the types were built. Names, element sizes and classification (integer, unsigned, numeric, primitive) of the scalar kinds agree with the kinds.",
["inputs","histories"],"all types buildable through FieldCreate, FieldBuilder or deserialization, both byte orders and all segmentations",
"testIntrospect/testFieldBuilder compare a few named types; equality differences that only appear for one attribute at depth are not enumerated.",
[F+"FieldCreateFactory.cpp",F+"Compare.cpp","src/pv/pvIntrospect.h"],
[("FieldCreate::deserialize",F+"FieldCreateFactory.cpp"),("compare() overloads",F+"Compare.cpp")],["Field::serialize","FieldCreate::deserialize","operator== on Field"])
p("C04","Hostile bytes are rejected without damage",
"Decoding arbitrary bytes as a type description, a value of any type, a bit-selected update, a BitSet, a Status or a string either succeeds or throws an exception: it never reads or writes out of bounds, invokes undefined behaviour, dereferences null or aborts the process. Afterwards every object involved is still internally consistent and usable (it can be printed, compared, copied, re-serialized and assigned).",
["inputs","fault_sequences"],"all byte strings (random, mutated valid encodings, truncations at every point), all receiver types, both byte orders, receive faults at any refill",
"No test feeds malformed bytes beyond a couple of hand-made ones; the input space is unbounded.",
[F+"FieldCreateFactory.cpp",F+"PVDataCreateFactory.cpp",F+"PVStructure.cpp",F+"PVUnion.cpp",F+"PVStructureArray.cpp",F+"PVUnionArray.cpp",M+"serializeHelper.cpp",M+"bitSet.cpp",M+"status.cpp"],
[("validation in deserialize paths",F+"FieldCreateFactory.cpp"),("ensureData before every read",M+"serializeHelper.cpp")],["FieldCreate::deserialize","PVField::deserialize","PVStructure::deserialize(bitset)","BitSet/Status::deserialize"])
p("C05","Bit-selected update transfers exactly the selection",
"Serializing a structure with a bit set and deserializing with the same bit set makes the receiver equal to the sender in every selected field (a set bit of a sub-structure selects its whole subtree, bit 0 everything) and leaves every unselected field untouched. Exactly the selected fields contribute bytes, and the sender and the bit set are not modified.",
["inputs","histories"],"all structure types, all bit sets (empty, full, sparse, nested structure bits combined with leaf bits, bits past the end), both byte orders, all segmentations",
"Tests use one or two hand-written masks on one structure.",
[F+"PVStructure.cpp",M+"bitSet.cpp"],[("PVStructure::serialize/deserialize with BitSet",F+"PVStructure.cpp")],["PVStructure::serialize(buffer,flusher,bitset)","PVStructure::deserialize(buffer,control,bitset)"])
p("C06","BitSet behaves as a set of non-negative integers",
"Under any sequence of operations a BitSet answers every query (get, nextSetBit, nextClearBit, cardinality, isEmpty, equality, logical and/or, streaming, serialization) exactly as the mathematical set obtained by applying the same operations, including &=, |=, ^=, or_and, swap, flip, set, clear, assignment and self-application. Equality does not depend on history or on internal storage size.",
["inputs","histories"],"all operation sequences over several interacting bit sets, indices around 64-bit word boundaries and large sparse indices",
"testBitSet runs a fixed script; interactions of trimming, growth and word boundaries are combinatorial.",
[M+"bitSet.cpp",M+"pv/bitSet.h"],[("trailing-word trimming",M+"bitSet.cpp"),("word-wise operators",M+"bitSet.cpp")],["BitSet public methods"])
p("C07","Types and creators are shared safely between threads",
"Any number of threads may concurrently create, look up, compare, print, serialize and drop types, build values from them and use the global creators without data races, use-after-free or torn results, and every thread gets types equal to what it asked for. A type stays valid as long as any reference to it, or to a value or type built on it, exists, and introspection objects never change after creation.",
["schedules","histories"],"all interleavings of create/compare/serialize/destroy of equal, similar and hash-colliding types across threads, with types dying and being recreated concurrently",
"The unit tests are single threaded here; races between cache lookup and last-reference destruction need specific schedules.",
[F+"FieldCreateFactory.cpp",F+"StandardField.cpp",F+"StandardPVField.cpp",F+"PVDataCreateFactory.cpp",F+"Convert.cpp",M+"reftrack.cpp"],
[("type cache under mutex with weak ownership",F+"FieldCreateFactory.cpp"),("epicsThreadOnce singletons",F+"FieldCreateFactory.cpp")],["getFieldCreate, getPVDataCreate, getStandardField, FieldBuilder","TSan / ASan reports"])
p("C08","Field offsets, names and parents are mutually consistent",
"In every structure value, however it was built, fields are numbered depth first without gaps from 0, and offset, next offset, field count, lookup by offset, lookup by dotted name, full name, field name and parent agree with each other and with the structure's type. Lookup of a name or offset that does not exist fails cleanly (null or exception, as the variant promises) and lookup under a wrong static type never returns an object. The member lookups of structure and union types, by name, by index and by class, agree likewise.",
["inputs","histories"],"all structure types and all construction paths (create by type, from given fields, clone, wrap, deserialize), all names, prefixes, near-miss names and offsets, before and after earlier lookups",
"Tests look up a few names in fixed structures; stale numbering appears only for particular build/lookup orders.",
[F+"PVStructure.cpp",F+"PVField.cpp",F+"PVDataCreateFactory.cpp","src/pv/pvData.h"],[("PVField::computeOffset and lazy numbering",F+"PVField.cpp"),("getSubFieldImpl",F+"PVStructure.cpp")],["getFieldOffset, getNextFieldOffset, getNumberFields, getSubField, getFullName, getParent"])
p("C09","Copies and clones are faithful and independent",
"Copying or cloning any value yields an equal value of the same type (bounds and sizes included) and the two are independent: no later change to either is visible in the other (copy between structure or union arrays shares the element objects, whose elements are shared pointers; clones of them likewise). A masked copy changes exactly the selected fields of the destination, copying between incompatible types throws, and a failed copy leaves the destination unchanged.",
["inputs","histories"],"all types and values, all masks, all sequences of mutation after the copy, unions and structure arrays included",
"Tests copy a few structures once and do not mutate afterwards; aliasing shows only through a later write to a nested element.",
[F+"PVField.cpp",F+"PVStructure.cpp",F+"PVUnion.cpp",F+"PVStructureArray.cpp",F+"PVUnionArray.cpp",F+"PVDataCreateFactory.cpp"],
[("copy/copyUnchecked per class",F+"PVStructure.cpp"),("PVDataCreate::createPV*(clone)",F+"PVDataCreateFactory.cpp")],["PVField::copy, copyUnchecked, PVDataCreate::createPV*"])
p("C10","Value equality is exact",
"Two values of the same type compare equal exactly when every leaf, array length and element, and union selection agrees; equality is reflexive, symmetric and transitive, never modifies its operands and never crashes, including on empty unions, null array elements and values of different types (which are never equal; a bound or fixed size is not part of a top-level string's or array's value). A change to any single leaf of a value makes it unequal to its former copy.",
["inputs"],"all pairs of values, single-leaf differences at every position, equal values reached by different histories",
"testCompare-style tests use a few pairs; a comparison that ignores one field kind or position passes.",
[F+"Compare.cpp"],[("operator== on PVField",F+"Compare.cpp")],["operator== / operator!= on PVField and subclasses"])
p("C11","Frozen shared vectors never change; views stay in bounds",
"A shared_vector behaves like a value-semantics slice of an array: every sequence of construction, slice, resize, reserve, push/pop, make_unique, freeze, thaw, cast and swap gives the same size and elements as the simple model, the contents seen through a const vector never change while it exists, and a mutable vector that has been made unique shares storage with nobody. Checked operations that exceed the size throw, and freeze of a shared vector is refused rather than aliasing.",
["inputs","histories","schedules"],"all operation histories over many vectors that share buffers with different offsets and lengths, all element types (POD and string, typed and void), concurrent readers of frozen data",
"testSharedVector exercises each method once on small unsliced vectors; slice + sharing + thaw/reserve combinations are not sampled.",
[M+"pv/sharedVector.h"],[("reference counted buffer + offset/count/total bookkeeping",M+"pv/sharedVector.h"),("freeze/thaw uniqueness test",M+"pv/sharedVector.h")],["shared_vector public API"])
p("C12","Array fields obey their size policy and element model",
"Array fields of every element kind behave like a plain sequence under any history of replace, swap, reuse, setLength, setCapacity, append, remove, compress, putFrom, copy and sub-array copy: contents and length match the sequence model, elements kept by an operation are preserved (the content of elements which setLength adds is unspecified, except that append adds empty ones), and a view taken earlier never changes. A bounded array never exceeds its bound and a fixed array never changes length; refused operations throw and leave the array unchanged (reuse and swap hand out the storage and do not check).",
["inputs","histories"],"all operation histories and argument values (zero, equal, boundary, overflowing), all element types and size policies",
"Tests call each operation once with friendly arguments.",
["src/pv/pvData.h",F+"PVDataCreateFactory.cpp",F+"PVStructureArray.cpp",F+"PVUnionArray.cpp",F+"pvSubArrayCopy.cpp",F+"PVScalarArray.cpp"],
[("checkLength policy",F+"PVDataCreateFactory.cpp"),("append/remove/compress",F+"PVStructureArray.cpp"),("copy()",F+"pvSubArrayCopy.cpp")],["PVValueArray<T>, PVStructureArray, PVUnionArray, pvSubArrayCopy"])
p("C13","Union selection and value always agree",
"For every union value, after any history of select, set, set by name, copy and deserialize (including refused and failed ones) either nothing is selected and there is no value, or the selected member's type is exactly the type of the held value; a variant union's value carries its own type. Invalid member indices or names and values of the wrong type are refused with an exception and leave the union unchanged. The member proposed for a scalar or array of a kind is the first of exactly that type, else the first of that kind.",
["inputs","histories","fault_sequences"],"all union types, all operation sequences including invalid selections, failing deserializations and nested unions",
"testPVUnion selects each member once in the valid order.",
[F+"PVUnion.cpp",F+"PVUnionArray.cpp",F+"FieldCreateFactory.cpp"],[("select/set/copyUnchecked/deserialize",F+"PVUnion.cpp")],["PVUnion::select,set,get,getSelectedIndex,getSelectedFieldName,copy"])
p("C14","Scalar conversions preserve values or fail",
"Converting between scalar types by any route (single value, whole array, AnyScalar, text) gives the value unchanged when the target type can represent it, and all routes agree; text parsing accepts exactly the valid representations within range and throws otherwise, and formatting an integer, boolean or string and parsing it back is the identity. Text of a floating-point value has six significant digits; results the documentation leaves undefined (such as floating point out of range of an integer type) are excluded. Converting double to float clamps the magnitude into the range of normal floats, as EPICS does. A conversion that is unsupported or fails throws and leaves the destination field unchanged.",
["inputs","configurations"],"all pairs of scalar types, all boundary and random values, all texts including signs, bases, spaces, overflow and garbage, arrays with a bad element at any index",
"testTypeCast covers selected values per pair; boundaries by route by array position are a large product.",
[M+"typeCast.cpp",M+"pv/typeCast.h",M+"parseToPOD.cpp",M+"anyscalar.cpp",M+"pv/anyscalar.h",F+"Convert.cpp","src/pv/pvData.h"],[("castUnsafeV dispatch",M+"typeCast.cpp"),("parseToPOD",M+"parseToPOD.cpp"),("AnyScalar bless/as",M+"pv/anyscalar.h")],["castUnsafe, castUnsafeV, getAs/putFrom, AnyScalar, Convert::fromString/toString"])
p("C15","Timer runs each callback as scheduled, and cancels for good",
"Under any concurrent use a timer calls a one-shot callback exactly once and not before its delay, a periodic one repeatedly until cancelled, in expiration order and one at a time; cancel reports true exactly when it removed a waiting callback and such a callback does not run again, isScheduled agrees, and scheduling one already scheduled is refused. Closing the timer stops everything: each callback still waiting is told once, none runs after close returns, later scheduling is refused, and no interleaving, including a callback that uses the timer itself, deadlocks, crashes or races.",
["schedules","histories"],"all interleavings of schedule, cancel, isScheduled, close and callback execution from several threads and from inside callbacks, equal and near-equal deadlines",
"testTimer runs one schedule/cancel sequence from one thread.",
[M+"timer.cpp",M+"pv/timer.h"],[("Timer::run loop and queue under mutex",M+"timer.cpp"),("onList flag",M+"timer.cpp")],["Timer::scheduleAfterDelay, schedulePeriodic, cancel, isScheduled, close","TimerCallback::callback, timerStopped"])
p("C16","JSON output is valid and parses back to the same value",
"Printing any value as JSON yields one well-formed JSON document with every selected field under its name in order, and parsing that document into an object of the same type restores an equal value for every kind the parser supports (scalars except the lowest 64 bit integer and floats below the normal range, variable and bounded arrays, structures, arrays of structures). Printing never modifies the value, and printing with a selection contains exactly the selected fields.",
["inputs","configurations"],"all types and values, strings with any bytes (quotes, control characters, UTF-8), extreme numbers, all print options and selections",
"testjson prints a couple of fixed structures.",
["src/json/jprint.cpp","src/json/parseinto.cpp","src/json/parseany.cpp","src/json/parsehelper.cpp"],[("yajl generator walk","src/json/jprint.cpp"),("parse callbacks","src/json/parseinto.cpp")],["printJSON, parseJSON"])
p("C17","Arbitrary JSON text is accepted or rejected cleanly",
"Parsing any text as JSON, into a fresh structure or into an existing object of any type, either succeeds or throws an exception: it never crashes, aborts, corrupts memory or leaves the target object unusable, and fields of the target which the text does not mention keep their value. Parsing into a fresh structure gives exactly the tree the text denotes.",
["inputs"],"all texts: well formed but mismatching the target (wrong kind at any place, nested arrays, unknown names), malformed, truncated, deeply nested",
"Tests parse a few matching documents.",
["src/json/parseinto.cpp","src/json/parseany.cpp","src/json/parsehelper.cpp"],[("parser frame stack","src/json/parseinto.cpp")],["parseJSON(stream), parseJSON(stream,PVField,BitSet)"])
p("C18","pvRequest strings parse to the structure they denote",
"Every string of the request grammar (record, field, getField and putField sections in any order, nested field lists with braces or dots, per-field options in brackets or parentheses as the grammar has them, blanks) yields the structure the grammar assigns to it. Strings with unbalanced or mismatched brackets, empty field names, empty braces, options without a name or value, or invalid or duplicate names are refused with a message or exception; any other string is refused or yields a structure which holds only structures and string options. No string, of any length or nesting, crashes the parser or corrupts memory, and a parser object can be reused after a failure.",
["inputs","histories"],"all strings: generated from the grammar, mutated, random and deeply nested; reuse after failure",
"testCreateRequest holds a fixed list of strings.",
["src/copy/createRequest.cpp","src/copy/pv/createRequest.h"],[("recursive descent with node tree","src/copy/createRequest.cpp")],["createRequest(), CreateRequest::createRequest, getMessage"])
p("C19","Request mapping copies exactly the requested fields",
"For every structure and request, the mapper's requested type and mask contain exactly the fields the request selects (with their sub-fields), copying in either direction transfers exactly the fields that are both marked changed and requested, marks exactly the counterparts of those in the destination mask and leaves everything else unchanged. Mask-only mapping agrees with the copying variants, copying there and back is the identity on requested fields. Requested names which do not exist only give a warning; a request which selects nothing, or whose nodes are not structures, throws and leaves the mapper as it was. A selection deeper than six levels takes the whole sub-structure with a warning.",
["inputs","histories"],"all base types, requests, modes, change masks including structure bits and bits outside the selection, both directions, repeated compute on one mapper",
"testRequestMapper uses one base structure and a few requests.",
["src/copy/requestmapper.cpp"],[("base2req/req2base mappings","src/copy/requestmapper.cpp"),("_compute field selection","src/copy/requestmapper.cpp")],["PVRequestMapper::compute, copyBaseToRequested, copyBaseFromRequested, maskBaseToRequested, maskBaseFromRequested"])
p("C20","Bit-set compression preserves the selection",
"Compressing a change mask against a structure never changes which leaf fields it selects, never leaves both a structure bit and bits below it, sets a structure's bit whenever all of its fields are selected, is idempotent, and returns whether anything is selected.",
["inputs"],"all structure types and all bit sets over them",
"testBitSetUtil uses one structure and a few masks.",
["src/pvMisc/bitSetUtil.cpp"],[("recursive checkBitSetPVField","src/pvMisc/bitSetUtil.cpp")],["BitSetUtil::compress"])
p("C21","Type and value builders build exactly what was asked",
"Any sequence of builder calls (add, addBoundedString, addArray, fixed/bounded arrays, nested structures and unions and arrays of them, ids, builder from an existing type, value builder with values) yields exactly the described type and values, continuing or replacing an existing member where the interface says so; adding a name again with another type, invalid names and misplaced end or create calls throw (adding exactly the same member again changes nothing; the order of a value builder's members is its own). The standard-structure factories yield the documented fields for every property combination, and building never affects types built earlier.",
["inputs","histories"],"all builder programs (nested to any depth, with extension of existing types and reuse of a builder), all scalar types, all property lists, all names",
"testFieldBuilder/testValueBuilder/testStandardField sample a few programs.",
[F+"FieldCreateFactory.cpp","src/pv/valueBuilder.cpp",F+"StandardField.cpp",F+"StandardPVField.cpp"],[("FieldBuilder state machine",F+"FieldCreateFactory.cpp"),("ValueBuilder child map","src/pv/valueBuilder.cpp")],["FieldBuilder, ValueBuilder, FieldCreate, StandardField, StandardPVField"])
p("C22","Objects are conserved: no leak, exact instance counts",
"Every object the library creates is released when its last reference goes, whatever the history (including failures and exceptions part-way through building, parsing, decoding or copying) and from whatever thread; nothing is destroyed twice. The published instance counters equal the number of live instances at every quiescent point, and enumerating or snapshotting counters is safe while they change.",
["histories","schedules","fault_sequences"],"all create/destroy histories over all classes, with failures injected at any step, across threads",
"Tests do not run under a leak checker and look at counters once.",
[M+"reftrack.cpp",M+"pv/reftrack.h",F+"FieldCreateFactory.cpp",F+"PVField.cpp","src/pv/valueBuilder.cpp",M+"thread.cpp",M+"timer.cpp"],[("REFTRACE_INCREMENT/DECREMENT pairs",M+"pv/reftrack.h"),("registerRefCounter map",M+"reftrack.cpp")],["readRefCounter, RefMonitor, RefSnapshot","LeakSanitizer at exit"])
p("C23","Immutable fields reject change; postPut fires once per put",
"After a field (or a structure containing it) is made immutable, every checked way of changing it (copy and assign to the field itself; replace, swap, reuse, resizing, append, remove, compress and sub-array copy of an array; the property accessors) is refused with an exception or a false result and its value stays the same, while reading, printing, copying from and comparing still work; making one field immutable affects no other. Every successful put, replace or copy on a field calls its post handler, and refused or failed ones do not.",
["inputs","histories"],"all field kinds and positions, all mutators, all orders of setImmutable and put",
"Tests check one or two scalar fields.",
[F+"PVField.cpp",F+"PVStructure.cpp",F+"PVArray.cpp",F+"PVDataCreateFactory.cpp","src/pv/pvData.h","src/property/pvAlarm.cpp"],[("immutable flag and checks",F+"PVField.cpp"),("postPut()",F+"PVField.cpp")],["setImmutable, isImmutable, put, putFrom, replace, copy, PostHandler::postPut"])
p("C24","Text printing is faithful and never fails",
"Printing any value or type to a stream succeeds without modifying it, writes every field on a line of its own in order, indented by its nesting, with its type id, name and value, and gives the same text for equal values; a stream formatter prints exactly the selected fields with their parents (of any structure, also one inside another), marks exactly the highlighted ones, and shows alarm, time, enumeration and table structures by their meaning, or as plain structures when members are missing or of another type. Afterwards the stream's flags, precision, fill and indentation are what they were, even when writing failed. Escaped text contains only printable characters and un-escaping it returns the original bytes. Bit sets, statuses, vectors, names of types and typeless scalars print as documented.",
["inputs","configurations"],"all types and values, all print formats, modes and masks, strings with any bytes",
"testprinter compares a few fixed texts.",
[F+"printer.cpp",F+"FieldCreateFactory.cpp",F+"PVDataCreateFactory.cpp",F+"PVStructure.cpp",M+"pv/pvUnitTest.h"],[("escape streamer",F+"printer.cpp"),("tree / raw printers",F+"printer.cpp")],["operator<<, PVField::dumpValue, Field::dump, PVStructure::Formatter, escape"])
p("C25","Property accessors reflect the attached structure",
"An alarm, time stamp, control, display or enumeration accessor attaches exactly to structures with the required fields, reports attachment correctly, and get after set returns what was set whatever the structure held before; set reports whether something changed, and use while detached throws. Enumeration choice lookup is safe for every index.",
["inputs","histories"],"all contents of the attached structure (including out-of-range indices, denormalized times), all values set, attach/detach/re-attach histories, structures lacking any of the fields",
"testProperty sets and reads one value each.",
["src/property/pvAlarm.cpp","src/property/pvTimeStamp.cpp","src/property/pvControl.cpp","src/property/pvDisplay.cpp","src/property/pvEnumerated.cpp","src/property/alarm.cpp"],[("attach/get/set","src/property/pvTimeStamp.cpp")],["PVAlarm, PVTimeStamp, PVControl, PVDisplay, PVEnumerated"])
p("C26","Time stamp arithmetic and order are consistent",
"A time stamp is always kept normalized (0 <= nanoseconds < 1e9) and denotes the instant that was put; adding or subtracting seconds (integer or fractional) moves it by that amount to within a microsecond at most, comparison operators form a total order that agrees with the instants, difference is antisymmetric and agrees with arithmetic, and conversion to and from milliseconds and time_t preserves the instant at that resolution.",
["inputs","histories"],"all representable instants incl. negative and denormalized inputs, all increments, all operation sequences",
"testTimeStamp checks one value and two increments.",
["src/property/timeStamp.cpp","src/property/pv/timeStamp.h"],[("normalize()","src/property/timeStamp.cpp")],["TimeStamp public methods"])
p("C27","Byte buffer keeps position, limit and byte order right",
"Under any history of puts, gets, aligned and array transfers, flip, clear, rewind, positions and byte-order changes a byte buffer delivers back exactly the bytes put, in the selected byte order, advancing the position by exactly the element size, and keeps 0 <= position <= limit <= capacity. Bulk array transfer equals the element-wise transfer, and reversed order is the exact byte reversal of native order.",
["inputs","histories"],"all operation histories, all scalar types, all alignments and both byte orders",
"testByteBuffer runs one linear script per type.",
[M+"pv/byteBuffer.h"],[("put/get templates with swap",M+"pv/byteBuffer.h")],["ByteBuffer public methods"])
p("C28","Threads, events and locks give their guarantees",
"A started Thread runs its target exactly once (at most once when it is joined before the target began) under the configured name and priority, one never started does not run it, and its join (exitWait or destruction) returns only after the target has finished, with everything it wrote visible; an Event never loses a signal sent before or during a wait and releases one wait per signal, a timed wait returns false only without a signal; a Lock holds its mutex exactly while it says it does.",
["schedules","histories"],"all interleavings of start, signal, wait, tryWait, timed wait, lock, tryLock, unlock and destruction",
"testThread starts a couple of threads once.",
[M+"thread.cpp",M+"pv/thread.h",M+"event.cpp",M+"pv/event.h",M+"pv/lock.h"],[("Thread::Config + epicsThread",M+"thread.cpp"),("Event over epicsEvent",M+"event.cpp")],["Thread, Event, Lock, Mutex"])
p("C29","Tracking pointers behave as shared pointers and list holders",
"The debug tracking pointer has the ownership semantics of the ordinary shared pointer under any history of copy, assign, reset, swap, cast and destruction across threads: the object lives exactly as long as some strong pointer does. The set of references it reports is exactly the live tracking pointers of that object.",
["histories","schedules"],"all operation histories over several pointers and objects, from several threads",
"testPtr checks a short fixed script.",
[M+"debugPtr.cpp",M+"pv/debugPtr.h"],[("tracker with mutex-protected reference set",M+"debugPtr.cpp")],["epics::debug::shared_ptr, weak_ptr, spy_refs, show_refs"])
p("C30","Status values keep type, message and success semantics",
"A Status reports exactly the type, message and stack dump it was given, is a success exactly for OK and WARNING, prints its type name, and combining (maximize) keeps the most severe.",
["inputs","histories"],"all types, messages and combination sequences, including decoded ones",
"testStatus covers a few constructions.",
[M+"status.cpp",M+"pv/status.h"],[("Status members and OK singleton",M+"status.cpp")],["Status public methods"])
p("C31","A typeless scalar holds exactly what was put",
"A typeless scalar (AnyScalar) always has the type and value last constructed, assigned, moved, swapped or written through a reference into it, and nothing else changes it; copies are independent, moved-from and cleared ones are empty. Access as another type than the stored one is refused, conversion agrees with the library's scalar conversion, and transfer through a scalar field of the same type preserves type and value. No history of these leaks or touches released memory.",
["inputs","histories"],"all scalar types and values (strings short and long), all histories of construction, assignment, copy, move and swap between kinds, itself included",
"testanyscalar samples a few values of some types.",
[M+"anyscalar.cpp",M+"pv/anyscalar.h","src/pv/pvData.h"],[("type tag and in-place storage",M+"pv/anyscalar.h"),("swap() by kind",M+"anyscalar.cpp")],["AnyScalar; PVScalar::getAs(AnyScalar), putFrom(AnyScalar)"])
p("C32","Exceptions keep their type and message and say where they were thrown",
"An exception thrown through the library's macros is caught as the type it was thrown as, with its members and its message unchanged, and reports the file and line of the throw and the frames of the stack, in the same way when shown and when printed, however often, after copying, when passed on from another place (then with the file and line of that place), and in several threads; an exception thrown otherwise reports no site. The text of a BaseException is its message followed by the site (if any), the same each time and for every copy.",
["inputs","configurations"],"all messages (empty, several lines, formatting characters, long), all exception types with no, one or several constructor arguments, any depth of the stack, copies made before or after the text was asked for",
"testBaseException prints a few exceptions and compares nothing but their kind.",
[M+"epicsException.cpp",M+"pv/epicsException.h"],[("ExceptionMixin with captured frames",M+"pv/epicsException.h"),("lazily composed text",M+"epicsException.cpp")],["THROW_EXCEPTION, THROW_EXCEPTION1, THROW_EXCEPTION2, SHOW_EXCEPTION, PRINT_EXCEPTION2, BaseException"])
p("C33","Test helpers report what they compared, once",
"Every use of a unit test helper (testEqual, testNotEqual, testTrue, testThrows, testFieldEqual, test methods) yields exactly one result, passing exactly when the condition it names holds, with the expression, both values and the text appended to it, further lines of it as diagnostics; testShow yields diagnostics and no result; a field which is missing, of another type or of a null structure fails instead of crashing. testDone() reports failure exactly if some result failed.",
["inputs","histories"],"all sequences of helpers, all outcomes, all values (NaN, strings of several lines, formatting characters), all fields present or not, in unions or not",
"testUnitTest and the other tests use the helpers on comparisons which pass.",
[M+"pvUnitTest.cpp",M+"pv/pvUnitTest.h"],[("testPassx reports in its destructor, moved by its copy constructor",M+"pvUnitTest.cpp"),("testFieldEqual looks into unions",M+"pv/pvUnitTest.h")],["testEqual, testNotEqual, testTrue, testThrows, testShow, testFieldEqual, TEST_METHOD"])
p("C34","Work on separate objects is independent between threads",
"Operations on separate objects yield the same results, texts, bytes and refusals when they run at the same time in different threads as when each runs alone, and do not race: encoding and decoding, copying and comparing, text output, JSON, conversion, requests and their mapping, builders, property accessors, time stamps, bit sets, status values and arrays have no hidden state in common, and shared constants and standard types never change. This holds from the first use in a process on, and the same work on equal objects always gives the same result.",
["schedules","inputs"],"all combinations of operations of the public interface in several threads, each thread with objects of its own, cold starts included",
"Tests run in one thread; a static buffer, a cached stream or a lazily made table passes every one of them.",
["src/factory","src/misc","src/json","src/copy","src/property","src/pvMisc","src/pv"],[("FieldCreate::mutex guards the only shared cache",F+"FieldCreateFactory.cpp"),("static name tables and standard types","src/property/alarm.cpp"),("getPVDataCreate, getConvert, getStandardField singletons",F+"PVDataCreateFactory.cpp")],["the whole public interface"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
