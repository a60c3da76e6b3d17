TEXT = {
'C01': "Types that implement processor.Event must pass Put and TryPut on unchanged. Put and TryPut are interpreted over an arbitrary event, key and value. The key parser and the path formatter are treated as functions of the key. The walk's loop is closed by inferring, from the loop's recorded variables, which variable is the map at depth i; at every store the rule requires either the final store (value under the last segment in the map at depth n-1, once), a new empty object under an absent segment, or an empty member map for an object without one; no other store, deletion or overwrite may happen. Every error return must wrap the sentinel of its cause, and no store may precede it.",
'C02': "As C01 for Get (delegation included): each return must be the member found at the full path, or nil with evidence (a failed lookup, a non-object or empty parent) on that path, or the root object for the empty path; any store into memory that existed before the call is a violation.",
'C03': "As C01 for Delete (delegation included): the only effect is one removal of the last segment from the map at depth n-1; the result is what a lookup there gave before the removal; nothing is removed when a parent is absent.",
'C11': "Pipeline.Process with arbitrary processors: three classes of return (same event/nil, nil/nil, nil/error) are compared with the drop flag and the error of the run on that path; nil event gives an error.",
'C12': "The run of a list of processors is a typestate (which list, next index, last result). Every Process call must be the next element; after a non-nil result only the first global handler may run; a return must be justified by the last result.",
'C13': "The per-processor wrapper is interpreted with arbitrary results of the processor and its handlers; each path's return value and handler calls are compared with the documented decision table (ignore_missing, on_failure, ignore_failure).",
'C14': "In every state in which the dropped or cancelled flag is set, a Process call is a violation; the flags are set exactly by Drop and Cancel; the flag decides the outcome.",
'C15': "Counter increments on each path are counted per metric and compared with the path's outcome; the counters are identified by the metric name they are constructed with, through the constructor.",
'C16': "The function that lists collectors is interpreted with list- and node-level recursion: each node contributes its four counters exactly once, children are visited, and the construction gives each node an id that contains the parent's id, the list name and the index.",
'C17': "New and the construction recursion: for each entry in order, one node built from that entry's name and options, handlers from the entry's on_failure, ignore flags from the processor's configuration; every error on the way is returned.",

'C07': "The two recursive converters are found by their types and interpreted once per case (each value type, nil; each message kind, nil message, unset kind, container without content), with the recursive call as an opaque function c. The result must be a new message (value) of exactly that kind with exactly the source's content: for arrays of any length element i is c(element i), for objects of any size the members are exactly k -> c(v); no other payload field is set, no existing memory changes, no panic is reachable. FromEvent and ToLogEvent must apply the converter to every member of the root. Round-trip equality follows by induction over the depth from the two tables being inverse.",
'C08': "As C07 for FromEvent with Go types in place of message kinds. ToEvent: ReflectValue is opaque (its result is C09); each member of its object is put exactly once under EscapeKey of its name, every error is returned. That a backslash in a top-level name is lost on this route is a known finding (the existing test requires it).",
'C09': "The pair of mutually recursive functions under ReflectValue is found by its types. For the function over interfaces each dynamic type asserted on a path must be built into the tag that holds it from exactly the asserted payload; for the function over reflect.Value each kind (constrained 1..26) x nil/error/time case must return the tag, with the payload read by the accessor of that kind, the elements in order, one member per map key under its %v text, one member per exported, untagged field under its tag or lower-cased name (omitempty and string options included). Anything else must be the unsupported-type error, and an error of a nested conversion must be returned. A member stored under a text or name that others can share must be known to be new (a fact of the path before the update, or the final size), else the conversion fails. The membership test over tag options is proved separately. Times outside the range of 64-bit nanoseconds wrap: a known finding.",
'C10': "Every call of a reflect.Value or reflect.Type method carries a precondition (valid, of one of the listed kinds, index in range, exported, convertible, callable with exactly these arguments) that must follow from the facts of the path; kinds of derived values (New, Elem, Call results, In/Out types, map members) are related to the types they come from. Values passed to the recursive conversion must be valid and exported (assume-guarantee). Register is interpreted, and NewProcessor after it in the same state, so the closures it stores see the facts established by the checks. Method calls on contents of values require that they are no nil pointer.",
'C20': "As C10 for the interpretation; on every accepting path of Register all nine conditions of a well-formed registration must be established and exactly procs[name] be stored, on every rejecting path one must be violated and nothing be stored. NewProcessor must create a config of the constructor's parameter type in the call (not at registration), unpack exactly the given options into it, call the registered constructor with it, and return its result or the first error.",
'C04': "Every exported operation is interpreted over an arbitrary event and arbitrary arguments: values nil or of any of the nine types, with nil, empty or any arrays, maps and strings. Each instruction that can panic (use of a nil pointer, index, slice bounds, make with a bad length, store in a nil map, failing type assertion, call of a nil function, integer division, explicit panic) is an obligation that must follow from the facts of the path: branch conditions, lengths (difference constraints, widened with thresholds at loops), type tags, non-nil results of helpers. Recursive functions are analysed once: what they need of their arguments is inferred as clauses and becomes an obligation of each call, and whether their results can be nil is inferred by a fixpoint. Oracle: none needed, a panic is a panic; the tag of a value is taken to be one of the nine and an event to exist.",
'C05': "The grammar is written as an automaton that reads one byte at a time: state = finished segments, current segment, whether the last byte was a backslash. The function that maps a key to segments (found by its use in Put, Get and Delete, not by its name) and EscapeKey are interpreted from loop header to loop header over an arbitrary key. A simulation relation says which variables (locals, fields, builders, the rest of a sliced key) hold the parts of the state at each header; it is searched among them (with backtracking over nested loops) and must hold at the first arrival, be preserved by each transition, which may read several characters, and give the result at each return. The search cannot make a wrong program pass: whatever relation it finds is a proof by induction. EscapeKey must emit backslash-dot for each dot and every other byte unchanged; with the parser's rule this gives the round trip. Bound: none on the key; a parser written with library splitting instead of reading characters would be reported.",
'C06': "The package initialiser is interpreted and ValueType.String run after it for each tag (nine distinct names, none of them that of an undefined type, and the variable that holds them is never written elsewhere); constructors must return a new value with exactly the tag and payload; Format, MarshalJSON and the converters are run once per type with every payload field symbolic, and the result may depend only on the payload of that type and must be its whole content.",
'C34': "The codec is generated, original code and can be analysed like any other. (1) Bounds: a demand-driven difference prover over the SSA form (x - y <= c from definitions, dominating conditions, induction over loop variables, callers' arguments and callees' results; sums are only used where wrap-around is excluded) shows for every index, slice and make in the decoders, the skip function and their helpers that it is within the input, and for every loop that a position grows and is bounded. (2) Every loop that reads a number is recognised semantically (seven bits per byte, at most ten bytes, end of input and overflow are errors), and is then a summary in (3): each Unmarshal is interpreted once per tag: every field number of the schema (struct tags) and one beyond, numbers that agree with a known one modulo 2^3..2^28, each wire type. Known fields: exactly the declared field gets exactly the value of the bytes (numbers to full width, copies of byte slices, a new element decoded from exactly the field's bytes, map entries by key and value with last-one-wins), decoding goes on right after it, old elements and entries stay. Unknown ones are kept in full; wrong wire types, number 0 and stray group ends are errors; an error return must be that of a callee, of a number that does not end, or contradict well-formedness of the field (so nothing well-formed is rejected). The skip function is compared with the eight wire types and the nesting of groups. (4) Each encoder's writes must form one chain from the end of the buffer, equal to the schema's fields with their tags, and Size the sum of the same segments; encoding and size of a number are checked as loops. Both sides being the schema's gives the round trip. (5) The struct tags and field types are compared with the definition (event.proto, parsed), Reset must clear every field, and every alternative must be registered. Assumed: the bytes of proto.Marshal's buffer are as many as Size says; messages without nil elements in lists (those panic in the generated code and are never made by conversion or decoding). Not bounded: nesting depth (C35). Equivalent changes seen in testing: a final iNdEx > l test, overshoot of a skipped field within a map entry (lenient, as generated).",
'C32': "encoding/json is modelled: Marshal(x) is the JSON form of x, Unmarshal and Decoder fill the target of a given type from a document of a given kind (or fail), merging with what the target held. MarshalJSON is run per value type (an empty array or object must be [] or {}), UnmarshalJSON per document kind into a value with arbitrary old content: tag, exact content, every other field reset, each nil element or member replaced by a null value (loops closed), error returned. That numbers become float64 is a known finding.",
'C18': "Every function that runs during Process (the pipeline; each registered processor after its constructor, over an arbitrary configuration; the event's operations; further functions with loops by themselves, with the origins their arguments can have) is interpreted and each write (store, map update or deletion, clear, copy into, append into spare capacity, channel send, start of a goroutine, call of a library function that is not known to only read) is traced to the object it changes: memory of the call, the event, or shared (the pipeline, a processor, its configuration, a package variable, the null value that all events share). Only the first two are allowed; counters of the metrics library may be increased. Each value handed to Put must be of the call, or a deep copy, or the event's own value put back under its own key; everything reachable from it is followed. Interleavings need no exploration: without shared writes there is nothing to interleave on.",
'C19': "The fields of the configuration types are compared tag by tag (same name in YAML and JSON, documented names present, one inline field, no option that changes the form, no further custom encoding on any type reachable from a definition). UnmarshalJSON is interpreted over an arbitrary document, with encoding/json modelled as an assignment of the document's members to tagged fields (embedded structs included) or as the map of all members: on every path that returns nil each decoding error is known to be nil, each named field holds its member, and the options are the document's members without exactly the named ones - by removal (single calls or a loop over a literal list) or by copying in an iteration that covers all members and skips only the named ones. MarshalJSON likewise: what is handed to the encoder is a new map that holds every non-empty field under its name and a copy of every option; the method must exist on values. encoding/json itself (case-insensitive names, float64 numbers) is where the two formats really differ: two known findings. Why tests do not reach it: one YAML document without options is decoded.",
'C21': "The definition file is the specification. Registrations are found as calls that hand a name and a constructor to the registry; each must be executed whenever its package is initialised (the call dominates every return of an init function, followed through helpers), exactly once per name, and its package must be in the import closure of the tool. The options of the configuration type are read from the struct tags the way go-ucfg does (inline, ignore, default name, validators) and compared with the definition: same names, types, required flags, no further validators, no further options. InitDefaults is interpreted on a zero configuration; at each return every option must hold the defined default (zero if none). Constructors and Validate methods are interpreted over an arbitrary configuration: an error may be returned only on paths where a required option is empty. The tables of the README are compared row by row, and each YAML example that is a pipeline must use existing processors, options and keys. Why tests do not reach it: nothing executes definition file, generated code and documentation together.",
'C22': "The processors are found by their registration; constructor and Process are interpreted together over an arbitrary configuration and an event modelled by versioned lookups. Each path must be one of: no effect with the missing-key error for the source (source absent or null), no effect with another error (source of another type), or exactly one Put of ToLower/ToUpper applied to the payload of the source under the target (the field itself if target_field is empty), returning the error of Put.",
'C23': "As C22 for set: the value given to Put is a clone of the configured value or of the value found under copy_from. Clone itself is verified: every field of the result equals the source's, arrays and objects are fresh, each element and member is a clone of the source's element and member of the same index and name (loops closed by their recorded iteration variables).",
'C24': "The list handed to Put is reconstructed as a symbolic sequence from appends, copies and loops, and compared element by element with the source arrays for arbitrary lengths; the processor's search for a duplicate must cover all elements; the returned error is the Put's.",
'C25': "The loop over the configured fields is closed by its index variable (0, +1, to the length); each iteration deletes exactly the field at that index, fails with the missing-key error naming it exactly if the result is absent and ignore_missing is not set.",
'C26': "Is of the missing-key error type must be true exactly for values of that type, its message must contain the key, no other error type of the repository may match it; each processor's missing-source path (C22, C23, C25, append) must return it for the right key, wrapped or not.",
'C30': "the options are the tagged fields of the config struct of each constructor handed to MustRegister, and of the entry and pipeline structs, read from the types. C30-used: the constructor is interpreted with an arbitrary config, then Process with the processor it returned; the option counts as used if a term built from it occurs in what a path reads, writes or returns, or if two paths that differ in a condition on it do different things (same prefix of other conditions, different signature of effects); ignore_missing and ignore_failure may be used through Config, whose result must be the configured value on every path (C30-config). C30-effect: the path rules of C22-C25 restricted to the cases their statements distinguish by an option (target_field names the written field whenever it is set, ignore_missing decides the outcome of an absent field, allow_duplicates, copy_from against value). C30-entry: taint from each field of an entry and of the pipeline configuration to a branch, a call argument or a stored field that is read by the processing code. C30-flags: the path rules of C12, C13, C17 and C20 about options reaching the constructor, the flags and the on_failure lists. Not decided: whether a new option does what its comment says (only that it does something). Bounds: none on inputs. Cost 4 s. Why tests do not reach it: an ignored option changes no result that a test looks at.",
'C27': "every function with source code in the module (generated protobuf code excluded) is interpreted; each call whose signature has an error result is a source, found through the type checker and not by a list of names, together with bufio.Scanner, whose error is separate. The trace keeps the sources and every use of an error term. At each return, each exit with status 0 and each end of a loop iteration an obligation is generated for each source on that path: the path condition implies that the error is nil, or the term occurs in a result, in memory the caller can reach, in an argument of another call, in a sent or retained loop value, or the function fails anyway, or the path condition holds a documented class test (errors.As on ErrorKeyMissing, not-exist). A variable that is overwritten in a later iteration does not count as kept unless the loop goes on only while it is nil. Functions without an error result that meet errors are followed at their callers. Excused: Close of a file that was only read, Put of constant distinct keys in a new event, reading a file that is written anew afterwards, prints of an error, writers to memory. Why tests do not reach it: almost none of the failing outcomes can be provoked in a test (full disks, registration clashes, encoder failures).",
'C31': "both main functions are interpreted with the helpers they call; reading the definitions, template execution, formatting, file creation, writes, renames and closes are models with success and failure, and each file gets as content a term that says which rendering (template, data) it came from. On each write: the term is a complete rendering that succeeded on this path, formatted if it is Go; the file is opened so that old content is replaced; the write is looked at. Every path with a failing operation ends with os.Exit(non-zero) or log.Fatal and no later write of that processor. The path term must be made from the same processor name as the data. The stub decision: the path condition must tie the Stub flag to \"there is a function declaration named Process (with or without receiver as today) in the parsed old file, or no old file\"; the AST walk that answers it is interpreted too. The template helpers are checked as list functions: no line is left out, none altered but for trailing blanks, reader errors are looked at, and bytes of a line reader are not kept across reads (this found the repaired garbling of long descriptions).",
'C29': "The entry points are found by the export directive (cgo) and as arguments of js.FuncOf (the example is loaded a second time as built for js/wasm). Each is interpreted with decoding, New, Process and encoding as arbitrary: a pipeline is only built from, and only those events are processed, whose decoding is known to have succeeded; the pipeline is one whose building is known to have succeeded or the kept one, and only results of New are kept; on each path with a failure that is not excluded the result is a status other than 0 or contains the error's text; otherwise it is derived from the processed event; no panic, nil dereference or index out of range is reachable. What the entry points rely on is the library's contract, decided on New and Process: nil configuration, nil pipeline and nil event are errors without an effect, and New never gives a pipeline together with an error (the C example keeps what New returns). Bugs in the examples themselves are outside of what may be planted; the contract is what changes to the library break.",
'C28': "main of the tool is interpreted together with the functions it calls; the line reader, the pipeline's Process, the event, the encoder and the logger are models with every documented outcome (a read may fail, processing may fail, drop or replace the event, encoding and writing may fail), and os.Exit, log.Fatal and the like end a path. Each recorded iteration of the input loop must read one line; if its trimmed text is not empty, fill a new event with that text and the running number (first 1, then one more in every iteration, blank lines included), process that event once, and hand the result once to the standard output iff it is neither failed nor dropped; each failure is reported with the number and the loop goes on. A path on which the program ends must have seen the end of the input, flushed what it buffered, and fail if the reader reports an error. Why tests do not reach it: no test runs the command."
}
