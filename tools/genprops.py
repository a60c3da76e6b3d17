#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the list stays readable).
import json
E='pkg/event/event.go'; V='pkg/event/value.go'; P='pkg/pipeline/pipeline.go'; PP='pkg/pipeline/processor.go'
props=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    props.append(d)

p('C01','Put and TryPut store exactly the addressed key, or nothing',
 "Putting a value stores it at exactly the addressed path, creating only the missing intermediate objects, changes no other key, and returns the value that was there before. TryPut never replaces an existing value: it returns that value and an error matching ErrKeyExists. A put that fails (empty key, existing key with TryPut, or a parent that is not an object) returns an error matching the documented sentinel and leaves the event as it was; putting a nil value does nothing.",
 ['inputs','histories'],"every event content, every key of any depth, every value, overwrite or not",
 "The tests put at depth one and two into events with at most one existing key; the claim ranges over any depth and any existing content.",
 [E],[('Event.Put, Event.TryPut and the shared walk',E)],[('fields','the root object of the event',E)],['Event.Put','Event.TryPut','Event.Get'])
p('C02','Get returns exactly the value at the addressed path and changes nothing',
 "Looking up a key returns the value stored at exactly that path, at any depth, and nil only if some segment of the path is absent or its parent has no members. The empty path returns the root object of a non-empty event. A lookup never modifies the event.",
 ['inputs','histories'],"every event content and every key of any depth",
 "The tests look up keys of depth one and two; deeper paths, partial matches and absence at each level are not sampled.",
 [E],[('Event.Get',E)],None,['Event.Get'])
p('C03','Delete removes exactly the addressed key',
 "Deleting a key removes that key from its parent object and returns the value that was stored there. Siblings, parents and all other keys stay, and deleting an absent key changes nothing and returns nil.",
 ['inputs','histories'],"every event content and every key of any depth",
 "The tests check only the returned value, never what else disappeared (deleting a nested key used to remove its whole top-level ancestor).",
 [E],[('Event.Delete',E)],None,['Event.Delete'])
p('C04','Absent, null and empty values never cause a panic',
 "No operation on an event or on values in it (put, get, delete, append, clone, JSON, map and protobuf conversion, and the built-in processors) panics because a value is absent, null, empty or of another type than expected, at any depth.",
 ['inputs'],"every event content, including null members and elements, objects without members and arrays without elements, at every depth",
 "No test event contains a null inside an object or array, an object without a map, or a path that runs through a null.",
 [E,V,'pkg/eventutil/event.go','pkg/serialization/mapinterface/mapinterface.go','pkg/serialization/protobuf/protobuf.go','pkg/processor/append/process.go','pkg/processor/lowercase/process.go','pkg/processor/set/process.go'],
 [('nil checks before each use of a value read from a map, a slice or a lookup','pkg/event, pkg/eventutil, pkg/processor/*, pkg/serialization/*')],None,['all exported operations'])
p('C05','Key syntax: unescaped dots separate segments, escaping a name is exact',
 "A key addresses the list of its non-empty segments separated by dots; a dot preceded by a backslash belongs to its segment, a backslash itself is never part of a segment, and every other character is kept unchanged and in order. Escaping a non-empty name without backslashes gives a key that addresses exactly the single segment with that name.",
 ['inputs'],"every key string",
 "Nine hand-picked keys are tested; the grammar ranges over all strings, and escaping and parsing are never tested together.",
 [E,'pkg/eventutil/event.go'],[('key to path transducer',E),('EscapeKey','pkg/eventutil/event.go')],None,['Event.Put','Event.Get','eventutil.EscapeKey'])
p('C06','Every value type is handled everywhere, with the payload of that type',
 "Every constructor sets the type tag together with the payload of that type. Every consumer of a value (formatting, JSON, conversion to maps and to protobuf, cloning) handles each of the value types, each type has its own name, and each consumer uses the payload that belongs to the type and no other.",
 ['inputs','programs'],"every value type, in every consumer that distinguishes value types",
 "The tests sample some types in some consumers; no test covers, for example, unsigned integers, booleans, nulls and arrays through protobuf.",
 [V,'pkg/serialization/mapinterface/mapinterface.go','pkg/serialization/protobuf/protobuf.go'],[('switches over the value type',V)],[('Type','which payload field is valid',V)],['event.Value','fmt','json','protobuf','map'])
p('C07','Protobuf conversion and back gives an equal event',
 "Converting an event to its protobuf message and back gives an equal event: every value keeps its type and exact payload, every array keeps its order and length, every object keeps all of its members under the same names at every depth, and an empty event stays an empty event. Decoding treats a value whose kind is not set as null and never panics.",
 ['inputs'],"every event and every decoded message, of any shape and depth",
 "One event with three types and depth two is round-tripped; nested dotted names, nulls, unset kinds and empty events are not.",
 ['pkg/serialization/protobuf/protobuf.go'],[('FromEvent and ToLogEvent','pkg/serialization/protobuf/protobuf.go')],None,['protobuf.FromEvent','protobuf.ToLogEvent'])
p('C08','Map conversion keeps every member, name and value',
 "Converting a map to an event keeps every member at every depth under its own name with the corresponding value, or returns an error; nothing is dropped or renamed silently. Converting an event to a map yields one entry for each member with the plain Go value of its type, so that map, event and map again are equal for maps of such values.",
 ['inputs'],"every map and every event, of any shape and depth",
 "One fixed map and one fixed event are compared; nested dotted names, unstorable names, and most value types at depth are not sampled.",
 ['pkg/serialization/mapinterface/mapinterface.go','pkg/eventutil/reflect.go'],[('ToEvent and FromEvent','pkg/serialization/mapinterface/mapinterface.go')],None,['mapinterface.ToEvent','mapinterface.FromEvent'])
p('C09','Go values convert by kind, without loss, or fail with an error',
 "Each Go boolean, integer, unsigned integer, float, string, time, error, pointer, interface, slice, array, map and struct converts to the value type that can hold it without changing its magnitude, sign or order; nil pointers and nil interfaces become null. Every exported struct field that is not tagged \"-\" is present (unless omitempty and zero) under its tag name or its lower-cased name. A value that cannot be represented, at any depth, makes the whole conversion fail with an unsupported-type error.",
 ['inputs','programs'],"every Go value that can be passed to the conversion",
 "ReflectValue has a single test that converts a one-element slice and ignores the result.",
 ['pkg/eventutil/reflect.go','pkg/config/config.go'],[('type switch and kind switch','pkg/eventutil/reflect.go')],None,['eventutil.ReflectValue','mapinterface.ToEvent','config.EventValue.Unpack'])
p('C10','Reflection never panics on caller-supplied values or constructors',
 "Converting any Go value without cycles, registering any constructor, and building a pipeline from any registered processor either succeeds or returns an error. No reflective operation is applied to a value of a kind for which it panics.",
 ['inputs','programs'],"every Go value, every constructor and every processor type",
 "The tests pass one well-formed value, one well-formed constructor and one well-formed processor.",
 ['pkg/eventutil/reflect.go','pkg/processor/registry/registry.go',PP],[('kind checks that dominate partial reflect operations','pkg/eventutil/reflect.go')],None,['eventutil.ReflectValue','registry.Register','pipeline.New'])
p('C11','Processing returns the event, nothing (dropped), or an error, never a mix',
 "Processing an event returns the very same event and no error if it was processed or recovered, no event and no error exactly if it was dropped, and no event and a non-nil error if it failed and was not recovered. A nil event is refused with an error.",
 ['inputs','histories','configurations'],"every pipeline configuration, event and processor behaviour",
 "The tests run five small pipelines and no processor that drops; combinations of failing, recovering and dropping processors are unbounded.",
 [P],[('Pipeline.Process',P)],[('dropped','the event was dropped','pkg/pipeline/event.go')],['Pipeline.Process'])
p('C12','Processors run in configured order and stop at an unrecovered failure',
 "Processing runs each configured processor once, in the configured order, until one returns an unrecovered error, drops or cancels. After an unrecovered error no further regular processor runs; if the pipeline has on_failure processors they run in order from the first one, the event is recovered only if all that run succeed, and the first of them that fails ends processing with its error. Without on_failure processors the error of the failing processor is returned.",
 ['inputs','histories','configurations'],"every number and arrangement of processors and every pattern of their failures",
 "The tests use at most five processors in two fixed failure patterns.",
 [P],[('loops over the processors and the on_failure processors',P)],None,['Pipeline.Process'])
p('C13','Local failure handling: ignore_missing, on_failure, ignore_failure in order',
 "If a processor fails, a missing-key error is ignored when ignore_missing is set; otherwise its on_failure processors run in order until one fails, and if all succeed the failure is recovered; otherwise the failure is ignored if ignore_failure is set; otherwise the last error is returned. A processor that succeeds never triggers any of these, and the flags of one processor never affect another.",
 ['inputs','histories','configurations'],"every combination of flags, nesting of on_failure processors and pattern of failures",
 "Two test pipelines cover a few of the combinations of flags, nesting and outcomes.",
 [PP],[('failure handling around the processor call',PP)],None,['Pipeline.Process'])
p('C14','After Drop or Cancel no further processor runs',
 "Once a processor drops or cancels the event, no further processor starts for that event: neither the next processor, nor a local or global on_failure processor. A dropped event is reported as dropped even if the processor also returned an error; a cancelled event is output as it was left.",
 ['inputs','histories','configurations'],"every position in every arrangement of processors at which an event is dropped or cancelled",
 "No test processor drops or cancels (Drop used to have no effect and Cancel was never looked at).",
 ['pkg/pipeline/event.go',P,PP],[('the drop and cancel marks and the checks after each processor','pkg/pipeline')],[('dropped, cancelled','marks on the event in flight','pkg/pipeline/event.go')],['processor.Event','Pipeline.Process'])
p('C15','Each processed event is counted once as received and once by its outcome',
 "Every time a processor is given an event its received counter grows by one, and exactly one of its sent, errors and discarded counters grows by one: discarded if the event was dropped, errors if an error is returned, and sent otherwise, including ignored and recovered failures.",
 ['inputs','histories','configurations'],"every path through the processing of an event",
 "No test reads a counter.",
 [PP],[('counter increments',PP)],[('received, sent, errors, discarded','counters of each processor',PP)],['Pipeline.Metrics'])
p('C16','All counters of all processors are exposed, each under a unique identity',
 "The collectors of a pipeline comprise all four counters of every processor at every nesting level, regular, local on_failure and global on_failure alike, each exactly once. Each processor has a unique component id derived from its position, and its four counters have distinct names.",
 ['configurations'],"every pipeline configuration",
 "No test calls Metrics (global on_failure processors used to be left out).",
 [P,PP],[('Pipeline.Metrics',P),('construction of ids and counters',PP)],None,['Pipeline.Metrics'])
p('C17','A pipeline is built exactly as configured or rejected with an error',
 "Building a pipeline fails with an error if the configuration or its id is missing, if an entry names no processor or more than one, if a processor type is unknown, or if the construction of any processor at any nesting level fails. Otherwise the pipeline holds exactly one processor for each entry, in order, built from the type and options of that entry, with its own on_failure processors and with ignore_missing and ignore_failure as the processor's configuration says.",
 ['configurations','inputs'],"every configuration, of any nesting",
 "The tests build a handful of valid pipelines and no invalid one.",
 [P,PP,'pkg/pipeline/config.go'],[('New and the recursive construction',P)],None,['pipeline.New'])
p('C18','Processing never changes the pipeline and shares no memory between events',
 "Processing an event never modifies the pipeline, its processors, their configuration or any package state except counters, and what a processor stores in an event shares no mutable memory with the configuration or with other events or fields. Hence one pipeline may process different events concurrently, and the outcome for an event never depends on the events before it.",
 ['schedules','histories','inputs'],"every sequence and every interleaving of processed events",
 "Each test processes independent events sequentially and never modifies an output (set used to put a pointer to its own configuration into every event).",
 [P,PP,'pkg/processor/set/process.go','pkg/processor/append/process.go','pkg/processor/lowercase/process.go','pkg/processor/uppercase/process.go','pkg/processor/remove/process.go',V],[('read-only receivers, deep copy of configured values','pkg/processor/*, pkg/event/value.go')],None,['Pipeline.Process'])
p('C19','YAML and JSON pipeline definitions agree and no option is lost',
 "The same pipeline definition in YAML and in JSON gives the same configuration: id, description, if and on_failure are recognised under the same names, and every other option of a processor is passed on to it. Encoding a configuration as JSON writes every set field and option back under the same name.",
 ['inputs','configurations'],"every pipeline definition",
 "One definition with one processor is compared; ids, conditions and nested on_failure are not.",
 ['pkg/pipeline/config.go'],[('struct tags and custom JSON methods','pkg/pipeline/config.go')],None,['pipeline.Config'])
p('C20','The registry accepts only well-formed constructors and builds with defaults',
 "Registering a name twice, or a constructor that is not a function from a config struct to a pointer to a processor and an error, fails with an error and changes nothing. Creating a processor uses the constructor registered under exactly that name with a fresh configuration that starts from the defaults and has the given options applied and validated, and returns the constructor's error, an option error, or an unknown-type error instead of a processor.",
 ['inputs','programs','histories'],"every registration, name and set of options",
 "One registration and one construction are tested.",
 ['pkg/processor/registry/registry.go'],[('Register, NewProcessor and constructor validation','pkg/processor/registry/registry.go')],None,['registry.Register','registry.NewProcessor'])
p('C21','Definitions, generated configs, registration and documentation agree',
 "Every processor in the definition file is registered under that name and available in the command-line tool, and its configuration accepts exactly the defined options with the defined name, type, required flag and default. The documentation lists the same processors and options, and its examples use only existing processors and options.",
 ['programs','configurations'],"every processor and every option",
 "No test compares the definitions, the code and the documentation.",
 ['pkg/processor/processors.yml','cmd/sawmill/sawmill.go','docs/README.md','pkg/processor/append/append.go','pkg/processor/community_id/community_id.go','pkg/processor/lowercase/lowercase.go','pkg/processor/remove/remove.go','pkg/processor/set/set.go','pkg/processor/uppercase/uppercase.go'],[('generated Config structs, InitDefaults and init registration','pkg/processor/*')],None,['registry','cmd/sawmill','docs'])
p('C22','lowercase and uppercase write only the converted string to the target',
 "For a string field the processor stores its lower-case (upper-case) form in target_field, or in the field itself if target_field is not set, and changes nothing else. An absent or null field gives the missing-key error for that field, any other type gives an error, and in both cases the event is unchanged; a failure to store is returned.",
 ['inputs','configurations'],"every event, field and configuration",
 "lowercase is tested with a few events; uppercase has no test at all.",
 ['pkg/processor/lowercase/process.go','pkg/processor/uppercase/process.go'],[('Process','pkg/processor/lowercase/process.go')],None,['Pipeline.Process'])
p('C23','set stores a copy of the value or of the source field, at the target',
 "set stores a copy of its configured value in target_field if one is configured, and otherwise a copy of the copy_from field; it changes nothing else. An absent copy_from field gives the missing-key error for that field without changing the event, and a failure to store is returned.",
 ['inputs','configurations'],"every event and configuration",
 "Tests set constant strings; copy_from is never exercised.",
 ['pkg/processor/set/process.go'],[('Process','pkg/processor/set/process.go')],None,['Pipeline.Process'])
p('C24','Appending keeps every existing element and stores the result',
 "Appending to an array keeps its elements in order and adds the new ones at the end; a scalar becomes the first element; an absent field becomes a new array. The result is always stored under the same key, and a failure to store is returned. The append processor leaves an array unchanged if it contains the value already and duplicates are not allowed, leaves an absent or null field absent with ignore_missing, and refuses objects with an error.",
 ['inputs','configurations'],"every event, key, value and configuration",
 "The tests append distinct strings to an absent field or to an array of strings.",
 ['pkg/processor/append/process.go','pkg/eventutil/event.go'],[('Process and Append','pkg/processor/append/process.go')],None,['Pipeline.Process','eventutil.Append'])
p('C25','remove removes each configured field, in order, and nothing else',
 "remove deletes exactly the configured fields. If a field is absent it fails with the missing-key error for that field, or, with ignore_missing, goes on with the remaining fields.",
 ['inputs','configurations'],"every event and every list of fields",
 "remove has no test (it used to do nothing).",
 ['pkg/processor/remove/process.go'],[('Process','pkg/processor/remove/process.go')],None,['Pipeline.Process'])
p('C26','A missing source field is always recognisable as a missing-key error',
 "Every built-in processor that needs a source field reports its absence with an error that matches the missing-key error, wrapped or not, and names the field; no other error matches it. Hence ignore_missing works for every processor that has the option and ignores nothing else.",
 ['inputs','programs','configurations'],"every processor with a source field and every error it returns",
 "Only the text of one such error is tested.",
 ['pkg/processor/error.go',PP,'pkg/processor/lowercase/process.go','pkg/processor/uppercase/process.go','pkg/processor/set/process.go','pkg/processor/remove/process.go'],[('ErrorKeyMissing and its Is method','pkg/processor/error.go')],None,['errors.Is','Pipeline.Process'])
p('C27','No error is silently lost',
 "An error from storing into an event, from a processor or its construction, from decoding, encoding, reading or writing is returned to the caller, reported, or handled by documented rules; it is never discarded, overwritten before it is looked at, or turned into success.",
 ['inputs','fault_sequences','programs'],"every call that can return an error, on every path",
 "Tests rarely make an operation fail; discarded errors are invisible to a passing test.",
 ['cmd/sawmill/sawmill.go','docs/generate/generate.go','pkg/processor/generate/generate.go','pkg/serialization/mapinterface/mapinterface.go','pkg/serialization/protobuf/protobuf.go','pkg/eventutil/reflect.go',P,PP,'pkg/processor/registry/registry.go'],[('error returns at every call site','all packages')],None,['every API that returns an error'])
p('C28','The command-line tool handles every input line independently',
 "Each non-blank input line becomes one event that holds the trimmed line and its line number (blank lines count), is processed once, and gives exactly one JSON line on the output unless it fails or is dropped; a failing line is reported with its number and does not stop the following lines. A failure to read the input is reported as a failure of the program.",
 ['inputs','fault_sequences'],"every input and every failure pattern of its lines",
 "The command has no tests.",
 ['cmd/sawmill/sawmill.go'],[('the line loop','cmd/sawmill/sawmill.go')],None,['sawmill'])
p('C29','Embedding entry points return errors to the host instead of crashing',
 "The C and WebAssembly entry points report undecodable or null pipelines, a missing pipeline, undecodable or null events and processing failures to the host as a message or status. They never use a pipeline or an event that failed to load.",
 ['inputs','histories'],"every call sequence with every input of the embedding host",
 "The examples are compiled but never run.",
 ['examples/c/cshared/main.go','examples/wasm/wasm.go'],[('Load, Process and pipeline_execute','examples')],None,['C host','JavaScript host'])
p('C30','Every documented option takes effect',
 "Every option that a processor or pipeline entry accepts influences how events are processed. No accepted option is silently ignored.",
 ['configurations','programs'],"every option of every processor and of pipeline entries",
 "Tests set few options, and an ignored option changes no test result.",
 ['pkg/pipeline/config.go',PP,'pkg/processor/append/process.go','pkg/processor/community_id/community_id.go','pkg/processor/set/process.go','pkg/processor/remove/process.go'],[('reads of each option in processing code','pkg/processor/*')],None,['Pipeline.Process'])
p('C31','Generators write complete output or fail, and keep hand-written code',
 "The code and documentation generators write an output file only after it was rendered (and formatted) completely, and end with an error otherwise. The code generator never adds a stub for a processor whose implementation was moved out of the generated file, and writes only to the file of the processor it renders.",
 ['inputs','fault_sequences'],"every definition file and every failure",
 "Only the detection of a hand-written Process method is tested.",
 ['pkg/processor/generate/generate.go','docs/generate/generate.go','internal/proctemplate/schema.go'],[('main functions of the generators','pkg/processor/generate/generate.go')],None,['go generate'])
p('C32','JSON encoding and decoding preserve the structure of events',
 "Every event encodes as a JSON object and every value as the JSON form of its type: arrays as arrays and objects as objects even if empty, timestamps as RFC 3339 strings in UTC with nanoseconds, nulls as null. Decoding JSON gives each value the type that corresponds to its JSON type and its exact content, including null members and elements, or returns an error.",
 ['inputs'],"every event and every JSON document",
 "Tests encode three small values and decode three small documents without nulls, empty containers or large numbers.",
 [E,V,'pkg/event/time.go'],[('MarshalJSON and UnmarshalJSON',V)],None,['json.Marshal','json.Unmarshal'])
p('C33','Community IDs match the Community ID specification',
 "For every network flow the community_id processor stores the identifier that the Community ID specification defines for the addresses, ports, protocol and seed of the flow.",
 ['inputs'],"every flow",
 "The processor has no tests (and no implementation).",
 ['pkg/processor/community_id/community_id.go'],[('Process (a stub today)','pkg/processor/community_id/community_id.go')],None,['Pipeline.Process'])
p('C34','The protobuf wire codec decodes what it encodes and rejects malformed input',
 "Encoding a well-formed message (as conversion and decoding make them) and decoding the bytes gives an equal message; the bytes are those that the declared schema (field numbers and wire types) prescribes, and fields that are not known are kept. Decoding arbitrary bytes gives a message or an error, without panicking, reading beyond the input, looping without progress or allocating more for a field than it has bytes; a well-formed field is accepted.",
 ['inputs'],"every message and every byte string",
 "One message is round-tripped.",
 ['pkg/serialization/protobuf/event.pb.go'],[('generated Marshal, Size and Unmarshal','pkg/serialization/protobuf/event.pb.go')],None,['proto.Marshal','proto.Unmarshal'])
p('C35','Memory and stack use stay proportional to the input',
 "Processing, converting and encoding use memory and stack proportional to the size and depth of their input, so that no small input exhausts the process.",
 ['inputs'],"every event and input line",
 "No test measures resources.",
 [E,'cmd/sawmill/sawmill.go'],[('recursion over values','pkg/event, pkg/eventutil, pkg/serialization')],None,['process limits'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in props))
print(len(props))
