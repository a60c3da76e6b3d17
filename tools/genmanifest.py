#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables below and properties.jsonl."""
import json, os
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH = "path-sensitive abstract interpretation of the SSA form (dataflow and typestate) to a fixpoint"
TRUST = " Assumes the Go type checker, x/tools SSA construction, the checker's models of the standard library calls involved, and no unsafe code or data races."
CLAIMS = {
 'C01': (PATH, "Every path of Put and TryPut (and of the types that pass them on), for all keys, events and values: final store, intermediate objects, untouched siblings, returned value and errors are compared with the specification; the walk's loop is closed by inferred depth invariants of its cursors."),
 'C02': (PATH, "Every path of Get (and of the types that pass it on) for all keys and events: result and absence evidence compared with the specification, no store into existing memory."),
 'C03': (PATH, "Every path of Delete (and of the types that pass it on) for all keys and events: the only removal is the last segment from the parent the walk reached; result and absence evidence compared."),
 'C11': (PATH, "Every path of Pipeline.Process against a three-outcome specification with arbitrary processor behaviour (havocked calls)."),
 'C12': (PATH, "Call order of processors as a typestate over every path of the process loops; loop indices proved to be 0, +1, ... to the length."),
 'C13': (PATH, "Decision table of the per-processor failure handling over every path, arbitrary processor and handler results."),
 'C14': (PATH, "No processor call is reachable from a state in which the event is dropped or cancelled."),
 'C15': (PATH, "Counter increments along every path of the per-processor wrapper compared with the outcome of that path, and the wiring of each counter field to its metric name."),
 'C16': (PATH, "The collector list is built over all nodes (list and node recursion, exactly once each); component ids are position-injective; names distinct."),
 'C07': (PATH, "Every path of both converters, one case per value type and per message kind: kind, exact content, arrays by index and objects by name for any size (loops closed by their recorded iterations), recursion by induction."),
 'C08': (PATH, "As C07 for plain Go values, plus the stores of ToEvent: one per member under its escaped name, errors returned."),
 'C09': (PATH, "Every path of the pair of mutually recursive conversions over an arbitrary interface and an arbitrary reflect.Value, per dynamic type and per kind; the fields, keys and elements loops closed; both entry points."),
 'C10': (PATH, "Every reflective operation (method of reflect.Value or reflect.Type, assertion, index) on every path of the conversion, of Register followed by NewProcessor, and of the pipeline's use of Config."),
 'C30': (PATH, "Every option (tagged field) of every registered processor's config and of pipeline entries: its value, followed from the registry through the constructor to Process or Config, decides what is read, written, returned or called on some path (relevance through path conditions); the documented cases of each option are decided on every path; entry options are followed into the built nodes and their use when events are run. Twelve recorded findings (stub processor, entry id and condition)."),
 'C27': (PATH, "For every call in the module that gives an error (known from its type; also line readers), on every path of the function that contains it and in every loop iteration: the error is known to be nil, or is part of what the function returns, stores for its caller, or gives to another function, or the function fails, or the error was asked for one of the documented classes (missing key, file that does not exist). Started goroutines may not return errors. Unexported helpers that deal with errors are followed at their callers. Trusted: what a function that is given an error does with it (logging, wrapping) is a report; library calls documented to give no error; failures of processors inside the pipeline are C12-C15."),
 'C31': (PATH, "Every path of both generators over any list of processors: each write to a file gets the complete result of a template execution (and format.Source) that succeeded, replaces the whole file, is checked, and the program ends with a failing status on any error; the target path is the folder and file named after the processor that was rendered; the stub is rendered exactly if the existing file holds a function declaration Process or does not exist. Also the text helpers of the templates (indentation, trimming) keep every line and their reader's bytes are not kept across reads. The templates themselves are data and are not analysed here (C21 compares what was generated)."),
 'C28': (PATH, "Every path of the tool's main function over an input of any number of lines and any behaviour of the pipeline: one new event per non-blank line with the trimmed line and its number (every line counts), processed once, written once in input order unless it is dropped or fails; each failure reported with the number; no end before the end of the input, and a failing exit if reading fails. Scanner, pipeline, encoder and logger are modelled by their documentation; what processing does inside is C11-C18."),
 'C20': (PATH, "Every path of Register, and of NewProcessor after every accepted registration (the stored closures are interpreted), and for an unregistered name; the package functions on the shared registry."),
 'C04': (PATH, "Every exported operation on events and values (pkg/event, pkg/eventutil, both converters) and every built-in processor: each instruction that can panic, on every path, over arbitrary contents. Not covered: configuration code based on reflection (C10), stack exhaustion by unbounded nesting, calls on a nil event."),
 'C05': ("simulation between the SSA form of the code and a reference automaton: path-sensitive abstract interpretation between loop headers, the simulation relation found by search over the loop variables", "Every transition between loop headers of the function that takes a key apart and of EscapeKey, for keys of any length: position, finished segments, current segment and escape state related to the reference automaton at each header, the result compared at each return. Library functions are known only where their result is obvious (Replace, Split+Join, Builder)."),
 'C06': (PATH, "Every value type, one case each, through the type names (package initialisation interpreted), constructors, Format, MarshalJSON, Clone and both directions of the protobuf and map converters: the tag and the payload of that type and no other."),
 'C32': (PATH, "Every path of the five JSON methods, one case per value type and per kind of JSON document, with encoding/json modelled by its documented contract; the loops over elements and members closed."),
 'C18': ("effect and escape analysis: the origin of every written object and of everything reachable from every stored value, on every path of an abstract interpretation of the SSA form", "All code that runs while an event is processed: the pipeline, each registered processor after its constructor, the operations of the event and the deep copy. Counters (Prometheus types) are the only exempt shared state."),
 'C19': (PATH, "The names of every field of a definition in YAML and JSON (tags and custom methods of all types a definition consists of), and every path of decoding and encoding a processor's options as JSON, for documents with any members: the named fields, each other option exactly once under its name, every decoding error. Two differences between the formats are recorded as known findings (float64 numbers, case-insensitive names)."),
 'C21': ("consistency analysis of the definition file against the type-checked program (tags and types of the configuration, import closure of the tool, dominance of the registration in the package initialiser) and the documentation; InitDefaults, Validate and the constructors by path-sensitive abstract interpretation", "Every defined processor and option: registration, linkage into the tool, option name, type, required flag, default (effect of InitDefaults on a zero configuration on every path), no rejection of a configuration with the required options set, its row in the README; every pipeline example in the README. Option descriptions are not compared."),
 'C22': (PATH, "Every path of the two processors over an arbitrary event and configuration: source looked up, missing-key and type errors without effect, the single Put of the converted source string under the target, its error returned."),
 'C23': (PATH, "Every path of set; Clone is verified separately to be a deep copy (each field of the value, every array element, every object member, recursively)."),
 'C24': (PATH, "Every path of eventutil.Append and of the append processor: the stored list is proved to be the existing elements in order followed by the new ones, for lists of any length."),
 'C25': (PATH, "Every path of remove over a field list of any length: one Delete per configured field, in order, until a missing one fails."),
 'C26': (PATH, "The Is, Error and matching methods of every error type of the repository, and every path of every built-in processor that reports a missing source field."),
 'C29': (PATH, "Every path of the entry points for C and JavaScript (found by their export directive and by js.FuncOf; the latter analysed as built for js/wasm) with arbitrary input and arbitrary results of decoding, building, processing and encoding; and of New and Process without a configuration, pipeline or event, with any failure of the construction. That an event that was decoded from JSON can be encoded again is assumed for the one panic in the WebAssembly example."),
 'C34': ("difference-bound analysis of every index, slice, allocation and loop of the decoders (demand-driven, inductive over loops, wrap-around considered), and abstract interpretation of the decoders and encoders against the schema read from the struct tags", "Every byte access, slice, allocation and loop of the five decoders and the skip function, for every input; every decoder interpreted per tag (each field number and one beyond, numbers that agree with a known one in some bits, each wire type): value, position after the field, what is rejected and that nothing well-formed is; every encoder and size function compared with the fields of the schema, any number of elements and members; the number encoding and its size. Round trip follows as both are the schema's. Depth of nesting (stack) is not bounded: C35. Lists without nil elements assumed."),
 'C17': (PATH, "Every path of New and the construction recursion: one processor per entry, in order, from that entry's data; each failure propagates."),
}
NA_FINAL = {
 'C33': "community_id is not implemented (its Process is a stub), and the identifier is a numerical result (SHA-1 over flow bytes) that no static rule bounds.",
 'C35': "A quantitative bound on memory and stack use over run-time sizes; no sound static argument in reach bounds it.",
}
PENDING = "No sound static check built yet: its clauses are being analysed (see DESIGN.md)."
props = [json.loads(l) for l in open(v+'/properties.jsonl')]
ids = [p['id'] for p in props]
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": [],
 "notes": "All checks are the one analyser bin/sawlint (checker/, vendored, built by build.sh); it reads /repo's current source on every run and executes nothing of it. Known findings: known_findings.txt. No hooks: /repo has only fix commits."}
for i in ids:
    if i in CLAIMS:
        t, n = CLAIMS[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}", "technique": t, "level": "other", "level_note": n+TRUST})
    else:
        m["not_applicable"].append({"property": i, "reason": NA_FINAL.get(i, PENDING)})
json.dump(m, open(v+'/MANIFEST.json', 'w'), indent=1); open(v+'/MANIFEST.json', 'a').write('\n')
print(len(m["checks"]), 'claimed;', [x['property'] for x in m['not_applicable']])
