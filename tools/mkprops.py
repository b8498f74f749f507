#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for titles and statements)."""
import json, os
J="jscandec.go"; A="append_type_stack.go"; U="internal/unescape/unescape.go"; N="internal/jsonnum/jsonnum.go"; T="internal/atoi/atoi.go"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=hook)))
HOOK="statement-boundary yield hook, inserted into a build overlay by the check (nothing is committed to the repository)"
p("C01","A reused decoder behaves exactly like a newly created one",
 "Whatever calls a decoder has served before - successes, rejected documents, type mismatches, user unmarshalers that failed or panicked, nil destinations, other options - its next call returns the same error and error position, and leaves the same destination contents, as a newly created decoder of that type would for the same input, options and destination. No call, however it ended, changes the meaning of a later one.",
 ["histories","fault_sequences"],"all sequences of calls on one decoder, with a failure, panic or goroutine exit injected at any user callback and with damaged, mistyped or nil arguments anywhere in the sequence",
 "The tests mostly decode once per decoder (two or three times at most) and never reuse one after a failure in the middle of a nested or recursive value or after a panic.",
 [J,A],[("per-call initialisation of run-time frame state and the deferred reset","jscandec.go Decode: deferred loop over stackExp; array/slice/map/struct entry code")],
 [("stackExp","flat frame table whose Dest, Offset, Len and RecursionStack fields are mutated by every call","jscandec.go stackFrame")],["Decode return values","destination after the call"])
p("C02","Decoders sharing one tokenizer do not influence each other",
 "Any number of decoders, for any destination types, may share one tokenizer as long as no two of their calls overlap: every call gives exactly the result it would give if each decoder had a tokenizer of its own. This holds whatever the other decoders were given before, including damaged documents and calls that failed or panicked half way.",
 ["histories","fault_sequences"],"all sequences of non-overlapping calls of several decoders over one tokenizer, with faults injected into any of the calls",
 "Tests share a tokenizer between at most two decoders for one valid document; no test interleaves failing and panicking calls of different decoders on one tokenizer.",
 [J],[("the token buffer is only used inside the callback of one Tokenize call","jscandec.go Decode")],
 [("tokenizer","buffer and stack reused across calls","jscan.Tokenizer")],["Decode return values","destinations"])
p("C03","Concurrent use of separate decoders is isolated",
 "Goroutines that construct decoders, decode with decoders and tokenizers of their own, or call the one-shot unmarshal function, on separate destinations, obtain under every interleaving exactly the results they would obtain running alone, even though they share read-only inputs, options and destination types. They share no unsynchronised mutable state.",
 ["schedules"],"all interleavings, at statement granularity, of several goroutines each running its own history of constructions and calls",
 "The test suite runs everything on one goroutine at a time per decoder and the Go scheduler decides the few interleavings that occur; package-level state touched in a narrow window would pass.",
 [J,A,U,N,T],[("all mutable state hangs off the decoder and the tokenizer; package-level variables are read-only","jscandec.go package-level vars")],
 [("package-level variables","zero values, look-up tables, empty-struct address, default options","jscandec.go, internal/unescape, internal/atoi")],["results per goroutine","race detector with the simulator's hand-offs hidden"],HOOK)
p("C04","User unmarshalers may themselves decode without disturbing the outer call",
 "A user-supplied unmarshaler may, while the outer call is in progress, run any number of further decodes with other decoders or the one-shot function, to any nesting depth and with any outcome including failures and recovered panics. The outer call's result, and that of each inner call, is exactly what it would be without the others.",
 ["programs","fault_sequences"],"all nestings of inner calls at any user callback of an outer call, with inner calls succeeding, failing or panicking",
 "No test has an unmarshaler that decodes again with this package.",
 [J,U],[("run-time state is per decoder; no package-level scratch state","jscandec.go Decode")],[],["results of outer and inner calls","callback logs"],HOOK)
p("C05","Garbage collection and stack growth at any instant are invisible",
 "Whenever the garbage collector runs or a goroutine stack moves - between any two steps of a call, inside user unmarshalers, or later while the decoded value is in use - every decode gives the same result as without it. Everything reachable from a decoded value stays intact for as long as the value is referenced.",
 ["schedules"],"all placements of collections, stack growth and memory reuse between any two statements of a call and after it, for every destination type",
 "Collections happen at arbitrary moments the tests do not control, and almost never inside a microsecond-long call on a test-sized document.",
 [J,A],[("typed allocation of slices, maps and pointees; typed copies; destination pointers held as pointers","jscandec.go newarray/mallocgc/typedslicecopy/mapassign/makemap uses")],[],["decoded values after collections","fatal errors of the run-time system"],HOOK)
p("C06","A call writes only to its destination and to memory it allocates",
 "For every document, whether it is accepted or rejected, a call modifies only the destination value (including memory already reachable through its slices, maps and pointers, within their capacity) and memory newly allocated for it. Neighbouring variables and fields excluded from decoding, array elements outside a slice's capacity, the input bytes, and the options are never modified, and no memory outside live objects is read or written.",
 ["inputs","histories"],"all documents, destination types, prior destination contents (lengths, capacities, neighbours) and call histories, including failing calls",
 "The decoder computes addresses by hand; the tests compare only the decoded value, so a write one element too far or into the input buffer goes unnoticed.",
 [J,A],[("frame offsets, element sizes, lengths and the skipping of surplus array elements","jscandec.go ON_VAL_END, TokenTypeArray; append_type_stack.go")],[("Offset/Len/Cap/Size","hand-made pointer arithmetic","jscandec.go stackFrame")],["canaries around destinations and backing arrays","input and option bytes","address sanitizer reports"])
p("C07","Decoded values own their memory and never change afterwards",
 "After a call on a byte-slice input returns, the caller may overwrite or reuse the input, and any decoder or tokenizer may serve further calls, without any previously decoded value changing. Values decoded by different calls, and different parts of one decoded value, never share mutable memory, so modifying one never changes another.",
 ["histories"],"all histories of calls, input-buffer reuse and caller modifications of decoded values, over all destination types",
 "Tests look at a decoded value once, immediately, and never overwrite the input buffer or mutate one decoded value while watching another.",
 [J,U],[("strings are copied for byte-slice inputs; numbers, keys and raw texts likewise; fresh allocations per container","jscandec.go Decode; internal/unescape Valid")],[],["earlier decoded values after later events","memory footprints of decoded values"])
p("C08","A damaged document is rejected without leaving a trace",
 "If the input is not one well-formed JSON document - truncated, corrupted, with lost, repeated or reordered pieces, or followed by anything but white space - the call returns an error whose position lies within the input (or at its end), does not panic, leaves the destination exactly as it was and invokes no user unmarshaler. The decoder then serves the next call normally.",
 ["inputs","fault_sequences"],"all ways in which transport can damage a valid document, at every position, for every destination type and prior contents, anywhere in a decoder's history",
 "Tests use a handful of hand-written malformed inputs, most into a zero destination, and do not look at the destination or at callbacks afterwards.",
 [J],[("the whole document is tokenized before anything is decoded","jscandec.go Decode: Tokenize callback")],[],["error and position","destination snapshot","callback log"])
p("C09","User unmarshalers run exactly once, in order; the first failure ends the call",
 "Every value (or map key) destined for a user-supplied unmarshaler is delivered exactly once, in document order, as exactly its bytes in the document (its unescaped text for text unmarshalers), and values not destined for one are never delivered. The first unmarshaler that returns an error ends the call: that error is returned unchanged together with the position of the offending value and nothing more is delivered; a panic propagates unchanged.",
 ["inputs","fault_sequences"],"all documents and destination types with user unmarshalers in any position, with an error, panic or goroutine exit injected at any of the deliveries",
 "Tests have a few unmarshalers that always succeed or always fail; they count no deliveries and inject no failure at the n-th one.",
 [J],[("unmarshaler dispatch and token skipping","jscandec.go ON_JSON_UNMARSHALER, ExpectTypeTextUnmarshaler cases, map key assignment")],[],["delivery log","Decode return values"])
p("C10","A finished call keeps nothing alive",
 "Once a call has returned, failed or been unwound by a panic, neither the decoder, nor the tokenizer, nor the package keeps its destination, anything decoded into it, its input or its options reachable. If the caller drops them, the collector reclaims them although decoder and tokenizer remain in use or idle.",
 ["histories","fault_sequences"],"all ways a call can end (success, every kind of rejection, error or panic at any user callback) at any point of a decoder's history, for every destination type",
 "Reachability is not observable by comparing values; no test drops a destination and checks that it is collected, least of all after a failed or panicking call.",
 [J],[("destination pointers are cleared when a call ends","jscandec.go Decode: deferred reset")],[("Dest, RecursionStack","pointers into the destination during a call","jscandec.go stackFrame, recursionStackFrame")],["finalizers of destination, decoded pointees, input and options"])
p("C11","Any history of decodes into live values matches encoding/json",
 "For destinations built from booleans, numbers, strings, any, structs, arrays, slices, maps, pointers, recursive structs and user unmarshalers, decoding a document into a value with arbitrary prior contents is accepted exactly when encoding/json accepts it and, when accepted, leaves the same value, including what it keeps, merges, replaces, truncates and resets, also as seen through references the caller holds to pointees and maps of the destination. Where a decode option rules out keys as names of fields, the document is decoded as if they were names of unknown fields. This holds at every step of any history of decodes into the same destinations.",
 ["histories","inputs"],"all histories of documents decoded into live destinations, for all destination types of the stated kinds except those listed as known findings",
 "The tests compare with encoding/json almost only on zero destinations and single documents; what remains of earlier contents after several decodes is not sampled.",
 [J,A,U,N,T],[("reuse of slices, maps, pointees and array elements; null handling; key matching; number and string conversion","jscandec.go Decode")],[],["destination compared with encoding/json after every step"])
p("C12","Every call ends within work proportional to its input, also after faults",
 "For every input - valid, damaged or adversarial - and after any history of failed and panicking calls, a call ends, and the number of steps it takes is at most proportional to the length of the input for a given destination type. Once faults stop, the next valid document is decoded successfully.",
 ["inputs","histories","fault_sequences"],"all inputs and call histories for each destination type; steps counted at every statement of the package",
 "A test that terminates says nothing about other inputs; a loop that does not advance, or rescans, on some nesting or after some failure is not sampled.",
 [J,U,N],[("every loop of the decode state machine advances the token index","jscandec.go Decode; fieldFrameIndexByName; decodeAny")],[],["step counter at statement hooks"],HOOK)
p("C13","All entry points agree: string or bytes, one-shot or reusable",
 "Decoding the same document into equal destinations through a byte-slice decoder, a string decoder, the one-shot function on bytes and the one-shot function on a string gives the same error, the same error position where one is reported, the same sequence of user-unmarshaler deliveries and equal destination contents. Replicas fed the same history through different entry points never diverge.",
 ["configurations","histories","fault_sequences"],"all histories of documents and injected callback failures fed in lockstep to replicas that differ only in the entry point",
 "Tests run both input kinds on their samples but only on zero destinations and without failing callbacks; specialised code for one input kind is compared on few documents.",
 [J,U],[("generic code specialised by input kind and Unmarshal built on Decode","jscandec.go Unmarshal, init; internal/unescape Valid")],[],["replica outcomes after every step"])
p("C14","Integer conversions reject exactly the values that do not fit",
 "For every destination integer width and signedness, an integer literal is accepted exactly when its value is representable, and the stored value is that value.",
 ["inputs"],"all integer literals for all integer destination types","Tests sample boundaries; the quantifier is all literals.",
 [T],[("digit accumulation and overflow tests","internal/atoi/atoi.go")])
p("C15","String unescaping is exact",
 "Every well-formed JSON string literal decodes to exactly the text it denotes, for every mix of escapes and raw characters.",
 ["inputs"],"all valid string literals","Tests sample a few dozen strings.",
 [U],[("escape tables and batch scanning","internal/unescape/unescape.go")])
p("C16","Struct tag and field-name rules decide which field a key selects",
 "For every struct type and tag, and every option setting, an object key selects the field the documented rules name: exact match first, then case-insensitive match, renamed, ignored and string-tagged fields as declared.",
 ["programs","inputs"],"all struct declarations and keys","Tests sample a few struct declarations; struct types are a compile-time input.",
 [A,J],[("field table construction and look-up","append_type_stack.go; jscandec.go fieldFrameIndexByName")])
p("C17","A value that does not fit is rejected, and reported at its position",
 "If the values of a well-formed document do not all fit the destination type - a value of another kind, a number out of range, a malformed quoted number, map key or base64 text, or an unknown field where they are disallowed - the call fails with the error for that kind of misfit and the position of the first such value or key in document order; otherwise it succeeds and reports no position. This holds for every depth, every destination type and whatever the decoder has served before.",
 ["inputs","histories"],"all documents with any number of misfitting values anywhere, for all destination types and options, after any history of calls of the decoder",
 "Tests check positions in single, shallow documents given to new decoders; positions below recursive types, in maps of maps, or after a failed call are not sampled.",
 [J,A],[("error positions are token positions of the value being decoded","jscandec.go Decode: errIndex")],[],["error and error position of every call"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
