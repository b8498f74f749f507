package main

type description struct{ rule, oracle string }

func buildMode() string {
	switch {
	case raceBuild:
		return "race"
	case asanBuild:
		return "asan"
	}
	return "normal"
}

var descriptions = map[string]description{
	"C01": {"a history of 2-9 calls on one decoder of a random destination type, with damaged and mistyped documents, failing, panicking and goroutine-ending user unmarshalers, nil destinations and changing options.",
		"every call is repeated with a newly created decoder on a deep copy of the destination: error, error position, deliveries and contents must be equal"},
	"C02": {"a history of 3-12 calls of 2-4 decoders of different destination types that share one or two tokenizers, with the same faults as C01.",
		"the same history with a tokenizer per decoder, executed in lock-step"},
	"C03": {"2-4 tasks, each with its own decoders and destinations but shared documents, options and types, interleaved by 2-300 seeded task switches at statements (also within decoder construction); the build has the race detector, to which the simulator's hand-offs are invisible.",
		"every task's history executed alone, the race detector, and unmodified shared inputs"},
	"C04": {"a history of 1-4 calls whose user unmarshalers run further decodes, nested up to three levels, with failures and panics inside.",
		"the outer calls without inner ones and every inner call alone"},
	"C05": {"a history of 1-4 calls with collections, stack moves and heap reuse injected before seeded statements, inside user unmarshalers and between calls; freed memory is clobbered.",
		"the same history without collections; decoded values re-read after further collections"},
	"C06": {"a history of 1-6 calls into destinations surrounded by guard words, with slices whose backing arrays extend beyond their capacity, inputs surrounded by guard bytes, fields excluded from decoding; built with AddressSanitizer.",
		"guards, excluded fields, inputs, options and other destinations compared byte by byte; AddressSanitizer for reads and writes outside of live objects"},
	"C07": {"a history of 2-7 calls whose input memory is overwritten after each call (or is one buffer for all calls), whose documents repeat, and whose values are modified by the caller.",
		"every value decoded so far is compared with what it was after its own call; the memory ranges of all decoded values and the input must be disjoint"},
	"C08": {"a history of 1-6 calls of which about 70 % are given documents damaged in transport: truncated, bits flipped, parts lost, duplicated, reordered, inserted, overwritten, or followed by more.",
		"encoding/json.Valid; deep comparison of the destination with what it was; a new decoder for the calls that follow"},
	"C09": {"a history of 1-5 calls with well-typed documents for types with user unmarshalers, of which the n-th fails, panics or ends its goroutine.",
		"a reference walk of the document along the destination type (itself compared with encoding/json on every document)"},
	"C10": {"a history of 1-5 calls that succeed, fail, panic or end their goroutine, each on memory of its own that is dropped afterwards while decoder and tokenizer stay in use.",
		"finalizers on the destination, what it held before, the decoded value, the input and the options must run at the following collections"},
	"C11": {"a history of 1-7 calls into destinations with arbitrary prior contents, through any entry point.",
		"encoding/json executed on a deep copy of the destination at every step; pointees and maps the destination referred to before are compared as well"},
	"C12": {"a history of failing calls (each failure repeated 24 times) followed by a document of which some part (elements, members, text, digits, white space, nesting) is repeated 8, 64 and 512 times.",
		"steps (statements executed), bytes given to library functions and allocated bytes must grow in proportion to the input; after faults the next valid document is decoded at the usual cost"},
	"C13": {"a history of 1-6 calls replayed to four replicas, one per entry point: bytes decoder, string decoder, one-shot on bytes, one-shot on a string.",
		"the replicas are compared with each other after every call: error, position, deliveries, contents"},
	"C17": {"a history of 1-7 calls of one or two decoders with larger documents in which a few values, map keys or fields do not fit.",
		"a reference walk of the document along the destination type for the first misfit; encoding/json decides about single values and keys"},
}
