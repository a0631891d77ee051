#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

PUB, ENC, CP, ERR = "encoding/cp949/public.go", "encoding/cp949/encoding.go", "encoding/cp949/cp949.go", "encoding/cp949/err.go"
TABS = ["encoding/cp949/lookup_from.go", "encoding/cp949/lookup_to.go"]
HAN = ["hangul.go", "jamo.go", "stroke.go", "constant.go", "hanja/hanja.go", "hanja/table.go"]
RST = [("pending source bytes", "bytes taken from the source and not yet decoded", PUB),
       ("decoded text", "text decoded and not yet handed to the caller", PUB),
       ("final error", "the error the source ended with", PUB)]
WST = [("pending text", "bytes of an incomplete trailing character", PUB)]
NOSTREAM = "The repository has no test that uses the package's stream reader or writer at all"

prop("C01", "Streamed decoding is the same however the source cuts and delays the bytes",
 "Reading a CP949 byte stream through the decoding reader yields exactly the UTF-8 decoding of those bytes, each character once and in order, and then end-of-stream; each undefined two-byte code becomes one U+FFFD. The result does not depend on how the source splits, delays or merges the bytes (also inside a two-byte character), on whether end-of-stream comes with the last data or after it, on what the source leaves in the unused part of the buffer it was given, or on the buffer sizes the caller reads with.",
 ["inputs", "schedules"], "every byte stream that ends on a character boundary, every segmentation and timing of its delivery, every sequence of caller buffer sizes and reading styles",
 NOSTREAM + "; one-shot conversion is tested on four strings.",
 [PUB, CP] + TABS, [("stream reader keeps undecoded and undelivered data between reads", PUB), ("translator from CP949", CP)], RST, ["the text the caller receives", "the caller's final error"])
prop("C02", "A failing source loses no text and is never mistaken for the end",
 "When the source of a decoding reader fails at any point, with or without data in the same read, the caller first receives every complete character the source had supplied, once and in order, and then that same failure, which every later read repeats. No text is lost, repeated or invented, and the failure never appears as a clean end-of-stream.",
 ["inputs", "schedules", "fault_sequences"], "every byte stream, every position and kind of source failure (also inside a character), every segmentation before it and every behaviour of the source after it",
 NOSTREAM + ", and none injects an I/O error.",
 [PUB, CP], [("final error is kept until pending data has been drained", PUB), ("translator reports how much it consumed", CP)], RST, ["the text received before the error", "the error and later reads"])
prop("C03", "A stream cut inside a character is reported as truncated",
 "When the source of a decoding reader ends cleanly after the first byte of a two-byte character, the caller receives every complete character before it and then the package's unexpected-stream error instead of a clean end-of-stream. A stream that ends on a character boundary never reports that error.",
 ["inputs", "schedules", "fault_sequences"], "every stream, every cut position, every segmentation and caller buffer sequence",
 "The only test of truncation is the one-shot conversion of a single byte; the stream reader is untested.",
 [PUB, CP, ERR], [("incomplete-character error of the translator", CP), ("end-of-stream handling of the reader", PUB)], RST, ["final error of the read sequence"])
prop("C04", "The decoding reader never withholds text, stalls, spins or ends early",
 "A read with a non-empty buffer asks the source for more only while the reader holds no complete undelivered character, always returns text or an error, and does so after a bounded number of source reads. Source reads that supply nothing and caller reads with an empty buffer neither end the stream nor lose or repeat text, and a source that keeps supplying nothing is reported as an error other than end-of-stream rather than polled forever.",
 ["inputs", "schedules", "fault_sequences"], "every stream and segmentation, every pattern of empty source reads and empty caller buffers, every peer that waits for the text before sending more",
 NOSTREAM + "; progress and blocking can only be seen with a source that delivers in pieces.",
 [PUB, CP], [("read loop: deliver, then fetch, then decode", PUB), ("translator reports partial progress", CP)], RST, ["source reads made per caller read", "counts and errors returned"])
prop("C05", "A stream never buffers more than its caller's own buffer sizes explain",
 "However long the stream and however slowly or in whatever pieces it is read, the bytes a decoding reader has taken from its source and not yet delivered, and the size of each read it asks of the source, stay below a fixed allowance plus a small multiple of the largest buffer the caller has used. An encoding writer keeps nothing between writes except at most one incomplete trailing character.",
 ["inputs", "schedules"], "every stream length, segmentation, caller buffer sequence and speed",
 "No test streams anything, let alone a long stream with a slow or oddly segmented peer.",
 [PUB, CP], [("undecoded remainder is moved to the front of the buffer", PUB), ("writer keeps only the unconverted tail", PUB)], RST + WST, ["source bytes taken minus source bytes delivered", "sink content after each write"])
prop("C06", "Streamed encoding is the same however the text is cut into writes",
 "Writing UTF-8 text through the encoding writer makes the sink receive exactly the CP949 encoding of the whole text, once and in order, with a single '?' for each character CP949 lacks and for each invalid byte. This holds for every cutting of the text into writes, also inside a character and with empty writes; every such write reports its full length, and the caller's data is neither modified nor used after the write returns.",
 ["inputs", "schedules"], "every text whose last character is complete, every segmentation into writes, every reuse of the caller's buffer between writes",
 NOSTREAM + "; one-shot conversion is tested on four fully encodable strings.",
 [PUB, CP] + TABS, [("writer carries an incomplete trailing character to the next write", PUB), ("translator to CP949", CP)], WST, ["bytes the sink received", "counts returned"])
prop("C07", "A failing sink is reported and never leaves wrong or repeated output",
 "When the sink of an encoding writer fails, or accepts fewer bytes than it was given, the write in progress returns an error and a count that covers no text whose encoding the sink did not take. What the sink holds is then a prefix of the correct encoding of the text so far, and issuing the write again after a failure in which the sink took nothing continues the stream as if the failure had not happened.",
 ["inputs", "schedules", "fault_sequences"], "every text and segmentation, every position, kind and sequence of sink failures (refused, partial, short without error), every retry",
 NOSTREAM + ", and none injects an error or a short write.",
 [PUB, CP], [("write hands converted bytes to the sink and keeps the tail only on success", PUB)], WST, ["bytes the sink received", "count and error of each write"])
prop("C08", "Acknowledged text survives a crash",
 "After every successful write the sink already holds the encoding of all text written so far except at most one incomplete trailing character, so stopping the process at any instant loses no acknowledged complete character. At every instant the sink holds a prefix of the encoding of the text written or being written, and a new writer that continues after the characters found whole in the sink completes the same encoding.",
 ["inputs", "crash_points", "histories"], "every text and segmentation, every crash instant (also in the middle of a write, with a torn last sink write), every number of crash and restart rounds",
 NOSTREAM + ", and none stops a process mid-write.",
 [PUB, CP], [("no output is buffered across writes except an incomplete character", PUB)], WST, ["sink content at the crash", "sink content after restart and completion"])
prop("C09", "The x/text decoder is exact for any buffer sizes",
 "The decoder obtained from the CP949 encoding produces exactly the decoding of its whole input, whether driven directly with any source and destination buffer sizes or through the standard streaming reader, writer and bytes/string helpers under any segmentation. It never writes or claims beyond the destination, never claims source it has not converted, and asks for more room or more input where needed instead of failing, panicking or substituting; a step whose source holds a complete character and whose destination has room for its conversion converts at least that.",
 ["inputs", "schedules"], "every input ending on a character boundary, every sequence of source and destination window sizes, every segmentation by the source or caller",
 "The existing test decodes four strings, each shorter than the internal buffer and delivered in one piece.",
 [ENC, CP, PUB], [("decoder transform step", ENC)], None, ["nDst, nSrc, err of each step", "the text produced"])
prop("C10", "The x/text encoder is exact for any buffer sizes",
 "The encoder obtained from the CP949 encoding produces exactly the CP949 encoding of its whole input, with a single '?' for each unencodable character or invalid byte, whether driven directly with any source and destination buffer sizes or through the standard streaming writer, reader and bytes/string helpers under any segmentation. It never writes or claims beyond the destination, never claims source it has not converted, and asks for more room or more input where needed instead of failing, panicking or substituting; a step whose source holds a complete character and whose destination has room for its conversion converts at least that.",
 ["inputs", "schedules"], "every UTF-8 or invalid input, every sequence of source and destination window sizes, every segmentation by the source or caller",
 "The existing test encodes four strings, each in one write and smaller than the internal buffer.",
 [ENC, CP, PUB], [("encoder transform step", ENC)], None, ["nDst, nSrc, err of each step", "the bytes produced"])
prop("C11", "x/text pipelines report failures and truncation without losing text",
 "When the source or sink of a streaming pipeline built from the CP949 decoder or encoder fails at any point, everything completely converted before the failure is preserved exactly and the caller receives that failure. A decoded stream that ends cleanly inside a two-byte character delivers all the complete characters before it and then the package's unexpected-stream error; an encoded one ends with '?' for each byte of the incomplete character.",
 ["inputs", "schedules", "fault_sequences"], "every input, every failure position and kind on either side, every truncation point, every segmentation",
 "No test injects a failure or a truncated stream into a pipeline.",
 [ENC, CP, ERR], [("transform steps report progress together with the error", ENC)], None, ["data preserved on the far side", "error reported"])
prop("C12", "A decoder or encoder that is reset behaves like a new one",
 "A decoder or encoder that was abandoned at any point of a stream, also after a failure or inside a character, and is then reset converts the next stream exactly as a new one would. Decoders and encoders obtained from one shared encoding value, used in any interleaving, never influence each other.",
 ["histories", "fault_sequences", "schedules"], "every history of streams started, failed, abandoned and reset on one coder; every interleaving of several coders from one encoding value",
 "The tests use each decoder and encoder for one complete stream only.",
 [ENC], [("coders keep no state between steps", ENC), ("Reset", ENC)], None, ["output of the stream after the reset"])
prop("C13", "Concurrent callers get isolated, race-free results",
 "Any number of callers that concurrently use the package functions, and streams and coders of their own, each obtain exactly the results they would obtain alone, under every interleaving. No such use contains a data race.",
 ["schedules", "inputs"], "every interleaving, at statement granularity, of any calls of the public functions of all three packages and any private streams and coders",
 "All tests are single-threaded; no schedule is ever varied.",
 [CP, PUB, ENC] + HAN, [("package-level tables are only read", "encoding/cp949/lookup_from.go"), ("each stream and conversion has its own working buffer", CP)],
 [("package-level tables", "shared by all callers", "jamo.go")], ["results of each caller", "happens-before order of memory accesses"],
 None)
prop("C14", "Results depend on arguments alone and belong to the caller",
 "What a call of a package function returns is determined by its arguments: it is the same after any history of other calls and streams as in a fresh process. Data returned to a caller stays unchanged by later activity and may be overwritten by the caller without affecting any later result, and buffers a caller passes in are not modified beyond what the call is documented to fill, nor used after the call returns.",
 ["histories", "inputs"], "every history of calls and streams over all three packages, with callers overwriting returned and passed buffers at any time",
 "Each test makes a few calls and never writes to what it was given.",
 [CP, PUB, ENC] + HAN, [("package-level tables are never written", "jamo.go"), ("fresh output buffer per conversion", PUB)],
 [("package-level tables", "shared by all calls", "jamo.go")], ["results of repeated calls", "earlier results re-read later"])
prop("C15", "A stalled or crashing stream never holds up or disturbs other callers",
 "When the source or sink of some callers' streams blocks forever, panics or ends its caller's goroutine in the middle of an operation, every other caller still completes all its calls and streams within a bounded number of steps and with unchanged results.",
 ["schedules", "fault_sequences"], "every interleaving of callers, every subset of them whose stream blocks, panics or exits, at any point of any operation",
 "No test has more than one caller or a peer that does not answer.",
 [PUB, ENC, CP] + HAN, [("no lock or shared buffer is held while a source or sink is called", PUB)], None, ["completion and results of the unaffected callers"])
prop("C16", "Text sent over a faulty connection through writer and reader arrives intact",
 "Text that CP949 can represent, written through an encoding writer at one end of a connection and read through a decoding reader at the other, arrives complete and identical whatever delay, resegmentation, loss with retransmission, duplication, reordering, partition or reconnection the transport goes through, and within a bounded time once faults stop. In a request/reply dialogue neither side waits forever for text the other has already written.",
 ["inputs", "schedules", "fault_sequences", "histories"], "every representable text, every segmentation on both sides, every sequence of transport faults and reconnections at any point, every dialogue",
 "No test connects the writer and the reader, and none has a transport.",
 [PUB, CP] + TABS, [("writer holds back only an incomplete character", PUB), ("reader delivers every complete character", PUB), ("tables are inverse to each other", "encoding/cp949/lookup_to.go")], RST + WST, ["text received", "simulated time of completion"])
prop("C17", "Streams can be stacked and used from inside a source or sink",
 "A source or sink may itself use the package: while one of its Read or Write calls is in progress it may call any package function and use other streams and coders, and a stream may itself be the source or sink of another. Every call made so completes with the result it has alone, the stream that is waiting continues unharmed, and stacked streams convert exactly as applying their conversions one after the other would, passing failures through.",
 ["histories", "inputs", "fault_sequences"], "every use of the package made from inside a Read or Write of any stream's source or sink, nested to any depth; every stack of decoding and encoding streams, every segmentation, delay and failure at its far end",
 "No test uses a stream at all, let alone from inside another one.",
 [PUB, ENC, CP] + HAN, [("no lock, shared buffer or in-use marker spans a call of a source or sink", PUB), ("coders keep no state between steps", ENC)], RST + WST, ["results of the nested calls", "what the outer stream delivers", "text at the far end of a stack"])
prop("C18", "Streams and calls leave nothing behind",
 "A stream or coder that has ended, failed or been given up by its caller at any point, and a call that has returned, leaves nothing running and nothing held. However many have come and gone, the goroutines the package keeps running, the sources, sinks, buffers and coders of earlier streams it still refers to, and the memory it keeps stay below a fixed limit that does not depend on how many there were.",
 ["histories", "fault_sequences", "inputs"], "every history of any length of streams, coders and calls, each ended, failed, panicking or given up at any point, with the same or with ever different texts",
 "No test makes more than a few calls, and none looks at what remains afterwards.",
 [PUB, ENC, CP] + HAN, [("readers, writers and coders are known to their caller only; there is no registry, goroutine or cache", PUB)], RST + WST, ["goroutines alive", "sources, sinks, buffers and coders still reachable", "memory in use after collection"])
prop("C19", "Time and clocks do not matter",
 "No call, read or write takes time of its own: it waits only while its source or sink makes it wait. What it does, and what later ones do, depends neither on the time of day, nor on how long sources, sinks and callers pause before, during and between operations, nor on the clock being set forward or back meanwhile.",
 ["histories", "schedules", "inputs", "fault_sequences"], "every history of calls and streams with pauses of any length at any point, every setting of the clock at the start and while they go on",
 "Tests run in an instant at whatever time it is; no test waits.",
 [PUB, ENC, CP] + HAN, [("neither clock, timers nor sleeping are used", PUB)], RST + WST, ["results", "simulated time taken", "what sinks receive afterwards"])

prop("C20", "Streams only read their source and write their sink, whatever else those can do",
 "A stream uses its source and sink only while its caller has an operation on that stream in progress, one Read or Write at a time, and not after it was left, nor when it is collected as garbage. It never closes, moves, resets or otherwise disturbs them, so that the caller can go on using them itself between operations. Of whatever type a source or sink is, whatever further methods it has and however those fail, the stream does what it does over a plain reader or writer with the same bytes.",
 ["inputs", "histories", "fault_sequences", "schedules"], "every type and method set of sources and sinks, every use of them by their owner between operations, every point at which a stream is left or memory is collected",
 "No test gives a stream anything but one kind of source or sink, and none looks at it afterwards.",
 [PUB, ENC], [("sources and sinks are known only as io.Reader and io.Writer", PUB), ("neither goroutines nor finalizers are used", PUB)], RST + WST, ["uses of the source and sink", "their state after each operation", "text delivered"])

prop("C21", "The process around the package does not matter and is left as it is",
 "What a call returns, and what a stream delivers, writes and reports, depends on nothing but its arguments and the source or sink it is given: not on environment variables, the command line, registered flags, working directory, host, user, locale or time zone, files that are or are not there, the number of processors or goroutines, memory in use, settings of package log, nor on where it is called from (deep in the stack, in a deferred function while its caller panics, on a locked thread). Neither package initialisation nor any call or stream prints anything, reads the standard input, creates, changes or removes files, changes the environment, working directory, standard streams, logging, scheduling or garbage collection settings, signal handling, the shared random generator or variables and tables of other packages, swallows its caller's panic, or ends the process.",
 ["inputs", "histories", "fault_sequences", "schedules"], "every environment, command line, file system and machine the process may find itself in, changing between operations, and every call and stream in it",
 "The tests run in one environment and look at nothing but results.",
 ["hangul.go", "jamo.go", "stroke.go", "hanja/hanja.go", PUB, ENC, CP], [("no package imports os, log, flag or runtime; initialisation only builds tables", PUB), ("lookup tables are the package's own", "hanja/table.go")], RST + WST, ["results in one environment and in another", "standard streams", "what the process shares", "attempts to change the process"])

prop("C22", "Work grows in proportion to the text",
 "Reading, writing, encoding or decoding a text, whatever its length and whatever pieces of limited size it arrives or is asked for in, and every function that takes a string, does an amount of work and allocates an amount of memory that grows no faster than in proportion to the length of the text: with a text many times as long a call or stream ends within proportionally many more steps, so that nothing is gone through or copied again and again.",
 ["inputs", "histories", "fault_sequences"], "every text and length, every way of splitting it over reads and writes",
 "The tests use texts of a few dozen characters, with which any growth looks the same.",
 ["hangul.go", "hanja/hanja.go", PUB, ENC, CP], [("each byte is converted once and dropped", PUB), ("one pass over the runes of a string", "hanja/hanja.go")], RST + WST, ["steps taken", "bytes allocated"])

PURE = "Pure function of its input: {}"
prop("P01", "Composing and decomposing syllables are inverse",
 "Splitting any precomposed Hangul syllable and joining the parts gives the syllable back, joining any lead, medial and optional tail gives the syllable Unicode defines, and joining anything else gives U+FFFD.",
 ["inputs"], "all 11172 syllables, all triples of code points", "A handful of syllables are tested.", ["hangul.go", "jamo.go"], [("index arithmetic", "hangul.go")])
prop("P02", "Jamo classification and conversion agree with Unicode",
 "Classification of a code point as Hangul, consonant, vowel, lead, medial or tail, and conversion between compatibility and conjoining jamo, agree with the Unicode character database for every code point.",
 ["inputs"], "all code points", "A few boundary values are tested.", ["jamo.go", "hangul.go", "constant.go"], [("tables and ranges", "jamo.go")])
prop("P03", "Stroke counts are additive",
 "The stroke count of a syllable is the sum of the counts of its parts, and that of a compound jamo the sum of the counts of its elements.",
 ["inputs"], "all syllables and jamo", "Nine values are tested.", ["stroke.go", "jamo.go"], [("recursive count", "stroke.go")])
prop("P04", "Postpositions follow the last consonant",
 "A word takes the with-consonant form of a postposition exactly when its last character is a syllable with a tail consonant, except that a word ending in rieul takes the plain form of '-(eu)ro'.",
 ["inputs"], "all words and postposition pairs", "About ten words are tested.", ["hangul.go"], [("last consonant", "hangul.go")])
prop("P05", "Hanja conversion maps exactly the known hanja",
 "Converting a string replaces each character recognised as hanja by its Hangul reading and leaves every other character alone.",
 ["inputs"], "all strings", "One sentence is tested.", ["hanja/hanja.go", "hanja/table.go"], [("table", "hanja/table.go")])
prop("P06", "One-shot conversion implements the CP949 mapping",
 "One-shot conversion in either direction agrees with Microsoft code page 949 on every defined code, the two directions are inverse on them, and everything else becomes the replacement character of the target.",
 ["inputs"], "all byte strings and all UTF-8 strings", "Four strings and the sort order of the tables are tested.", [CP] + TABS, [("lookup tables", "encoding/cp949/lookup_from.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
