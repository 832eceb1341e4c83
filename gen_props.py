#!/usr/bin/env python3
# one-off generator kept for maintainability: writes properties.jsonl
import json
P=[]
def add(id,title,stmt,over,text,why,files,mech,obs,state=None):
    assert len(title)<=80, title
    P.append(dict(id=id,title=title,statement=stmt,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)))

add("C01","Compact encoding of an argument value is lossless",
 "Every value of every supported argument type (all signed and unsigned integer widths, pointers, float, double, long double) that is written with the log's variable-length encoding is read back bit-for-bit equal. Reading consumes exactly the bytes that writing produced, never more than the type's documented worst case, for values encoded singly and for any sequence of values sharing the packed length nibbles.",
 ["inputs"],"all values of all supported scalar types, all sequences of up to 4 (thorough: 6) mixed values",
 "PackerTest samples a few dozen values; the encoding has 8 length classes times a negation rule per type, so the boundary values (powers of 256, minimum values, negatives) are a measure-zero subset of 2^64.",
 ["runtime/Packer.h"],[("pack/unpack overloads","runtime/Packer.h"),("Nibbler","runtime/Packer.h"),("getSizeOfPackedValues","runtime/Packer.h")],
 ["return code and cursor of the encode call","value and cursor of the decode call"])

add("C02","Each message's id and timestamp survive compression",
 "For every log-site id, timestamp and previous timestamp (including time running backwards or wrapping), the compressed per-message header decodes to the same id and timestamp. Decoding consumes exactly the bytes encoding produced and encoding never produces more than the space that is reserved for it.",
 ["inputs"],"all 2^32 ids, all pairs of 64-bit timestamps",
 "LogTest uses a handful of hand-picked headers; correctness depends on how the 32-bit id and the signed 64-bit time difference fall into length classes.",
 ["runtime/Log.h","runtime/Packer.h"],[("compressLogHeader/decompressLogHeader","runtime/Log.h")],
 ["bytes written to the compressed stream","decoded id and timestamp"])

add("C03","A decoded C++17 message equals printf of the original arguments",
 "A message logged through the C++17 interface and then decompressed prints exactly what printf would have printed for the same format string and argument values at the time of the call. This covers integers of every length, pointers, characters, floating point, narrow and wide strings, literal text and escapes, and static or run-time (*) widths and precisions.",
 ["inputs","programs"],"all argument values, all strings up to the length bound, over a family of format strings that exercises every conversion, length modifier and width/precision form, alone and in sequence",
 "Tests format a fixed list of messages with fixed arguments; the value-dependent encodings of several arguments interact (shared nibbles, string lengths, stored precision).",
 ["runtime/NanoLogCpp17.h","runtime/Log.h","runtime/Log.cc","runtime/Packer.h"],
 [("store_arguments/compress/getArgSizes","runtime/NanoLogCpp17.h"),("decompressNextLogStatement","runtime/Log.cc"),("createMicroCode","runtime/Log.cc")],
 ["text written to the output stream by the decompressor"])

add("C04","Compile-time and run-time readings of a format string agree",
 "For every valid printf format string, the application-side (compile-time) analysis and the decompressor's analysis find the same conversions: the same number of arguments, the same kind for each one (integer, string with or without a precision, run-time width or precision) and the same number of packed length nibbles. The literal text and conversions that the decompressor replays, put together in order, are the original format string.",
 ["inputs","programs"],"every printf-valid format string up to the length bound over an alphabet covering every syntactic class, at arbitrary positions",
 "Tests list some format strings; disagreement on a single unusual specifier (flag order, '%%', '%.f', length modifiers, backslashes) desynchronises the whole remaining log.",
 ["runtime/NanoLogCpp17.h","runtime/Log.cc"],
 [("getParamInfo, countFmtParams, getNumNibblesNeeded","runtime/NanoLogCpp17.h"),("createMicroCode, getFormatType","runtime/Log.cc")],
 ["argument metadata computed for the call site","print fragments stored in the decompressor's dictionary"])

add("C05","Preprocessor mode: format analysis matches printf syntax",
 "For every valid printf format string, the preprocessor identifies exactly the conversions that printf would perform, with the right C type for each argument, and splits the string into fragments whose concatenation is the original string. It rejects, with an error at build time, what it does not support instead of generating wrong code.",
 ["inputs","programs"],"every format string up to the length bound over an alphabet covering every syntactic class",
 "UnitTests.py lists a few dozen strings; the parser walks strings of unbounded variety character by character.",
 ["preprocessor/FunctionGenerator.py"],[("parseTypesInFmtString, splitAndParseTypesInFmtString","preprocessor/FunctionGenerator.py")],
 ["types and fragments returned for a format string"])

add("C06","Preprocessor mode: C source arguments are extracted faithfully",
 "For every log statement in a C/C++ source text, the preprocessor's idea of where each argument starts and ends agrees with the C grammar (nested parentheses, brackets, braces, string and character literals with escapes, across lines), and the text of a string-literal argument is the concatenation of its literals.",
 ["inputs","programs"],"every argument list up to the length bound over an alphabet covering every syntactic class; every string literal up to the bound",
 "UnitTests.py samples a few statements; delimiter nesting and escape handling is a state machine over arbitrary source text.",
 ["preprocessor/parser.py"],[("parseArgumentStartingAt, parseLogStatement, extractCString, separateByQuotes","preprocessor/parser.py")],
 ["argument boundaries and extracted format string"])

add("C07","Preprocessor mode: generated code round-trips every argument",
 "For a log statement processed by the preprocessor, the generated application-side code records its arguments such that the generated decompression code prints exactly what printf would have printed for those values at the time of the call. Recording, compressing and decompressing each touch exactly the space that was reserved, and recording is skipped exactly when the statement's severity is above the current log level.",
 ["inputs","programs","configurations"],"all argument values and all strings up to the length bound, for generated code of a family of format strings covering every supported conversion",
 "The integration test runs a fixed application once; the generated C++ depends on both the format and on argument values (string precision, NUL placement, wide strings).",
 ["preprocessor/FunctionGenerator.py","runtime/Packer.h"],[("generateLogFunctions","preprocessor/FunctionGenerator.py")],
 ["text printed by the generated decompression function"])

add("C08","Staging buffer is an exact single-producer single-consumer FIFO",
 "For every sequence of messages and every interleaving of the logging thread with the background thread, the bytes handed to the background thread are exactly those the logging thread published, in order, once each. Space handed to the logging thread always lies inside the buffer, is large enough, and never overlaps bytes not yet consumed; unpublished bytes are never visible; a thread's buffer is only reported reclaimable when the thread has ended and everything in it has been consumed.",
 ["schedules","inputs","histories"],"all interleavings of producer and consumer steps at memory-access granularity within the context-switch bound, from an arbitrary consistent buffer state, with arbitrary sizes up to the real capacity",
 "Tests drive the buffer from one thread with fixed sizes; wrap-around exactly at the end, full/empty ambiguity and stale cached positions need specific sizes and interleavings.",
 ["runtime/RuntimeLogger.h","runtime/RuntimeLogger.cc"],[("StagingBuffer::reserveProducerSpace/reserveSpaceInternal/finishReservation/peek/consume/checkCanDelete","runtime/RuntimeLogger.h, runtime/RuntimeLogger.cc")],
 ["addresses and sizes returned by reserve and peek"],
 [dict(name="producerPos/consumerPos/endOfRecordedSpace",meaning="ring positions",where="runtime/RuntimeLogger.h")])

add("C09","Compressing a buffer moves whole messages and stays in bounds",
 "For every content of a thread's staging buffer and every amount of free output space, one compression step consumes a whole number of complete messages from the front, reports exactly how many bytes it consumed, never writes outside the output space, and leaves output that decodes to exactly the consumed messages of that thread, in order. Messages not consumed remain for the next step, so no message is lost, duplicated or split.",
 ["inputs","histories"],"all message contents and sizes, all output capacities, all buffer ids up to the bounds (up to 3 messages per step, 2 steps)",
 "Tests use a few capacities; the space checks combine worst-case estimates of header, arguments, dictionary and extent bookkeeping, and fail only at particular remaining sizes.",
 ["runtime/Log.cc","runtime/Log.h"],[("Encoder::encodeLogMsgs, encodeBufferExtentStart, swapBuffer","runtime/Log.cc"),("Decoder::readBufferExtent","runtime/Log.cc")],
 ["bytes consumed, bytes encoded, decoded messages"])

add("C10","The log's dictionary reproduces every call site's static information",
 "The dictionary that is written into the log gives back, for each registered call site, its own id, severity, file, line and format string; sites get ids densely in registration order, and a site registered later is emitted before any message that refers to it. When the output space cannot hold every entry, a prefix of whole entries is written and the rest follow later, none lost or repeated.",
 ["inputs","histories"],"all file names, line numbers, severities and formats up to the length bounds, all output capacities, up to 3 sites over 2 flushes",
 "Tests register a few fixed sites into large buffers.",
 ["runtime/Log.cc","runtime/Log.h","runtime/RuntimeLogger.cc"],[("Encoder::encodeNewDictionaryEntries","runtime/Log.cc"),("Decoder::readDictionaryFragment, createMicroCode","runtime/Log.cc"),("registerInvocationSite","runtime/RuntimeLogger.cc")],
 ["dictionary entries seen by the decompressor"])

add("C11","Sorted decompression prints every message once, in time order",
 "Decompressing a complete log in sorted mode prints every logged message exactly once, messages of one thread stay in the order they were logged, and messages from different threads appear in timestamp order as long as each thread's own timestamps are in order and every message logged before some block was written is itself written by the second later visit of its thread's buffer (the most that the logger's two-part ring read-out can delay it). Several executions appended to one log file are printed one after the other, each with its own dictionary and clock.",
 ["inputs","histories"],"all assignments of timestamps and distributions of messages over threads, output passes and executions within the bounds",
 "Tests merge a few hand-written extents; heap merge order, stage rotation and end-of-file draining depend on how messages are distributed over extents.",
 ["runtime/Log.cc"],[("Decoder::decompressTo, internalDecompressUnordered, BufferFragment","runtime/Log.cc")],
 ["sequence of messages printed"])

add("C12","Unsorted and message-by-message decompression lose nothing",
 "Reading a complete log in unsorted mode or one message at a time through the decoder interface yields every message exactly once, with its own id, timestamp and arguments, in the order written, and then reports the end of the log. Opening a (different or the same) file again with the same decoder starts from a clean state.",
 ["inputs","histories"],"all message contents and all distributions over extents and executions within the bounds",
 "Tests read fixed small logs once.",
 ["runtime/Log.cc","runtime/Log.h"],[("Decoder::decompressUnordered, getNextLogStatement, open","runtime/Log.cc")],
 ["sequence of messages printed or returned"])

add("C13","A log cut off at any byte still yields its complete prefix",
 "If the log file ends at an arbitrary byte (crash or full disk), decompression terminates without accessing memory out of bounds or inventing messages: it outputs the messages of every block that was completely written before the cut, in the same order as for the full log, and then stops.",
 ["crash_points","inputs"],"every truncation point of logs with symbolic message contents within the bounds",
 "No test truncates a log; every byte offset is a separate case.",
 ["runtime/Log.cc","runtime/Log.h"],[("Decoder::readDictionary, readBufferExtent, readCheckpoint, BufferFragment","runtime/Log.cc")],
 ["messages printed for the truncated file"])

add("C14","sync() returns only after the caller's earlier messages are on file",
 "When a thread's call to sync() (or the flush at process exit) returns, every message whose logging call returned before it, by whichever thread, has been handed to the log file that was set at the time. This holds for every schedule of logging threads, thread exits and the background thread; no call blocks for ever while the background thread can run.",
 ["schedules","histories"],"all interleavings at synchronisation granularity of up to 3 logging threads with small message histories and the background thread, including thread exits",
 "Tests use one or two threads with real timing and cannot force a buffer to be reclaimed in the middle of a pass.",
 ["runtime/RuntimeLogger.cc","runtime/RuntimeLogger.h"],[("compressionThreadMain, sync_internal, setLogFile_internal, ~RuntimeLogger","runtime/RuntimeLogger.cc"),("StagingBufferDestroyer","runtime/RuntimeLogger.h")],
 ["contents of the log file at the return of sync()"])

add("C15","Severity filtering records exactly the enabled messages",
 "A message is recorded exactly when its severity is at or below the current log level at the time of the call, for every level including values out of range, which are clamped to the nearest valid level. Disabled messages leave no trace in the log and their arguments are not copied.",
 ["inputs","histories","configurations"],"all integer level arguments, all severities, sequences of up to 3 level changes and log calls",
 "Tests check a few level values.",
 ["runtime/RuntimeLogger.cc","runtime/NanoLogCpp17.h","runtime/NanoLog.h"],[("setLogLevel_internal","runtime/RuntimeLogger.cc"),("NANO_LOG macro","runtime/NanoLogCpp17.h")],
 ["reserved bytes after the call","value returned by getLogLevel"])

add("C16","Decoded message arguments are stored and returned faithfully",
 "When log arguments are delivered to a user's aggregation callback or read from a decoded message, each argument is returned with exactly the value that was stored, for any number of arguments, and the message's id, timestamp and argument count are right also when the message object is reused.",
 ["inputs","histories"],"all argument values, any number of arguments up to 16, reuse of the object up to 2 times",
 "Tests push a fixed number of arguments of fixed values.",
 ["runtime/Log.h","runtime/Log.cc"],[("LogMessage::push/get/reserve/reset","runtime/Log.h, runtime/Log.cc")],
 ["values returned by the message accessors"])

add("C17","Timestamps are converted to wall-clock time consistently",
 "For every timestamp, the wall-clock prefix the decompressor prints is the recorded calibration point plus the elapsed ticks at the recorded tick rate, with the nanoseconds field always between 0 and 999999999 and earlier timestamps never shown as later. This holds for timestamps before and after the calibration point.",
 ["inputs"],"all 64-bit timestamps within +-2^53 ticks of the calibration point for a set of tick rates",
 "Tests look at a few timestamps; boundary cases sit at second boundaries and before the calibration point.",
 ["runtime/Log.cc"],[("decompressNextLogStatement","runtime/Log.cc")],
 ["seconds and nanoseconds printed for a message"])
add("C18","Preprocessor mode: all log statements are found, all other code is kept",
 "For every C++ source file (after the C preprocessor), the NanoLog preprocessor replaces each call of NANO_LOG outside literals exactly once, with the level, format, file name and line number it has in the user's source (as given by the line markers), and passes its arguments on unchanged. Every other token of the file comes out unchanged, in order, and under the same file and line for the compiler's messages; text in string or character literals and names that merely contain NANO_LOG are left alone. A statement it cannot process is reported as an error, never dropped.",
 ["inputs","programs"],"source files of several shapes with arbitrary characters in their open places, up to the bound",
 "UnitTests.py and the integration test run over a few fixed files; what surrounds a statement on its lines is arbitrary text.",
 ["preprocessor/parser.py"],[("processFile, peekNextMeaningfulChar","preprocessor/parser.py")],
 ["the preprocessed file's tokens with their file and line; the calls for code generation"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
