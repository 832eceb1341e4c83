#!/usr/bin/env python3
"""Writes known_findings.json. Entries with status "fixed" suppress nothing; "known" ones identify one failing history."""
import json
F=[]
def fixed(prop, commit, what): F.append(dict(id="%s-%s"%(prop,commit),status="fixed",property=prop,commit=commit,what=what,text="fixed: property=%s %s %s"%(prop,commit,what)))
fixed("C03","a0ec09f","a message whose run-time width or precision is negative printed an error instead of the value")
fixed("C03","7e38c30","%.f (empty precision) was not recognised by the decoder, so the rest of the log was misread")
fixed("C03","3c7267a","a backslash before % made the decoder skip a conversion that the application recorded")
fixed("C03","be9bf10","a string argument limited by a precision was read past the precision (beyond its buffer)")
fixed("C02","5cc14d8","the reported size of a compressed header is wrong for 8-byte time differences")
fixed("C11","a61cecc","messages still buffered in later stages were decoded with the dictionary of the next execution")
fixed("C11","c1942be","an empty extent kept the timestamp of an earlier extent and held back the stage it was in")
fixed("C11","ee42969","a message was printed before the passes that may hold earlier messages were read")
fixed("C09","d919be9","a full staging buffer of incompressible arguments produced an extent that the decoder rejected")
fixed("C11","3bc18dc","a message logged before another one was printed after it when both sat at the edges of the buffered stages (5 extents of buffers 0,2,1,0,1)")
fixed("C12","d902ff1","messages of a previously opened file showed up after open() of another one (or its dictionary was used for them)")
fixed("C17","bc8c94a","the last half nanosecond of a second was printed as .1000000000 (tick rates above 2e9)")
fixed("C14","4bb4e00","reclaiming the buffer of an ended thread at which a pass had started ended that pass: sync() returned without the messages of the other buffers")
fixed("C14","86d4170","sync() returned after a spurious wake-up of its condition variable, before anything was written")
fixed("C07","de0346c","preprocessor mode: a format with a wide string limited by a precision produced code that does not compile (wcsnlen_s)")
fixed("C07","f054850","preprocessor mode: recording a string limited by a precision reads past the precision, beyond an unterminated argument")
fixed("C07","3800ea4","preprocessor mode: two statements on one line that differ only in level (or in encoding of their text) share a log id, so one is printed with the other's level or text")
fixed("C07","93c1b61","the dictionary of a second execution appended to a preprocessor-mode log was ignored, so its messages were printed with the first one's statements")
fixed("C06","2267b94","a format that ends in an escaped backslash (\"C:\\\\\") was reported as not a string literal")
fixed("C06","3cff442","preprocessor: quotes, commas and brackets in character literals (')', '\"') were taken for those of the code, so the end of a statement was missed")
fixed("C18","58be5e2","preprocessor: a call of a function whose name ends in NNANO_LOG was treated as a log statement; a file ending in N or NANO_LOG crashed it")
fixed("C14","465b2e5","a log opened with O_DIRECT: the padding overwrote the start of the output (its checkpoint and dictionary) and left bytes of earlier output behind the end")
fixed("C03","94bcee2","wide strings of eight or more characters stand at unaligned addresses in the log, where wcslen() and printf() misread them: the rest of the extent was lost")
fixed("C07","94bcee2","the generated decompression functions and the decoder used wide strings at unaligned addresses, with the same loss")
F.append(dict(id="C11-two-full-buffers", status="known", property="C11", entry="c11_sorted", params=[5,35,0,0,1,0,1,9,9,0,0,9,9,0,1,9,9,0,0,9,9,0], msg="messages are not in time order",
              what="when the output buffer is full exactly at the start of two passes within three, each of these passes is marked twice in the log (once by an extent that holds no message), the sorted decoder counts five passes instead of three and prints a message before an earlier one of another thread (history: extents of buffers 0,1,0,1,0 with no message in the first)"))
json.dump(dict(findings=F),open("known_findings.json","w"),indent=1)
