import json
V1B,V1M,V2B,V2M="v1/buffer.go","v1/minibuf.go","v2/buffer.go","v2/minibuf.go"
V3B,V3M,T3B,T3M="v3/buffer.generated.go","v3/minibuf.generated.go","v3/_buffer.go","v3/_minibuf.go"
GEN,GM="generation/complex.go","generation/main.go"
ALL=[V1B,V1M,V2B,V2M,V3B,V3M]
P=[]
def p(id,title,st,over,q,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
ST=[("buf","the live bytes",V3B),("off/boff","byte and bit cursors",V3B),("cap/bcap","cached byte and bit sizes the bounds checks use",V3B)]
p("C01","Integers are stored and decoded exactly in the requested width and byte order",
"For every integer width, signedness and byte order a buffer type offers, writing a sequence of values at an in-range offset stores exactly their two's-complement bytes in that order, back to back from that offset, and leaves every other byte of the buffer unchanged. Reading at an in-range offset returns exactly the values whose encoding lies there and changes nothing. This holds in every major version and for both the checked and the unchecked buffer, for all values, counts, offsets and buffer sizes.",
["inputs","configurations"],"all (version, buffer type, width, sign, order) x values x counts x offsets x buffer sizes and contents",
"Tests write one small constant at offset 0 per method: with a value such as 1 most byte lanes are zero, so swapped lanes, wrong strides, sign extension and neighbour damage are invisible; offsets other than 0 and counts other than 1-2 are never used.",
[V1B,V1M,V2B,V2M,V3B,V3M,GEN],[("per-width write/read loops",V3B),("lock-protected write/read loops",V2B),("size and order dispatch",V1B),("code emitted per width, sign and order",GEN)],
["return values of the typed reads","buffer contents after typed writes"],ST)
p("C02","Floats survive bit for bit, including NaN payloads and signed zero",
"Writing 32- or 64-bit floating-point values stores exactly their IEEE-754 bit patterns in the requested byte order and nothing else changes; reading any stored bit pattern returns a value with exactly that bit pattern. This includes signalling and quiet NaNs with arbitrary payloads, infinities, subnormals and negative zero.",
["inputs"],"all 2^32 / 2^64 bit patterns x orders x counts x offsets x both buffer types",
"Tests use one ordinary float value per method, compared with ==, which cannot see NaN payloads or -0 and exercises few byte lanes.",
[V3B,V3M,GEN],[("unsafe reinterpretation of float storage",V3B),("float branches of the generator",GEN)],["return values of float reads","buffer contents after float writes"],ST)
p("C03","v1 typed access honours the caller's element size and byte order",
"In the first major version, typed access moves elements of exactly the size the caller names, encoded by exactly the byte order the caller passes in (any implementation of the standard byte-order interface, not just the two predefined), and typed reads return a slice of the matching unsigned type with the requested number of elements. An unsupported element size is refused with the documented error and changes nothing.",
["inputs","configurations"],"all sizes (valid and invalid) x byte-order implementations x values x counts x offsets x both buffer types",
"Tests use the value 1 with one element and the two predefined orders; multi-element reads, custom orders and invalid sizes on populated buffers are not sampled.",
[V1B,V1M,"v1/crunch.go","v1/errors.go"],[("writeComplex/readComplex dispatch on size, delegating to the byte order",V1B),("same for the unchecked type",V1M)],["results and contents around typed access"],ST)
p("C04","Raw byte writes and reads move exactly the addressed bytes",
"Writing bytes at an in-range offset replaces exactly the addressed range with the given data and leaves all other bytes unchanged, also when the given data is a window of the same buffer that overlaps the range; reading n bytes at an in-range offset yields exactly the n bytes stored there and changes nothing. Single-byte access is the one-byte case of the same rule.",
["inputs"],"all versions and buffer types x buffer sizes x offsets x lengths x contents, including offsets beyond 2^32 and lengths up to the whole buffer",
"Tests write one or two bytes at offset 0 of a 4-byte buffer; ranges in the middle, at the end, large buffers and neighbours are not observed.",
ALL,[("write/read byte loops and copies",V2B),("WriteBytes/ReadBytes",V3B)],["contents after each byte write","returned bytes"],ST)
p("B01","Single-bit access is most-significant-bit first and touches only that bit",
"Bit position p addresses bit 7-(p mod 8) of byte p/8: reading returns that bit, setting, clearing or flipping changes that bit alone, and every other bit of the buffer is unchanged. In the versions where the value of the bit is an argument, a value other than 0 or 1 is refused with the documented error and changes nothing.",
["inputs"],"all versions and buffer types x bit positions (including those beyond 2^32) x contents x bit values",
"Tests touch one bit position in a 4-byte buffer and then read back only through the same addressing code, so a consistent mis-addressing or damage to a neighbouring bit goes unseen.",
ALL,[("shift and mask by 7-(off%8) of byte off/8",V3B)],["contents after each bit operation","returned bit"],ST)
p("B02","Multi-bit fields are big-endian, contiguous and touch only the field",
"Writing an n-bit field (1 to 64 bits) at any in-range bit position stores the low n bits of the value most significant bit first in consecutive bit positions, across byte boundaries, leaving all other bits unchanged. Reading an n-bit field returns exactly the unsigned number formed by those bits in that order, with no bit of it lost or invented.",
["inputs"],"all versions and buffer types x positions x n in 1..64 x values x contents",
"Tests use a 3-bit and an 8-bit field with one value each; long fields, fields that straddle several bytes, and the bits around the field are not looked at.",
ALL,[("readbits/setbits loops over single-bit access",V3B)],["contents after field writes","returned field"],ST)
p("B03","Whole-buffer bit operations cover exactly the buffer, whatever its size",
"Setting, clearing or flipping all bits changes every bit of the buffer accordingly, for any buffer size including zero, and changes nothing else: not the size, not the cursors, not memory outside the buffer's current contents. Flipping twice restores the contents.",
["inputs","histories"],"all versions and buffer types x sizes (0 to large) x contents x preceding grow/truncate/reset history",
"Tests use one 4-byte buffer; empty buffers, buffers with spare capacity after truncation, and large ones are not sampled.",
ALL,[("ClearAllBits/SetAllBits/FlipAllBits loops",V3B)],["contents before/after, memory around the buffer"],ST)
p("N01","Sequential access equals positioned access at the cursor plus an exact advance",
"Every sequential (cursor-relative) operation returns or stores exactly what the same positioned operation would at the current cursor, and then moves that cursor forward by exactly the amount transferred: bytes for byte and typed access, bits for bit access. The other cursor does not move.",
["inputs","histories"],"every sequential operation of every version and type x cursor positions x counts x buffer contents, in arbitrary histories",
"Tests call each sequential operation once from cursor 0 and mostly do not look at the cursor afterwards, so wrong strides, use of the wrong cursor or of position 0 pass.",
ALL+[GEN],[("...Next methods: positioned call at the cursor, then seek by the size",V3B),("Next functions emitted by the generator",GEN)],["result and contents versus a positioned call on a copy","cursor queries"],ST)
p("N02","Cursors move only when told to, by exactly the requested amount",
"Absolute and relative seeks put the cursor exactly where requested, aligning makes the bit cursor eight times the byte cursor or the byte cursor the bit cursor's byte, and remaining-space queries report size minus position minus one for the current or given position. No other operation except a sequential one or a reset moves a cursor; the byte and bit cursors are otherwise independent.",
["histories","inputs"],"all histories over seeks, aligns, queries and every other operation, with 64-bit positions",
"Tests seek once to a small position; interactions between the two cursors, negative and large positions and the absence of movement in the other operations are not observed.",
ALL,[("SeekByte/SeekBit/Align*/After*",V3B)],["cursor and remaining-space queries after every operation"],ST)
p("S01","The checked buffer refuses every out-of-range access with the documented error",
"On the checked buffer type, an access is carried out if and only if every byte or bit it addresses lies inside the buffer's current contents; otherwise it panics with the documented error value for its direction (over- or under-, read or write). This holds for positioned and sequential access of every width and after any history of growing, truncating, resetting and moving cursors.",
["inputs","histories"],"all operations of the checked type in all versions x (size, offset, count) including the exact boundary, negative, huge and overflowing values x preceding history",
"Tests probe one far-out offset per method on one buffer; the exact boundary, counts times width, sequential access with a moved cursor and refusal after a size change are not sampled.",
[V1B,V2B,V3B,GEN,"v3/errors.go"],[("bounds checks against cached cap/bcap before each access",V3B),("emitted bounds checks",GEN)],["whether an operation panics and with which value"],ST)
p("S02","A refused operation changes nothing and leaves the buffer usable",
"When an operation on the checked buffer is refused for any reason (out of range, negative or impossible count, invalid bit value or size), the buffer's contents, size and both cursors are exactly as before, including for multi-byte and multi-bit writes that are only partly out of range. Later valid operations on the same buffer, from any goroutine, complete normally.",
["inputs","fault_sequences"],"every operation of the checked type x every kind of refusal x buffer states x following operations",
"Panic tests recover and stop: none looks at contents, cursors or locks after a refusal, and partly out-of-range bit fields are never tried.",
[V1B,V2B,V3B,GEN],[("checks precede mutation; lock released on panic",V2B),("bounds checks precede the loops",V3B)],["state after a recovered panic","progress of the next operation"],ST)
p("S03","Buffers are isolated from all memory outside their contents",
"No result and no resulting contents depend on bytes outside the buffer's current contents (bytes before or after the wrapped storage, spare capacity, previously dropped or reset contents), and no operation modifies memory outside the buffer's own storage or modifies the data passed to it. Decoded numeric results are independent copies: changing them does not change the buffer and vice versa.",
["inputs","histories"],"all operations x storage windows carved out of larger arrays x surrounding contents x grow/truncate/reset histories",
"Tests use freestanding exact-size slices, so an access that strays into spare capacity or neighbours has nothing to be seen against.",
ALL+[GEN],[("bounds checks and Go slice bounds",V1B),("Grow within spare capacity",V3B)],["twin runs with different surroundings","guard bytes around storage and arguments"],ST)
p("S04","Zero-length accesses are harmless no-ops",
"Reading or writing zero elements (bytes, typed values, bits) at any in-range position, including exactly at the end and on an empty buffer, succeeds, transfers nothing (an empty bit field reads as zero), changes neither contents nor caller-provided elements, and moves no cursor. This holds for every width, version and both buffer types.",
["inputs"],"every read/write operation x buffer sizes including 0 x positions including the end x count 0",
"No test uses an empty slice or a zero count.",
ALL+[GEN,T3B,T3M],[("read/write loops guarded for zero length",V2B),("guards in emitted loops",GEN)],["outcome, contents, out-parameters and cursors around zero-length calls"],ST)
p("L01","A new buffer holds exactly the given slices, in order",
"A buffer created from any number of byte slices (none, empty, nil, many, with or without spare capacity) contains exactly their concatenation, with both cursors at zero and sizes to match. Created from a single slice it shares that slice's storage; created from several it shares none of them and alters none, nor their spare capacity.",
["inputs"],"all slice counts, lengths (including 0 and nil), capacities and contents, all versions and types",
"Tests construct from none, one and two literals without spare capacity, so aliasing and damage to the caller's arrays cannot show.",
ALL,[("NewBuffer/NewMiniBuffer single-slice wrap and append loop",V3B)],["contents and cursors after construction","caller's slices after construction and later writes"],ST)
p("L02","Growing appends zero bytes and preserves everything else",
"Growing by n makes the buffer exactly n bytes longer: the existing contents and both cursors are unchanged and every added byte reads as zero, whatever the storage held before (spare capacity, truncated or reset contents). A negative amount on the checked type is refused and changes nothing.",
["histories","inputs"],"all sizes, amounts, spare capacities and histories of truncate/reset/grow/write, all versions and types",
"Tests grow fresh zeroed storage once and look only at the size, so stale or lost contents are invisible.",
ALL+[T3B,T3M],[("Grow: in-place extension or reallocation",V3B),("append of zero bytes",V2B)],["contents, size and cursors after each grow in a history"],ST)
p("L03","Truncation and reset remove exactly what they say",
"Truncating n bytes on the left (right) of a buffer leaves exactly the contents without its first (last) n bytes for every n up to the size, and moves no cursor; on the checked type other amounts are refused without effect. Resetting leaves an empty buffer with both cursors at zero that is as usable as a new one.",
["histories","inputs"],"all sizes, amounts and histories (repeated truncation, grow after truncation, use after reset)",
"Tests truncate a 2-byte buffer by one and reset once; sequences and use afterwards are not sampled.",
[V2B,V2M,V3B,V3M,T3B,T3M],[("TruncateLeft/TruncateRight/Reset",V3B),("reset",V2B)],["contents, size and cursors after each step"],ST)
p("L04","Reported sizes always match the actual contents",
"After every operation of every history the reported byte size equals the number of bytes the buffer actually holds, the reported bit size is exactly eight times it, and recomputing the statistics explicitly changes nothing. Bounds decisions follow these same sizes.",
["histories"],"all histories over construction, grow, truncate, reset, refused operations and access",
"The cached sizes are checked once after construction; no test checks them across size-changing sequences.",
ALL,[("Refresh/refresh after each size change; Reset zeroes both",V3B)],["size queries versus length of the contents after every step"],ST)
p("M01","Out-parameters are overwritten exactly, whatever they held before",
"Operations that deliver results through caller-provided variables or slices store a result that does not depend on what those held before, store exactly the requested elements, and leave any further elements of the caller's slice untouched. Creating a buffer into a variable that already refers to a buffer leaves that older buffer unaffected.",
["inputs"],"all out-parameter operations of the unchecked type x prior contents x oversized destination slices x counts",
"Tests always pass fresh zero variables and exact-size slices.",
[V1M,V2M,V3M,GEN,T3M],[("out-parameter assignments",V3M)],["out-parameters before and after each call"],ST)
p("M02","Delivered results stay as they are; the contents slice is a live window",
"A decoded result (integers or floats, returned or filled into a destination) is never changed by a later operation on the same or another buffer, and changing it changes no buffer and no other result. The slice handed out as a buffer's contents shows every later write, and changes made through it are read back by every read, until the buffer is next grown, truncated or reset.",
["histories"],"all histories over several buffers of the same and different types, looking back at everything delivered before",
"Tests look at a result once, straight after the call, with one buffer in play.",
ALL,[("typed reads allocating or filling their result",V3B),("Bytes",V3B),("ReadComplex",V1B)],["results retained across later operations; the slice of the contents retained across writes"])
p("X01","Both buffer types and all major versions agree on every in-range history",
"Run on the same initial contents, any history of in-range operations that two implementations (checked or unchecked, any major version) both offer produces the same results, contents, sizes and cursors at every step.",
["histories","configurations"],"all in-range histories over the common operations x all pairs of the six implementations",
"Each implementation has its own separate tests on its own tiny examples; nothing compares them.",
ALL,[("six parallel implementations of one contract",V3B)],["lock-step run of all implementations"],ST)
p("P01","The concurrent buffers are free of data races",
"Any mix of operations of the concurrent-safe buffer type of the first two major versions, issued from any number of goroutines on one shared buffer, contains no data race. Contents obtained by reference (the internal slice, raw byte windows) are only examined while holding the buffer's lock.",
["schedules"],"all pairs and mixes of operations x goroutine schedules",
"The tests are single-threaded, and a race needs an interleaving to matter.",
[V1B,V2B],[("embedded mutex taken around every access",V2B),("cursor mutex around sequential operations and seeks",V2B)],["race detector reports attributed to the public operations involved"],[("Mutex","serialises access to contents, sizes and cursors",V2B)])
p("P02","Concurrent operations take effect one at a time and none is lost",
"Every concurrent history of operations on a concurrent-safe buffer, its cursors and raw contents being looked at directly only when no operation is in flight, is equivalent to executing those operations one at a time in an order consistent with real time: no torn multi-byte value, multi-element transfer or bit field, no lost bit update, seek or growth. In particular concurrent sequential writers never overwrite each other's data and concurrent sequential readers receive every element exactly once.",
["schedules","histories"],"all short concurrent histories over positioned, sequential, bit, whole-buffer, seek and size operations, and stress runs with conservation checks",
"The tests are single-threaded.",
[V1B,V2B],[("embedded mutex held for the whole access",V2B),("cursor mutex makes read-then-advance atomic",V2B)],["client-side call/return history checked for linearizability","exactly-once and conservation accounting"],[("Mutex","serialises access",V2B)])
p("P03","Locks are always released, and lock-it-yourself buffers never lock themselves",
"After any operation on a concurrent-safe buffer returns or panics, its lock is free, and no operation blocks on its own buffer. Operations of the lock-it-yourself type neither take nor release its lock, so a client that brackets operations with it never deadlocks, is free of data races, and still holds it afterwards; size, cursor and contents queries of the concurrent type can likewise be made while holding its lock.",
["histories","fault_sequences","schedules"],"every operation (successful, refused, zero-length, impossible size) x lock state before the call",
"Tests never look at the lock, never call anything after a panic, and never hold the lock around an operation.",
[V1B,V1M,V2B,V2M],[("Lock/Unlock placement in each method",V2B),("absence of locking",V2M)],["lock probe after each operation","blocked-goroutine states"],[("Mutex","embedded lock",V2B)])
p("P04","Distinct buffers and read-only sharing need no synchronisation",
"Buffers with separate storage can be used from different goroutines at the same time without data races and with the same results as when used alone, in every version and type. Positioned reads and queries are read-only: any number of goroutines may perform them on one unchanging buffer concurrently, provided each supplies its own destination.",
["schedules"],"all operations x number of goroutines x schedules, on distinct buffers and on one unchanging buffer",
"The tests are single-threaded, so shared scratch state or hidden writes in readers cannot show.",
ALL+[GEN],[("no package-level mutable state; reads do not write the receiver",V3B)],["race detector reports and result comparison with a solo run"])
p("G01","Regenerating the third version reproduces the shipped library",
"Running the code generator over the checked-in templates yields code that compiles, offers exactly the exported interface of the shipped third major version, and behaves identically to it on every history of operations.",
["histories","programs"],"all exported operations and histories over them, shipped versus regenerated build",
"No test runs the generator or looks at the templates; go ignores the template files.",
[GEN,GM,T3B,T3M,V3B,V3M,"v3/Makefile"],[("GenerateComplex over templates",GEN),("file selection and naming",GM)],["exported API of both builds","lock-step histories on both builds"])
p("G02","Generator output depends only on the template and preserves hand-written text",
"The generated file for a template consists of the template's text unchanged outside the directives, with each directive replaced; the result does not depend on what the output file contained before, on other files in the directory, or on how often the generator has run. Only template files are processed and only their outputs are written.",
["inputs","histories"],"all template texts, directory contents, pre-existing outputs and repeated runs",
"No test runs the generator.",
[GM,GEN],[("ReplaceAllFunc on directive lines",GEN),("output file opening and writing",GM)],["directory contents before and after runs"])
p("G03","Supported directives expand correctly anywhere; unsupported ones emit no code",
"Each supported combination of receiver, direction, kind, width and byte order expands to its positioned and sequential method, identically wherever and however often it is used, and the expansion compiles and obeys the same encoding, bounds and cursor rules as the shipped methods. A directive with an unsupported argument expands to a comment only and does not disturb its neighbours.",
["programs","inputs"],"all directive combinations, orders, groupings and unsupported arguments in arbitrary templates",
"No test runs the generator.",
[GEN],[("argument verification and emission",GEN)],["parsed output of generated templates; behaviour of the compiled expansion"])
p("G04","Trouble with one template leaves the others' outputs and everything else intact",
"When a template cannot be read, the generator leaves whatever output it had as it was and makes none; when an output cannot be written, only that output is affected. Every other template's output comes out right in the same run, however many templates and faults there are and within a bounded number of open files, and a later run after the fault is repaired brings the missing outputs. An invocation that names no valid mode or no directory changes nothing.",
["inputs","histories","fault_sequences"],"all mixtures of healthy templates with unreadable ones and unwritable outputs, repeated runs, descriptor limits, invalid invocations",
"No test runs the generator.",
[GM],[("reading the templates",GM),("writing the outputs",GM)],["directory contents before and after runs with injected faults"])
p("R01","Growing step by step costs amortised constant work and reuses spare room",
"Growing a buffer to n bytes in arbitrarily small steps relocates its contents only a number of times logarithmic in n, and growth that fits in the storage's spare room does not relocate it. Storage held stays within a constant factor of the largest size reached.",
["histories"],"all step sizes and targets, all versions and types, including growth after truncation and reset",
"Tests grow once; complexity over a history is not observable in a single call.",
ALL+[T3B,T3M],[("doubling on reallocation",V3B),("append growth",V2B)],["storage address and capacity after each grow"])
p("R02","Steady-state access performs no hidden heap allocation",
"As the documented benchmark figures promise for the third major version, writes, bit operations, raw reads, cursor moves, position queries and every out-parameter read allocate no memory, and a typed read of the checked buffer allocates only its result slice. This holds whatever the counts, offsets and contents.",
["inputs"],"all operations of v3 x counts x offsets x contents",
"Benchmarks print allocation figures but assert nothing.",
[V3B,V3M,GEN],[("in-place loops",V3B)],["allocation counters of the runtime around repeated calls"])
p("R03","Access touches only the addressed data, however large the buffer",
"A positioned or sequential access of bytes, integers, floats or bits reads and writes buffer memory only at the addressed data (give or take the neighbouring memory page), and wrapping one slice, queries, cursor moves, alignment and refreshing touch no contents at all. So their cost does not depend on the size of the buffer, and storage populated lazily (a mapped file, a sparse array) is not pulled in.",
["inputs"],"all in-range accesses, queries and cursor operations of every version and type x buffer sizes from one byte to tens of megabytes x positions x counts",
"A scan of or copy over the whole buffer gives the right result on the four-byte buffers of the tests; memory touched without effect cannot be asserted on.",
ALL+[GEN],[("accesses index the addressed bytes only",V3B),("single slice adopted as it is",V2B)],["page faults on storage whose other pages are closed"])
p("R04","Costs are proportional to the data moved, and use accumulates nothing",
"The time an access takes and the memory it allocates are at most proportional to the amount of data it moves, in every version and type; they do not depend on how large the buffer is, where in it the access goes, or how long and for what the buffer has been used before. Cursor moves, queries, truncation, reset, wrapping one slice and growth within spare room take a bounded time whatever the size, and creating from several slices or a whole-buffer bit operation takes time proportional to the bytes. Nothing is kept of finished calls, delivered results, refused accesses or buffers no longer in use: memory held and goroutines stay bounded over arbitrarily long use.",
["inputs","histories"],"all operations x amounts up to a million elements x buffer sizes up to eight gigabytes x positions x millions of calls on one buffer",
"Tests move a few bytes once; cost and accumulation over sizes and histories are not observable in a single small call.",
ALL+[GEN],[("loops over the elements moved",V3B),("positions computed, not searched",V2B)],["processor time, allocation counters, heap and goroutines around calls of varying amount, place and age"])
p("A01","The unsafe conversions never touch memory outside the caller's elements",
"No operation, in particular the floating-point paths that reinterpret memory, reads or writes outside the elements passed in or the buffer's storage, or forms a misaligned or straddling pointer, for any slice position, length and capacity.",
["inputs"],"all operations x exact-fit heap slices of every length, offset sub-slices and odd alignments, under pointer and address sanitizers",
"A stray read of a few bytes past a slice has no visible effect in an ordinary build.",
[V3B,V3M,GEN],[("unsafe.Pointer reinterpretation of one element at a time",V3B)],["checkptr and AddressSanitizer reports while the workloads run"])
p("A02","Behaviour does not depend on the machine's word size",
"On a 32-bit platform every operation gives the same results, contents, cursors, sizes and refusals as on a 64-bit one, including positions and counts beyond the 32-bit range.",
["configurations","inputs"],"all operations and histories, 32-bit versus 64-bit build",
"The tests are only run on a 64-bit build and use tiny positions, so narrowing conversions do not show.",
ALL+[GEN],[("int64 positions and sizes throughout",V3B)],["the same monitored workloads executed by a 32-bit build"])
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
