import json
MSG=["sample-bin/src/main/java/com/finproto/sample/messages","risk-bin/src/main/java/com/finproto/risk/bin/messages","sse-bin/src/main/java/com/finproto/sse/bin/messages","szse-bin/src/main/java/com/finproto/szse/bin/messages","bjse-bin/src/main/java/com/finproto/bjse/trade/messages"]
def m(mod): return [x for x in MSG if x.startswith(mod)][0]
FR=[m("sample")+"/RootPacket.java",m("sse")+"/SseBinary.java",m("szse")+"/SzseBinary.java",m("risk")+"/RcBinary.java",m("bjse")+"/BjseBinary.java"]
COD="codec/src/main/java/com/finproto/codec/"
BM="codec/src/main/java/com/finproto/bitmap/"
P=[]
def p(id,title,st,over,qt,why,files,mech,state,obs,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=s) for s in state],observe_at=obs,hook_needed=hook)))
p("C01","Every message survives an encode/decode round trip",
  "For every message type and every combination of representable field values, decoding the bytes produced by encoding gives a message equal to the original, field by field, and consumes exactly those bytes. Fixed-width text may be normalised only by its declared padding (absent text reads back as empty text; absent or empty variable-length text, and absent or empty groups, read back as absent). No value of one field changes how another field travels.",
  ["inputs"],"all 182 message types (frames, bodies, nested groups, extensions) x all field-value combinations whose text fits its field",
  "Unit tests round-trip one hand-written instance per type; value-dependent or combination-dependent loss (sign, width, swapped fields, list sizes, one special value) is not sampled.",
  MSG,[("generated encode/decode pairs","every message class"),("fixed-width and length-prefixed text helpers",COD+"BinaryCodec.java")],
  ["message field values","union body selected by discriminator"],["accessors and equals of the decoded message","reader index after decode"])
p("C02","Encoded bytes match the published wire layout exactly",
  "Encoding any message writes exactly the bytes its published layout prescribes: the fields in order, each with its declared width, byte order, padding side and pad character, length prefixes counting UTF-8 bytes for text and elements for groups, and nothing before, between or after them. The bytes depend only on the message's field values.",
  ["inputs"],"all message types x all field values (all integers of each width, all floats, text of any length and content, groups of any size)",
  "A round trip hides symmetric mistakes (both sides wrong in the same way), and tests pin bytes for a few sample values only; a peer written by somebody else needs the exact bytes for all values.",
  MSG+[COD+"BinaryCodec.java"],[("generated encode","every message class"),("text padding",COD+"BinaryCodec.java")],["layout table in spec/layout.txt"],["bytes appended to the buffer"])
p("C03","Decoding reads exactly the values the bytes denote",
  "Decoding any bytes that form a complete instance of a message's layout - produced by any peer, with any integer contents and with non-canonical padding or malformed text - sets every field to the value its own bytes denote, independently of the other fields, and leaves the buffer positioned right after the message. Bytes following the message have no influence and stay unread.",
  ["inputs"],"all byte strings that are complete instances of the layout of each message type, followed by arbitrary bytes",
  "Tests decode only what the library itself encoded; peers' bytes that the encoder never emits (pad characters inside fields, interior zeros, extreme integers, any checksum value) are never fed in.",
  MSG+[COD+"BinaryCodec.java"],[("generated decode","every message class"),("text trimming",COD+"BinaryCodec.java")],["bytes on the wire"],["decoded field values","reader index"])
p("C04","Frame length field always equals the encoded body size",
  "In every frame whose layout carries a computed body length, the length on the wire and in the frame object after encoding equals the number of bytes the body occupies, for every body type and size, whatever the caller put in the length field before, wherever in the buffer the frame starts and however often the frame was encoded. Decoding reports the length that is on the wire.",
  ["inputs","histories"],"4 computed-length frames x all bodies x prior length values x start offsets x repeated encodes and body replacement",
  "Tests check one frame at offset zero of a fresh buffer; back-patching faults need other offsets, growth of the buffer during the body, stale lengths or absent bodies.",
  FR,[("length back-patching","frame encode methods")],["writer index","length position"],["length bytes on the wire","length accessor"])
p("C05","Frame checksum covers exactly the frame's own bytes",
  "When a checksum service for the frame's algorithm is registered, the checksum that encode writes (and leaves in the frame object) is that service's result over exactly this frame's bytes from its first byte to the byte before the checksum, regardless of what else is in the buffer, of the caller's previous checksum value and of earlier encodes. The algorithms that the protocols name are available by default; when the service has been removed, the caller's checksum value is sent unchanged, and decode always reports the received value.",
  ["inputs","histories"],"3 checksummed frames x bodies x buffer prefixes and reader positions x registry states (default, removed, replaced, restored) x repeated encodes",
  "Tests encode a single frame in an empty buffer; two frames in one buffer, prefixes, consumed prefixes and registry changes are not exercised.",
  FR[:3]+[COD+"ChecksumServiceFactory.java"],[("checksum computation","RootPacket, SseBinary and SzseBinary encode"),("default services",COD+"ChecksumServiceFactory.java")],["buffer reader/writer index","registered services"],["checksum bytes on the wire","checksum accessor"])
p("C06","Checksum algorithms compute their published functions",
  "For every byte sequence the four checksum algorithms return their published value (CRC-16/MODBUS, CRC-32/ISO-HDLC, SSE byte sum mod 256, SZSE byte sum mod 256), for any buffer kind, reader offset and length. Computing a checksum covers exactly the readable bytes, changes neither buffer nor service, and verification succeeds exactly for the computed value; each service reports its own algorithm name.",
  ["inputs"],"all byte sequences (the CRC/sum register automaton: all register states x all bytes) x offsets x lengths x buffer kinds",
  "Tests compare a handful of strings; a wrong table entry, sign extension, missed tail byte or length-dependent shortcut needs specific bytes or lengths.",
  [COD+"Crc16ChecksumService.java",COD+"Crc32ChecksumService.java",COD+"SseBinChecksumService.java",COD+"SzseBinChecksumService.java",COD+"ChecksumService.java"],
  [("table driven CRC loops","calc"),("verify default method",COD+"ChecksumService.java")],["CRC register","reader index"],["returned value","buffer indices"])
p("C07","Type codes select exactly the published message type",
  "In every frame and every order message, each published type or application code selects the message type published for it, in both direct lookup and decoding, and every other code is rejected with an illegal-argument error instead of being decoded as something else. Each lookup yields a new message in its initial state that shares nothing with any other; in the SSE protocol the reverse lookup from message type to code agrees with the forward table.",
  ["inputs"],"19 code tables x all keys (all shorts; published codes +-, single-bit and text neighbours for int/text keys) x repeated lookups",
  "Tests create one frame per type and never the unknown, neighbouring or repeated codes.",
  FR+[m("szse")+"/NewOrder.java",m("szse")+"/ExecutionReport.java",m("bjse")+"/NewOrder.java",m("bjse")+"/TradeCaptureCofirm.java"],
  [("nested message factories","create/register in each frame and order class"),("private extension table",m("bjse")+"/TradeCaptureCofirm.java")],["code to supplier maps"],["class and identity of the created message","exception type"])
p("C08","Registries follow map semantics over any history",
  "After any sequence of register, replace, remove and lookup operations every message registry answers exactly like a map holding the latest registration per code, remove reports whether the code was present, and decoding uses the registration current at that moment. The checksum registry keeps the first service registered under a name until it is removed or all are cleared, and says whether a registration took effect. The SSE reverse lookup never reports a code that has been removed, and no registry affects another.",
  ["histories"],"all operation sequences up to the depth bound over 2-3 codes, for all 18 message registries and the checksum registry",
  "Tests perform at most one removal per factory; ordering effects (replace then remove, remove twice, re-register) need histories.",
  FR+[COD+"ChecksumServiceFactory.java"],[("register/remove/create","nested factories"),("registry/removeChecksumService/clearAllChecksumService",COD+"ChecksumServiceFactory.java")],["registry maps","SSE reverse map"],["return values and created classes","decode results"])
p("C09","Message objects behave independently of their history",
  "The outcome of decoding into a message object depends only on the bytes decoded, and the bytes encoded depend only on the current field values: whatever was decoded into, encoded from, or partially decoded into that object before leaves no trace. Reusing one object for a stream of messages therefore gives the same results as using a new object each time, and the groups, nested messages and bodies got from or given to a message earlier keep their contents.",
  ["histories"],"all message types x all operation sequences up to the depth bound over {decode full/empty/other value, failed truncated decode, encode, set fields, hash, compare}; all parts held by the caller x every next use",
  "Tests use every object once; stale groups, stale text and caches that survive from an earlier use only show on reuse.",
  MSG,[("group and text fields assigned only when present","generated decode")],["message fields left from earlier use"],["field values after decode","bytes after encode"])
p("C10","Codec respects the caller's buffer, whatever its kind",
  "Encoding only appends at the writer position and decoding only consumes at the reader position: bytes outside that region, the other index, marks and reference count of the buffer are left alone. The result is the same for every kind of buffer (heap, direct, pooled, composite with any split, slice, read-only for decoding) and every start offset and capacity, a decoded message shares no memory with the buffer, nothing a call allocates or retains stays unreleased, also when it fails, and computing a checksum leaves the buffer exactly as it was.",
  ["inputs","configurations"],"all message types x buffer kinds x start offsets x initial capacities x component split positions; far positions x little room; all checksum services x lengths",
  "Tests use one unpooled heap buffer from offset zero; capacity growth, array offsets, split components and shared memory need other buffers.",
  MSG+[COD+"BinaryCodec.java"],[("buffer access","generated encode/decode"),("text helpers",COD+"BinaryCodec.java")],["reader and writer index","reference count"],["buffer contents and indices after the call","decoded message after buffer is overwritten and released"])
p("C11","Truncated or hostile input is rejected, never misread",
  "Decoding any strict prefix of a message, of any length, fails with an exception rather than returning a message, even when stale bytes lie beyond the writer position. Length prefixes of texts and groups that promise more than the buffer holds, and unknown codes, also fail promptly without unbounded memory or time, and a failed decode never reads beyond the readable bytes.",
  ["inputs","fault_sequences"],"all message types x all truncation points of their encodings x hostile values of every length prefix",
  "Tests never truncate input; every cut point of every message has to be tried.",
  MSG+[COD+"BinaryCodec.java"],[("reads through bounds-checked accessors","generated decode")],["readable bytes"],["exception or returned message","elapsed work and allocation"])
p("C12","Messages have value semantics",
  "Two messages of the same type are equal exactly when all their field values are equal (floating-point values by value, where NaN equals NaN and 0.0 differs from -0.0), equality is an equivalence that agrees with hash codes, every setter changes exactly its own property and its getter returns what was set, and messages of different types are never equal. Equality, hashing, text rendering and accessors terminate for every message type, have no side effects, and rendering shows every field value.",
  ["inputs"],"all message types x base values x all single-field changes (distinct and equal copies, null, empty groups)",
  "Tests compare one equal pair per type; a field missing from equality or hashing, or two swapped accessors, is only visible when just that field differs.",
  MSG,[("generated equals/hashCode/toString/accessors","every message class")],["message fields"],["equals, hashCode, toString, getters"])
p("C13","Fixed-width text fields are exact",
  "For every text, width, pad character and padding side, writing a fixed-width field emits exactly the width in bytes: the text's UTF-8 bytes, cut at the width if longer, preceded or followed by the pad character as declared - also for absent and empty text. Reading returns those bytes as text with only pad characters on the declared side removed, so text that fits and has no pad character at that edge is returned unchanged.",
  ["inputs"],"all strings up to the length bound over an alphabet with pads, spaces, NUL, ASCII, 2/3/4-byte characters x widths x 6 pad characters x both sides",
  "Tests try a few ASCII strings; overflow, exact fit, multi-byte text, absent text with left padding and interior pads are combinations.",
  [COD+"BinaryCodec.java"],[("writeFixedString/readFixedString/padChar/trimByChar",COD+"BinaryCodec.java")],["written length"],["bytes written","text returned","buffer indices"])
p("C14","A stream of frames decodes to the same frames in order",
  "Frames encoded one after another into one buffer are byte for byte what they are when encoded alone, and decoding that stream yields the same frames in order, at every segmentation of the stream into deliveries when the reader retries an incomplete frame from its start. Frames decoded or encoded earlier are unaffected by later ones, even when a frame in between was rejected.",
  ["histories","inputs"],"all frame sequences up to the length bound over each protocol's representative frames x all delivery cut points x retry after failure",
  "Tests handle one frame per buffer; state carried from one frame to the next, or from a failed attempt to the retry, needs sequences.",
  FR,[("frame encode/decode","frame classes")],["buffer indices","shared codec state"],["bytes of the stream","decoded frames"])
p("C15","Concurrent coding of separate messages does not interfere",
  "Threads that encode, decode, compare, print or checksum different message objects on different buffers at the same time obtain exactly the results they would obtain alone, for every interleaving. This includes first use of a message type or registry and use of one shared checksum service.",
  ["schedules"],"all interleavings, up to the preemption bound, of 2-3 threads over pairs of operations on the protocols' messages",
  "Tests are single threaded; shared scratch state between messages corrupts results only in particular interleavings.",
  MSG+[COD+"BinaryCodec.java",COD+"ChecksumServiceFactory.java",COD+"Crc16ChecksumService.java",COD+"Crc32ChecksumService.java"],
  [("static tables, factories and services shared by all messages","codec and message modules")],["static fields","registries"],["bytes and messages each thread obtains"])
p("C16","Registries stay linearizable under concurrent use",
  "When threads register, remove and look up message types or checksum services in one registry at the same time, each operation takes effect atomically at some moment between its call and return: concurrent registrations of one checksum name have exactly one winner, entries that nobody touches are always found, no update is lost, and no operation fails or hangs.",
  ["schedules"],"all interleavings, up to the preemption bound, of 2-3 threads with 1-2 operations each on every registry",
  "Tests are single threaded; lost updates and check-then-act races need a precise preemption, including inside the underlying map.",
  FR+[COD+"ChecksumServiceFactory.java"],[("registry maps","nested factories"),("check then register",COD+"ChecksumServiceFactory.java")],["registry maps"],["return values and final lookups"])
p("C17","Bitmaps behave as sets of positions",
  "For every bitmap width and every sequence of set and clear operations, a position reads as set exactly when the last operation on it was set, no operation affects another position or another bitmap, and the reported bit count equals the number of addressable positions.",
  ["histories"],"8, 16, 32 and 64 position bitmaps x all operation sequences (exhaustive reachable states of the 8-bit map, of the 16-bit map in the thorough tier, and of all patterns up to the bound on the wider maps)",
  "Tests check a few positions after a few sets; clearing in a context of other set bits and the sign-extended top positions are not covered.",
  [BM+"ByteBitMap.java",BM+"ShortBitMap.java",BM+"IntBitMap.java",BM+"LongBitMap.java",BM+"BitMap.java"],[("set/clear/get bit masks","bitmap classes")],["bit word"],["get for all positions"])
p("C18","Bitmaps survive being written and read back",
  "Writing a bitmap to a buffer and reading it into any bitmap of the same width, whatever that one held before, restores the same set of positions, consumes exactly the bytes written and leaves the written bitmap unchanged.",
  ["inputs"],"8 and 16 position bitmaps: all states; 32 and 64: all patterns of up to the bound set or clear positions and structured patterns; x prior contents of the reader",
  "Tests write a bitmap and look at one or two bytes; loss of particular positions needs all patterns.",
  [BM+"ByteBitMap.java",BM+"ShortBitMap.java",BM+"IntBitMap.java",BM+"LongBitMap.java"],[("write/read group encoding","bitmap classes")],["bit word"],["get for all positions after read","buffer indices"])
p("C19","Groups and text travel intact up to the prefix maximum",
  "Every repeating group and variable-length text whose length fits its length prefix travels intact: all element counts and byte lengths from zero to the largest the prefix can express (65535 for two-byte prefixes) are encoded and decoded element by element in order, including elements that are themselves empty, and fields after the group stay aligned.",
  ["inputs"],"all 49 groups and variable-length texts (and every message reached through them) x lengths around every power of two up to the prefix maximum, and all lengths up to a dense bound",
  "Tests use groups of two or three elements; sign changes of the prefix and per-element special cases appear only at certain sizes.",
  [m("sample")+"/BasicPacket.java",m("sample")+"/StringPacket.java",m("sample")+"/NestedPacket.java",m("sse")+"/ExecRptSync.java",m("szse")+"/PlatformPartition.java",m("bjse")+"/ReportSynchronization.java"],
  [("size prefix and element loop","generated encode/decode")],["size prefix"],["decoded groups and following fields"])
p("C20","A failed encode leaves nothing behind",
  "When an encode cannot complete - the buffer refuses to take more at any byte, a nested message or group element is missing, or the body or checksum service fails - it ends with an exception instead of returning normally, bytes in front of its start and the reader index stay as they were, and the message keeps its field values (computed length and checksum excepted). Encoding the message again or any other message afterwards, into the same or another buffer, gives exactly the bytes it would have given without the failure.",
  ["fault_sequences","histories"],"all message types x base values x every insufficient capacity (and pairs of failures) x missing parts x failing bodies and services x following encodes",
  "Tests never let an encode fail; a value swallowed, left half-changed or kept in a scratch area needs a failure at one particular byte and a later use.",
  MSG+[COD+"BinaryCodec.java",COD+"ChecksumServiceFactory.java"],[("generated encode, length back-patch, checksum","frame classes"),("text helpers",COD+"BinaryCodec.java")],["message fields","static or per-thread scratch"],["exception","buffer bytes and indices","bytes of later encodes"])
p("C21","The wire format does not depend on the environment",
  "The bytes written, the values read, the message types selected by codes, the checksums and the text rendering are the same whatever the platform's default charset, locale, time zone and line separator, whichever Java version (17 and later) runs the library, and however Netty is configured (with or without unsafe access, pooled or unpooled, heap or direct preference, leak detection on or off).",
  ["configurations","inputs"],"all environments of the configuration table (each in its own process) x all message types x base values, text shapes and text alphabets",
  "Tests run in one environment, usually UTF-8 and English, where a default charset or a locale-sensitive conversion cannot be noticed.",
  MSG+[COD+"BinaryCodec.java"],[("text to bytes and back",COD+"BinaryCodec.java"),("text codes","string keyed factories")],["platform defaults"],["bytes, values, message types, checksums and text per environment"])
p("C22","Handling messages retains nothing",
  "However many messages are encoded, decoded, compared, printed, looked up or rejected, with whatever values and failures, what the library itself keeps reachable (static state, the calling thread's thread-local state, a message object that is used again, its registries) does not keep growing with the number of different messages, texts, codes or services it has handled; registries keep only what is currently registered, and let go of it when it is replaced or removed.",
  ["histories"],"all message types and body variants x value styles and group sizes x encode, decode, compare and print, truncated input, refused output, reuse and retry of one object; each field at the class's own constants; all registries x lookups, unknown codes, replacement, registration and removal; checksum registry and services; each as a history of ever new values, extended until growth stops or is established",
  "Tests handle a few messages; state kept per message, text or code is only visible in a long history of different ones.",
  MSG+[COD+"BinaryCodec.java",COD+"ChecksumServiceFactory.java"],[("registry put, replace and remove","nested factories"),("text helpers",COD+"BinaryCodec.java"),("checksum registry",COD+"ChecksumServiceFactory.java")],["object graph behind static fields, thread locals and a reused message"],["number of objects reachable after ever longer histories"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
