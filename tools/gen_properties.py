#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts live)."""
import json, os
D, E, IO, DEF = "src/codec/decode.rs", "src/codec/encode.rs", "src/io.rs", "src/protocol/definitions.rs"
IN, OUT, BODY, PM = "src/message/inmessage.rs", "src/message/outmessage.rs", "src/message/body.rs", "src/protocol/mod.rs"
TY, SY, VA, FR = "src/types/mod.rs", "src/types/symbol.rs", "src/types/variant.rs", "src/framing.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "Every AMQP value survives an encode/decode round trip",
  "Any AMQP value the library can represent (every primitive, binary, string, symbol, millisecond timestamp, UUID, optional value, array of primitives, list, map and described value, compounds nested up to 64 deep) decodes from its own encoding to the same value of the same AMQP type. Decoding consumes exactly that encoding and hands back whatever bytes follow it untouched.",
  ["inputs"], "all values of all encodable/decodable value types, all lengths and nestings up to 64, all trailing bytes",
  "Unit tests round-trip about 40 hand-picked scalars and two string lengths; no list, map, described, array or nested value is round-tripped, no trailing bytes, no boundary lengths (254/255/256) and no extreme numbers.",
  [D, E, VA, TY], [("Encode/Decode/DecodeFormatted implementations per type", E), ("format-code dispatch of Variant", D)],
  observe=["Encode::encode", "Decode::decode"])

p("C02", "Every AMQP frame survives an encode/decode round trip",
  "Any AMQP frame (any channel, any performative with any combination of field values, or an empty heartbeat frame) decodes from its own encoding to the same channel, the same kind of performative and the same value in every field, and a transfer's payload bytes come back unchanged (an empty payload being the same as none). Each field's accessor reports that field's value.",
  ["inputs"], "all channels, all nine performatives plus the empty frame, all field values, all payloads",
  "The only frame tests decode one fixed Disposition and compare one re-encoding; the other eight performatives, source/target/error/delivery-state sub-structures and payloads are never exercised.",
  [DEF, D, E, FR, PM], [("per-performative encode/decode inner functions", DEF), ("frame header encode/decode", D)],
  observe=["AmqpFrame encode/decode", "field accessors"])

p("C03", "Every SASL frame survives an encode/decode round trip",
  "Any SASL frame (mechanisms, init, challenge, response or outcome, with any field values) decodes from its own encoding to the same kind of frame with the same value in every field, so credentials and outcome codes are never altered. The PLAIN initial response built from an authorization id, authentication id and password is exactly those three joined by single NUL bytes.",
  ["inputs"], "all five SASL bodies with all field values; all identity/password strings",
  "One fixed sasl-mechanisms frame is the only SASL test; init, challenge, response and outcome are never encoded or decoded and prepare_response is untested.",
  [DEF, D, E, FR, PM], [("SaslFrameBody encode/decode", DEF), ("SaslInit::prepare_response", PM)],
  observe=["SaslFrame encode/decode", "SaslInit::prepare_response"])

p("C04", "The announced encoded size is exactly the number of bytes written",
  "For every value, frame, SASL frame, message, section and message body, the size reported before encoding equals the number of bytes encoding then writes, also after any history of edits to a message, so encoding into a buffer with exactly that much room succeeds and every length prefix built from it (frame length, nested message length) is exact.",
  ["inputs", "histories"], "all encodable items; for messages all sequences of builder calls interleaved with size queries",
  "No unit test compares the announced size with the bytes written; tests allocate growable or over-sized buffers and never re-query a size after an edit.",
  [E, DEF, IN, OUT, BODY, PM], [("encoded_size implementations", E), ("encoded_size_*_inner", DEF), ("message size cache", OUT)],
  state=[("size", "cached encoded size of a message, 0 when unknown", OUT)], observe=["Encode::encoded_size", "Encode::encode"])

p("C05", "Encoder output is well-formed AMQP 1.0 with the intended meaning",
  "Everything the library encodes (values, frames, SASL frames, messages) is valid AMQP 1.0: an independent strict parser reading only the specification accepts it, finds every declared length, count, constructor and descriptor exact, and recovers the same types and values with composite fields in the specified order under the specified descriptor.",
  ["inputs"], "all encodable values, frames and messages",
  "Two frames are compared with fixed bytes; every other test decodes with the library's own decoder, so an encoder and decoder that are wrong in the same way pass.",
  [E, DEF, IN, OUT, BODY, PM], [("format codes and compound headers", E), ("descriptor codes and field order", DEF)],
  observe=["Encode::encode"])

p("C06", "The decoder accepts every valid encoding of a value, not just its own",
  "Whatever legal AMQP 1.0 encoding a peer chooses (compact or wide integers, booleans, lengths, lists, maps and arrays; numeric or symbolic descriptors of either width; omitted or null trailing fields; a lone symbol or an array for a multiple-valued field; an extended frame header), values, frames, SASL frames and messages made of the types the library supports (all but the decimal types, and arrays inside free-form values) decode to the meaning the sender intended.",
  ["inputs"], "all values/frames/messages times all legal choices of encoding for each node",
  "Unit tests decode almost only what the library itself produced, which uses one encoding per value; alternative encodings of the same value are sampled for booleans only.",
  [D, DEF, PM], [("format-code alternatives in decode_with_format", D), ("descriptor alternatives", DEF), ("ext header skipping", D)],
  observe=["Decode::decode"])

p("C07", "No byte sequence from a peer can crash or hang a decoder",
  "Decoding any byte sequence whatsoever as a value, frame, SASL frame, message, protocol header or stream returns either a value or an error. It never panics, aborts, overflows the stack or fails to terminate, whether the bytes are random, truncated, corrupted, contradictory in their declared sizes and counts, or nested arbitrarily deep. (Bare arrays of zero-width elements with huge counts, which exhaust memory, are the subject of C08.)",
  ["inputs"], "all byte strings, for every decodable type and for the stream codecs",
  "No unit test feeds malformed input to any decoder.",
  [D, DEF, IO, IN, OUT, VA, PM], [("length checks before slicing", D), ("stream header handling", IO), ("hashing of decoded map keys", VA)],
  observe=["Decode::decode", "Decoder::decode"])

p("C08", "Decoder memory is bounded by the bytes received, not by declared counts",
  "The memory a decoder allocates for any input as a value, frame, SASL frame or message is bounded by a fixed multiple of the input's length plus a constant, whatever sizes, counts or nesting the input declares. The same holds for the bytes a stream decoder has been given so far, whatever lengths its frames announce.",
  ["inputs"], "all byte strings, in particular those declaring sizes and counts far above what they carry",
  "No test measures allocation or feeds an input with an inflated count.",
  [D, DEF], [("pre-allocation from wire counts", D), ("recursive descent", D), ("buffer growth on a frame header", IO)], observe=["process allocations during Decode::decode and Decoder::decode"])

p("C09", "Frame streams decode identically however the bytes are chunked",
  "A stream of encoded frames yields exactly the frames that were sent, in order, none lost, duplicated or altered, for every way of splitting the bytes into reads. A frame is delivered as soon as its last byte has arrived and not earlier, an incomplete frame yields nothing and no error, and bytes of later frames stay in the buffer.",
  ["inputs", "schedules"], "all frame sequences, AMQP and SASL, times all chunkings and buffer states",
  "No unit test uses the stream codec at all.",
  [IO, FR, D, E], [("header/body decode state machine", IO)], state=[("state", "whether the length prefix was already consumed, and the body size awaited", IO)],
  observe=["AmqpCodec as tokio Decoder/Encoder", "FramedRead over a chunked reader"])

p("C10", "A malformed frame is rejected once and does not affect its neighbours",
  "When a stream contains a frame whose declared length covers at least the frame header but whose content is invalid (wrong frame type, bad data offset, unknown performative, malformed fields, left-over bytes), decoding reports exactly one error for it, and every frame before and after it is still delivered intact. A frame declaring a length smaller than the header is reported as an error and never delivered as a frame.",
  ["inputs", "histories", "fault_sequences"], "all streams mixing valid and invalid frames, all chunkings",
  "No unit test decodes a stream, let alone continues after an error.",
  [IO, D, DEF], [("state reset around body decoding", IO)], state=[("state", "decode state kept across an error", IO)],
  observe=["AmqpCodec::decode across errors"])

p("C11", "Protocol headers are negotiated exactly",
  "Each of the three protocol headers (plain AMQP, TLS, SASL) is written as its exact eight bytes and read back as itself; reading takes exactly eight bytes, waits without consuming or failing while fewer are available, and leaves the rest in the buffer. Every other eight bytes are rejected with the matching error: not an AMQP header, incompatible version, or unknown protocol id.",
  ["inputs", "schedules"], "all 8-byte headers, all chunkings, all trailing bytes",
  "No unit test touches the protocol header codec.",
  [IO, PM, "src/errors.rs"], [("ProtocolIdCodec", IO)], observe=["ProtocolIdCodec decode/encode"])

p("C12", "Messages survive an encode/decode round trip section by section",
  "A message with any combination of header, delivery annotations, message annotations, properties, application properties, body (any number of data sections, sequences, or a value) and footer keeps every section's content, and the order of repeated body sections, across encode and decode, whether built locally or received from a peer, and both message kinds read it the same. Decoding consumes the whole message; a message without a body is sent with one empty data section.",
  ["inputs"], "all section combinations and contents, both message types",
  "Unit tests send one section at a time with one fixed value; annotations, footers, sequences, values and combinations are never exercised.",
  [IN, OUT, BODY, DEF], [("section loop in decode", IN), ("section order in encode", OUT)], observe=["InMessage/OutMessage encode, decode and getters"])

p("C13", "Message building is a faithful, history-independent record of its edits",
  "After any sequence of builder calls on a message of either kind, its getters and its encoding show exactly the last value set for each section and for each application property key, outgoing messages keeping keys in the order they were first set. Reading, sizing, encoding, cloning or comparing a message never changes it, and equality depends only on content, not on which of these were done before.",
  ["histories", "inputs"], "all sequences of builder, observer and clone operations",
  "Each unit test performs one builder call followed by one encode; no test interleaves edits with size queries or compares messages after use.",
  [IN, OUT, BODY], [("builder methods and cache invalidation", OUT), ("builder methods and cache invalidation", IN)],
  state=[("size", "cached encoded size", OUT)], observe=["builder methods", "getters", "Encode", "PartialEq", "Clone"])

p("C14", "Batched and transferred messages arrive bit-exact inside their carrier",
  "Messages nested in a message body arrive as one data section each, in order after the body's own sections, holding exactly that message's own encoding, and decode back to it. A transfer frame carrying a message or raw bytes puts exactly those bytes after its fields, its frame length covers them, and the receiver gets exactly them; the reported payload length equals their number.",
  ["inputs"], "all messages and batches of messages, all payload sizes, nesting of batches",
  "One test nests two tiny messages; payloads over 255 bytes, messages with headers, and transfers with a message body are never exercised.",
  [BODY, PM, DEF, IN, OUT], [("nested message length prefix", BODY), ("transfer body append", DEF)], observe=["MessageBody encode", "Transfer frames", "TransferBody::len"])

p("C15", "A truncated encoding is never accepted as a complete one",
  "Cutting the encoding of any value, message section, non-transfer performative or SASL frame body at any earlier byte makes decoding fail with an error; no non-empty strict prefix of an encoding is ever taken for a complete, different item. (A frame header followed by nothing is the empty frame, not a truncated performative.)",
  ["inputs"], "all encodings times all cut positions",
  "No unit test decodes truncated input.",
  [D, DEF], [("decode_check_len", "src/codec/mod.rs"), ("compound size checks", D)], observe=["Decode::decode"])

p("C16", "Omitted, null and surplus composite fields follow the specification",
  "In any performative, terminus, delivery state, error, header or properties list, an optional field that is null or beyond the end of the list decodes as absent, a field with a specified default decodes as that default, and list entries beyond the known fields are ignored. Leaving out a mandatory field, or sending null for it, is always rejected.",
  ["inputs"], "all composite types, all field subsets and list lengths from zero to beyond the known fields",
  "Unit tests decode two frames with fixed field lists; omission, defaults, surplus fields and missing mandatory fields are untested.",
  [DEF], [("count checks, unwrap_or defaults, RequiredFieldOmitted", DEF)], observe=["Decode of composites"])

p("C17", "Only the specified descriptors and enumeration values are recognised",
  "A described composite, section, outcome, delivery state or SASL body is recognised by exactly its numeric descriptor and its symbolic name and any other descriptor is rejected rather than read as something else; a frame of the wrong frame type is rejected. Every enumerated choice (roles, settle modes, durability, expiry policy, SASL codes) maps one-to-one to its specified wire value with any other value rejected, and error conditions and distribution modes outside the known set are kept verbatim.",
  ["inputs"], "all descriptors (all 64-bit codes and all symbols), all wire values of each enumeration, all frame types",
  "No unit test checks any enumeration mapping, symbolic descriptor or rejection.",
  [DEF, PM, D], [("descriptor match arms", DEF), ("try_from tables", DEF), ("ErrorCondition/DistributionMode decode", PM)], observe=["Decode", "Encode", "try_from"])

p("C18", "A compound's declared size is what delimits it",
  "When a list, map, array, composite or described compound declares a byte size, decoding never reads its elements from beyond that size, and whatever follows is read starting exactly at the end of that size. Elements that do not fit in the declared size, or a declared size that does not fit in the input, are an error.",
  ["inputs"], "all compounds with consistent and inconsistent size/count pairs, at any nesting position",
  "No unit test decodes a compound whose size and content disagree, or a compound followed by other data.",
  [D, DEF], [("compound header handling", D), ("split_at(size) in composites", DEF)], observe=["Decode::decode remainder and value"])

p("C19", "Text and values compare, order, hash and look up consistently",
  "Two strings (`Str`), or two symbols (`Symbol`), with the same text are interchangeable whichever of their storage forms (static or shared) they use: equal, equally ordered, hashing alike and found by the same plain-text key, and their text accessors return that text. For all AMQP values, equal values hash alike, so any value, including maps and compounds holding maps, works as a map key.",
  ["inputs"], "all pairs of strings/symbols in both storage forms, all pairs of values",
  "Unit tests compare three fixed strings stored the same way; hashing, ordering, mixed storage and map keys are untested.",
  [TY, SY, VA], [("Hash/Eq/Ord/Borrow of Str and Symbol", TY), ("Hash of VariantMap", VA)], observe=["Eq, Ord, Hash, Borrow, HashMap lookup"])

p("C20", "Timestamps keep millisecond precision over the whole time line",
  "For every 64-bit millisecond count, before or after 1970, decoding yields exactly that instant, or an error when the instant is beyond the supported calendar, and never a different instant. Encoding any instant (those within a leap second included) writes its millisecond count (sub-millisecond parts dropped towards the past), so re-encoding a decoded timestamp reproduces the same count.",
  ["inputs"], "all 64-bit millisecond counts, all representable instants with any sub-second part",
  "Unit tests use one post-1970 and one pre-1970 instant, both with a non-zero millisecond part.",
  [D, E], [("datetime_from_millis", D), ("array_encode of DateTime", E)], observe=["Decode/Encode of DateTime<Utc> and timestamp values"])

p("C21", "Replies carry the request's identity and nothing else",
  "A reply created from any message, received or local, has as its correlation id exactly the message id of the request, of whatever id type, and is otherwise an empty message; a request without properties yields a reply without properties, and the request itself is unchanged. The id is what the requester reads after the reply has travelled over the wire.",
  ["inputs"], "all message ids (ulong, uuid, binary, string, absent) and all request contents",
  "reply_message has no unit test.",
  [IN, OUT, PM], [("reply_message", IN), ("MessageId encode/decode", PM)], observe=["reply_message", "properties()"])

p("C22", "Relaying never changes meaning",
  "Any bytes a decoder accepts as a value, frame, SASL frame or message, however unusual, can be re-encoded and decoded again to the same value, and the re-encoding is itself stable: encoding that second value again gives the same meaning and the same size. A relay that decodes and re-encodes therefore never corrupts what it forwards (a message received without a body gains one empty data section).",
  ["inputs"], "all byte strings that some decoder accepts",
  "Two fixed frames are re-encoded in unit tests, both in the library's own encoding.",
  [D, E, DEF, IN, OUT], [("decode/encode agreement on the accepted language", D)], observe=["decode then encode then decode"])

p("C23", "Encoding is pure, deterministic and only appends",
  "Encoding an item appends to the output without disturbing bytes already there, leaves the item unchanged, and appends the same bytes every time and at every position of a buffer with the announced room, so encoding a sequence of items through the stream codec into one buffer of any initial capacity produces exactly the concatenation of their separate encodings and never fails for lack of room.",
  ["inputs", "histories"], "all item sequences, all initial buffer contents and capacities",
  "Every unit test encodes one item into one fresh buffer; the stream encoder is never used.",
  [E, IO, DEF, BODY], [("Encoder::encode capacity reservation", IO), ("size fields computed before content", E)], observe=["Encode::encode", "Encoder::encode"])

p("C24", "Regenerating the protocol definitions from the specification changes nothing",
  "Building with the code generator enabled produces protocol definitions whose behaviour on every frame, section and enumeration is the same as the checked-in definitions: the same descriptors, fields, order, defaults, mandatory checks and wire values.",
  ["configurations", "inputs"], "the from-spec build configuration times all frames, sections and enumeration values",
  "The test suite is only run with the generator off; nothing compares its output with the checked-in file.",
  ["codegen/mod.rs", "codegen/definitions.rs", "codegen/specification.json", "build.rs", DEF], [("spec parsing", "codegen/mod.rs"), ("template", "codegen/definitions.rs")],
  observe=["behaviour of the crate built with feature from-spec"])

p("C25", "The code generator yields a correct codec for any composite it is given",
  "For any specification that adds further types to the shipped one in the generator's input format - composite lists with any number of mandatory, optional, defaulted (booleans, integers, choices) and multiple-valued (symbols) fields, of the primitive, aliased, choice, composite or 'requires' types the generator knows; choices over symbols (any text that needs no escape in a string literal), booleans or integers; restricted described types; 'provides' groups; any descriptor name and any 64-bit domain:id code; names that map to distinct Rust identifiers - the generated definitions compile, and each such type encodes to exactly what its specification says, announces its exact size, decodes every legal encoding of its values (omitted, null and defaulted fields, either descriptor form), applies defaults, rejects missing mandatory fields, unknown choices and other descriptors, and gives its field values through its accessors.",
  ["programs", "inputs"], "generated specifications times generated values of the types they define",
  "The generator is never run by the tests and there is exactly one specification.",
  ["codegen/mod.rs", "codegen/definitions.rs", "build.rs"], [("Definitions::from, Field::from", "codegen/mod.rs"), ("template", "codegen/definitions.rs")],
  observe=["behaviour of crates generated from generated specifications"])

p("C26", "Accessors and conversions report exactly what an item holds",
  "Every accessor of a performative, SASL body, terminus, delivery state, error, header, properties or other composite, wherever it is nested, and of a frame, message body, list, multiple value or ordered map, reports exactly the stored content; taking a frame apart gives its channel and performative. Converting a Rust value into an AMQP value, string, symbol, message id, error condition, performative, SASL frame or transfer body gives the item of that type and content. The text accessors of a value give the text of any string or symbol, however it is stored, and nothing for any other value, in agreement with comparing the value to a text. Plain text and static symbols of any length encode as the string or symbol they are.",
  ["inputs"], "all composites, values, frames and messages, built locally or decoded",
  "Unit tests call a handful of accessors and three conversions on fixed values.",
  [DEF, PM, TY, SY, VA, BODY], [("field accessors", DEF), ("From implementations", PM), ("as_str/as_bytes_str", VA), ("data/value/set_data", BODY)], observe=["accessors, From, Deref, iter, len"])

p("C27", "A decoding error names the fault",
  "An input that is valid but for one fault is reported as that fault, however deep it is nested and whichever decoder meets it: an unexpected constructor, frame type or descriptor with the offending one; a character, timestamp or text that is none with its value; an omitted mandatory field or an unknown choice by name; a size too small for its own count, nesting beyond the limit, left-over bytes; and input that ends too early as incomplete. The stream decoder reports the same error as decoding the frame directly, and errors stay the same when cloned, converted or shown.",
  ["inputs"], "all valid inputs with one fault at any nesting position, through all decoders",
  "No unit test looks at a decoding error.",
  [D, DEF, "src/errors.rs", IO], [("error returns", D), ("RequiredFieldOmitted/UnknownEnumOption/InvalidDescriptor", DEF), ("Clone, From, Display", "src/errors.rs"), ("Decoder::decode", IO)], observe=["errors of Decode::decode and Decoder::decode"])

p("C28", "What a decoder gives depends on its input alone",
  "What decoding some bytes gives - content, bytes consumed, or the error - and what encoding an item gives do not depend on anything the process did before or does at the same time: not on earlier decodings, successful, failed or cut short at whatever nesting depth, not on other connections, and not on other threads decoding, or encoding the same shared value, at that moment. What was decoded owns its content: reusing or overwriting the input buffer never changes it, and items can be moved to another thread unchanged.",
  ["inputs", "histories", "schedules"], "all histories of decodings and encodings in one thread times all inputs; several threads at once",
  "Unit tests decode one input per test; nothing decodes after a failure, twice, or from several threads.",
  [D, E, SY, TY, VA, IO], [("NESTING thread-local depth of decoding", D), ("Arc-held custom symbols and inputs", SY), ("ByteStr input storage", TY)], observe=["Decode::decode, Encode::encode, repeated and from threads"])

p("C29", "A whole connection reads back as it was written",
  "A connection in which protocol headers, SASL frames and AMQP frames follow each other over one buffer, each read by the codec of its phase, is delivered item by item exactly as written: every item as soon as its last byte has arrived and not before, each codec leaving the buffer exactly after the item it delivered so that the next codec finds its own bytes, whatever the read sizes, whichever order the phases come in, for several connections in turn, and through tokio's framed transport with partial reads and writes and codecs swapped along the way. What is written in turn is the concatenation of the items' own encodings.",
  ["histories", "schedules"], "all sequences of headers, SASL and AMQP frames times all read and write splits",
  "Unit tests never use the stream codecs; nothing combines them.",
  [IO, FR, "src/protocol/mod.rs"], [("AmqpCodec::decode/encode", IO), ("ProtocolIdCodec", IO)], observe=["AmqpCodec, ProtocolIdCodec, tokio Framed"])

p("C30", "Equality, cloning and formatting agree with content",
  "Two items of one type - value, list, composite, frame, SASL frame, multiple value or enumeration - compare equal exactly when their contents are the same (floating point numbers compared as numbers, and within generic values with one NaN), however each text is stored (a static symbol value being a kind of its own) and whichever field differs; comparison is symmetric. A clone equals its original, holds the same content, and neither it nor formatting an item changes or fails on any content.",
  ["inputs"], "all pairs of items of one type, with special weight on pairs that differ in one place",
  "Unit tests compare items they built alike; no test compares items that differ in one field.",
  [DEF, FR, TY, SY, VA], [("derived and hand-written PartialEq/Clone/Debug", VA), ("PartialEq of strings and symbols", TY)], observe=["PartialEq, Clone, Debug of all public items"])

p("C31", "Every route to the same thing agrees",
  "The same bytes have the same outcome (content, unread rest, or the same error) through every public type that reads them: a performative through its own type, `Frame` and `AmqpFrame`; a SASL body through its own type, `SaslFrameBody` and `SaslFrame`; a delivery state or outcome through its own type, `DeliveryState` and `Outcome`; a section through `Section` and the type of its content; a value through its own type, `Option` of it, and `Variant`; a message through `InMessage` and `OutMessage` (nested more than 64 deep, one route may refuse for depth alone). Likewise the same content is written as the same bytes by each of those types, whichever constructor or conversion built it.",
  ["inputs"], "all byte strings for every pair of routes, all contents for the writing routes",
  "Unit tests read each thing through one type only; the decoders of the routes are separate code.",
  [DEF, FR, D, E, "src/message/inmessage.rs", "src/message/outmessage.rs"], [("decode of each generated type and of the choices it belongs to", DEF), ("InMessage and OutMessage decode/encode", "src/message/outmessage.rs")], observe=["Decode::decode and Encode::encode of all routes"])

p("C32", "Work is proportional to the data",
  "Decoding, measuring, encoding, comparing, cloning and dropping anything, and running a stream of frames through a codec, takes work (steps, processor time, bytes allocated and copied) proportional to the length of the data, times at most how deep it nests: four times as many elements, sections, fields, frames or bytes never take much more than four times the work, whatever the elements are and whatever map keys are used, and twice the nesting never more than about four times; damaged data, announced counts and sizes, and data that arrives in many small reads make no difference. Excepted are bare arrays of elements without content (see the memory property) and maps keyed by texts alone, whose public types fix a hasher that regular texts defeat.",
  ["inputs", "histories"], "all inputs and items of any size and nesting, all read sizes",
  "Unit tests use a handful of small values and never look at cost; quadratic or exponential work shows only on large, deep or finely split input.",
  [D, E, VA, IO, "src/message/inmessage.rs", "src/message/outmessage.rs", "src/message/body.rs"], [("encoded_size and encode of nested lists, maps and messages", E), ("decode of lists, maps, arrays, described values", D), ("Hash of Variant", VA), ("Decoder::decode/Encoder::encode", IO)], observe=["steps, allocation and processor time of every public decode/encode/size/clone/compare call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
