#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that statements stay reviewable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="midi2/src/"
p("P01","Interpreting arbitrary data never panics, and accepted messages can be read",
 "Interpreting any sequence of bytes or of 32-bit words as any message type, any message family or any packet terminates with either a message or an error; it never panics, overflows or hangs. Every read-only operation on a message or packet that was accepted (every getter, iteration of payload, text and packets, raw data, comparison, clone, debug output) also terminates without panicking.",
 ["inputs"],"every byte slice and word slice, of any length including empty and misaligned, against every message type, family and packet type",
 "The tests hand a few dozen well-formed or minimally wrong slices to each type; a panic needs a particular odd length, reserved code or inconsistent later packet.",
 [S+"message.rs",S+"detail/helpers.rs",S+"detail/common_properties.rs",S+"sysex7.rs",S+"sysex8.rs",S+"flex_data.rs",S+"ump_stream.rs",S+"packet.rs",S+"channel_voice2/controller.rs"],
 [("validation in TryFrom of each generated message","midi2_proc/src/generate_message.rs"),("sysex group validation",S+"detail/helpers.rs"),("packet size computation",S+"sysex7/packet.rs, "+S+"sysex8/packet.rs")],
 observe=["TryFrom of each type, UmpMessage/BytesMessage TryFrom, all getters and iterators"])
p("P02","A slice is accepted as a message exactly when it is a well-formed one",
 "A slice holding one candidate message is accepted as a given type exactly when it is long enough, its header (message type, status, bank, format and address) is that type's, its enumerated fields hold defined codes, and, for multi-packet messages, its packets form one complete sequence with legal sizes. Anything else is refused with an error, and data after a complete message of a fixed-size type never affects the decision.",
 ["inputs"],"every header value, every code of every enumerated field, every truncation and every packet-sequence shape, for each message type in both representations",
 "Tests pick one wrong header or one short slice per type; a hole in one status, code or sequence shape is invisible to them.",
 [S+"message.rs",S+"detail/common_properties.rs",S+"detail/helpers.rs",S+"sysex7.rs",S+"sysex8.rs",S+"flex_data.rs",S+"ump_stream.rs",S+"channel_voice2/attribute.rs",S+"channel_voice2/controller.rs"],
 [("ReadProperty::validate of each property",S+"detail/common_properties.rs"),("min-size check","midi2_proc/src/generate_message.rs")],
 observe=["Ok/Err of TryFrom<&[u32]> and TryFrom<&[u8]>"])
p("P03","Getters report the value stored at the field's defined position",
 "For every accepted message, each field getter (including group, channel, stream id and optional fields) returns exactly the value encoded at the position the wire format defines for that field. The result does not depend on any other bits of the message or on data following it.",
 ["inputs"],"every field of every message type, every field value, and arbitrary contents of all other bits",
 "Each getter is tested on one or two constants in which neighbouring fields are mostly zero; wrong masks, shifts or byte orders agree with those constants.",
 [S+"detail/bit_ops.rs",S+"detail/encode_7bit.rs",S+"detail/schema.rs",S+"detail/common_properties.rs",S+"channel_voice1.rs",S+"channel_voice2.rs",S+"flex_data.rs",S+"ump_stream.rs",S+"utility.rs",S+"system_common.rs"],
 [("schema reads",S+"detail/schema.rs"),("per-field ReadProperty impls","midi2/src/**")],
 observe=["all getters of all message types, through concrete and borrowed buffers"])
p("P04","Setters store their value and change nothing else",
 "After any sequence of setter calls on a message, every getter returns the last value given for that field (or its value before the sequence when it was not set), and setting a field leaves every bit that does not encode that field unchanged. The message's raw data always equals the wire format of its current field values.",
 ["inputs","histories"],"every sequence of setter calls with any values, starting from new or from any accepted message with arbitrary reserved bits",
 "Tests set one field once on a fresh zeroed message; overlapping masks, values not cleared before being or-ed, or a clobbered neighbour only show in a history.",
 [S+"detail/bit_ops.rs",S+"detail/encode_7bit.rs",S+"detail/schema.rs",S+"detail/common_properties.rs",S+"channel_voice2/attribute.rs",S+"channel_voice2/controller.rs",S+"channel_voice2/program_change.rs",S+"sysex8.rs"],
 [("schema writes",S+"detail/schema.rs"),("per-field WriteProperty impls","midi2/src/**")],
 observe=["all setters and getters, and data() after each call"])
p("P05","A message that was built is accepted again as the same message",
 "The raw data of any message built with this library (fresh, or after any sequence of successful edits) is accepted when interpreted as that message type, as its family and as a general message, and yields the same type with the same value of every field, payload and text.",
 ["inputs","histories"],"every message type, every combination of field values, every payload and text length, every edit history",
 "Tests check the bytes of single setters but never feed an edited message back through the parsers for all types and families.",
 [S+"message.rs",S+"channel_voice1.rs",S+"channel_voice2.rs",S+"flex_data.rs",S+"ump_stream.rs",S+"system_common.rs",S+"utility.rs",S+"sysex7.rs",S+"sysex8.rs"],
 [("default header writers","midi2_proc/src/generate_message.rs"),("family dispatch","midi2/src/*.rs")],
 observe=["data() of built messages; TryFrom of the concrete type, the family and the general message"])
p("P06","General and family messages dispatch to the right type and delegate to it",
 "Interpreting data as a message family or as a general message succeeds exactly when one of its member types accepts the data, and selects that member type. All operations on the general or family message (raw data, group, channel, bank and status, conversions between buffers) give the same result as on the member message itself.",
 ["inputs"],"every header word (all type, status, bank and format codes) with any message content, in both representations, for all families",
 "The dispatch tables have over 70 entries in two representations; tests exercise one or two entries of each.",
 [S+"message.rs",S+"channel_voice1.rs",S+"channel_voice2.rs",S+"system_common.rs",S+"flex_data.rs",S+"ump_stream.rs",S+"utility.rs"],
 [("generated dispatch on status","midi2_proc/src/derives.rs, midi2/src/*.rs")],
 observe=["enum variant chosen, delegated trait methods"])
p("P07","Editing a system exclusive payload behaves like editing a byte sequence",
 "After any sequence of successful payload edits (set the payload, splice any range, append, insert, change the number of bytes, with any data source), the payload read back from a 7-bit or 8-bit system exclusive message equals the result of the same edits on a plain sequence of bytes. Group and stream identifier keep the last value set.",
 ["inputs","histories"],"every payload length, splice range and replacement length, every edit sequence, both system exclusive types, packet and byte-stream representation, every buffer kind, starting also from accepted messages whose packets are unevenly filled",
 "Splicing moves data across packet boundaries in place; tests cover a handful of lengths and one edit each, mostly from compact messages.",
 [S+"sysex7.rs",S+"sysex8.rs",S+"detail/helpers.rs",S+"traits.rs"],
 [("splice algorithm",S+"detail/helpers.rs"),("resize and compaction",S+"sysex7.rs, "+S+"sysex8.rs")],
 observe=["payload() after each edit"])
p("P08","System exclusive messages are packetised canonically after editing",
 "After any successful payload edit of a new or compact system exclusive message the raw data is the canonical encoding of the payload: the minimum number of packets, all but the last full, statuses complete or start/continue/end, sizes matching, the message's type, group and stream identifier in every packet, and zero in every unused byte. In byte-stream form it is the start byte, the payload and the end byte.",
 ["inputs","histories"],"every payload length and edit history, both system exclusive types and both representations",
 "Expected packet images in tests exist for a few lengths; growth/shrink across a packet boundary after another edit is not among them.",
 [S+"sysex7.rs",S+"sysex8.rs",S+"detail/helpers.rs"],
 [("packet header writing on resize",S+"sysex7.rs, "+S+"sysex8.rs")],
 observe=["data() after each edit"])
p("P09","A fallible edit reports overflow exactly when the result does not fit",
 "With a size-limited buffer, setting or splicing a system exclusive payload or setting a text, or building or converting a message into that buffer, fails with an overflow error exactly when the encoded result needs more space than the buffer has, and never panics. A failed edit leaves a message that can still be read, edited and re-interpreted; a failed text or payload edit never overruns the buffer.",
 ["inputs","histories","fault_sequences"],"every buffer capacity and every length around it, for every fallible operation, at any point of an edit history",
 "Tests try one capacity that is far too small; off-by-one capacities and the state after a failure are not examined.",
 [S+"sysex7.rs",S+"sysex8.rs",S+"buffer.rs",S+"detail/helpers.rs",S+"flex_data/text.rs",S+"ump_stream.rs",S+"message.rs"],
 [("try_resize of buffers and messages",S+"buffer.rs"),("overflow handling in splice",S+"detail/helpers.rs")],
 observe=["Result of try_* operations, message state after Err"])
p("P10","Byte-stream and packet representations convert without loss",
 "Converting a message that exists in both representations from byte-stream to packet form, or back, gives a well-formed message of the same type with the same value of every field (the group is zero after coming from bytes) and the same payload, for concrete types and families. Converting there and back reproduces the byte-stream form exactly; a fallible conversion fails exactly when the destination is too small.",
 ["inputs"],"every field value and payload length of every type with two representations, every buffer kind as destination",
 "Tests convert one constant per type; the size of the converted data depends on the type, and on the payload for system exclusive.",
 [S+"traits.rs",S+"message.rs",S+"channel_voice1.rs",S+"system_common.rs",S+"sysex7.rs"],
 [("field-wise property copy","midi2_proc/src/generate_message.rs"),("system exclusive conversion",S+"sysex7.rs")],
 observe=["FromBytes, FromUmp, TryFromBytes, TryFromUmp"])
p("P11","Moving a message to another buffer preserves it",
 "Converting a message of any type to another buffer kind (growable, fixed array, borrowed, custom) yields a message of the same type whose raw data and every field equal the original's; a fallible conversion fails, without panicking, exactly when the destination cannot hold the message.",
 ["inputs","configurations"],"every message type and content (including multi-packet messages and backing buffers longer than the message), every pair of buffer kinds",
 "Tests convert a few types between two buffer kinds, with backing buffers that fit exactly.",
 [S+"message.rs",S+"traits.rs",S+"buffer.rs"],
 [("RebufferFrom/TryRebufferFrom/ArrayRebufferFrom",S+"traits.rs"),("FromBuffer/TryFromBuffer",S+"buffer.rs")],
 observe=["data() and getters of the converted message"])
p("P12","Packets of a message partition its data, and packet views agree with it",
 "Iterating the packets of a message yields its raw data cut into consecutive packets of the size its message type prescribes, in order, with nothing lost, added or repeated. Each packet is itself accepted as a packet of its family, reports the group, channel, status, format, bank, stream identifier and payload encoded in its own words, and a packet interpreted from at least as many words as its message type prescribes consists of exactly those words.",
 ["inputs"],"every message type and payload/text length, and every header word for packets",
 "Tests iterate one or two multi-packet messages and check a few packet headers.",
 [S+"packets.rs",S+"packet.rs",S+"sysex7/packet.rs",S+"sysex8/packet.rs",S+"flex_data/packet.rs",S+"ump_stream/packet.rs",S+"channel_voice1/packet.rs",S+"channel_voice2/packet.rs",S+"system_common/packet.rs",S+"utility/packet.rs"],
 [("packets iterator",S+"packets.rs"),("packet size by message type",S+"packet.rs")],
 observe=["packets(), Packet TryFrom, packet header getters"])
p("P13","Payload, text and packet iterators agree with one another and with the data",
 "Every iterator the library hands out (packets, system exclusive payload, packet payload, text bytes) yields the same items whether it is advanced one by one, by skipping ahead any number of items, or by any mix of the two; it reports a length or size hint that brackets the number of items really left; and once exhausted it stays exhausted.",
 ["inputs","histories"],"every accepted message, including unevenly filled packets, and every interleaving of advancing, skipping and asking for the length",
 "Skipping is implemented separately from stepping; tests call it with one or two offsets on full packets.",
 [S+"sysex7.rs",S+"sysex8.rs",S+"sysex7/packet.rs",S+"sysex8/packet.rs",S+"packets.rs",S+"flex_data/text.rs",S+"ump_stream.rs"],
 [("hand-written next/nth/size_hint",S+"sysex7.rs, "+S+"sysex8.rs")],
 observe=["next, nth, size_hint, len of each iterator"])
p("P14","Text survives being stored in a message, in canonical packets",
 "Text without NUL characters set on a flex-data text message or an endpoint-name, product-instance-id or function-block-name message is read back unchanged, whatever was stored before, both as text and as bytes. The message then consists of the minimum number of packets, each carrying the message's own header fields (type, group, address, channel, bank, status, block number), format complete or start/continue/end, and zero after the last byte of text.",
 ["inputs","histories"],"every text (any length, any Unicode) and sequence of texts and header-field changes, for all text message types and buffer kinds",
 "Tests store one short and one long string on a fresh message; lengths at packet boundaries, replacing a longer text, and header fields of later packets are not sampled.",
 [S+"flex_data/text.rs",S+"flex_data.rs",S+"ump_stream.rs",S+"ump_stream/endpoint_name.rs",S+"ump_stream/product_instance_id.rs",S+"ump_stream/function_block_name.rs"],
 [("text write",S+"flex_data/text.rs, "+S+"ump_stream.rs"),("text byte iterators",S+"flex_data/text.rs, "+S+"ump_stream.rs")],
 observe=["name/text/…_bytes getters and data()"])
p("P15","The kind and previous content of the backing buffer do not matter",
 "Building a message in any supported buffer (growable, fixed array of sufficient size, borrowed mutable slice, user-defined), and whatever that buffer contained before, gives the same raw data and the same values for the same sequence of operations, and a new message has every field at its default. Nothing beyond the message's own data influences what is read from it.",
 ["configurations","histories","inputs"],"every buffer kind and size at least the message's, arbitrary previous buffer content, every operation sequence",
 "Tests use one buffer kind per type, nearly always zero-filled and exactly sized.",
 [S+"buffer.rs",S+"message.rs",S+"detail/common_properties.rs",S+"ump_stream.rs",S+"flex_data.rs",S+"sysex7.rs",S+"sysex8.rs"],
 [("clearing in constructors","midi2_proc/src/generate_message.rs"),("buffer traits",S+"buffer.rs")],
 observe=["data() and getters across buffer kinds"])
p("P16","No heap allocation unless the chosen buffer allocates",
 "With array, borrowed or other non-allocating buffers, no operation of the library (interpreting, constructing, setting, editing payload or text, converting, iterating) allocates heap memory, except those whose result type itself owns heap memory.",
 ["inputs","histories"],"every operation of every message type on non-allocating buffers, with any content",
 "Tests link std and never count allocations; an accidental Vec or String passes all of them while breaking the no_std use the crate advertises.",
 [S+"lib.rs",S+"buffer.rs",S+"message.rs",S+"sysex7.rs",S+"sysex8.rs",S+"detail/helpers.rs",S+"flex_data/text.rs",S+"ump_stream.rs"],
 [("generic buffers, iterators instead of collections","midi2/src/**")],
 observe=["calls into the global allocator"])
p("P17","Builds of the library are free of memory errors and checked-mode surprises",
 "No sequence of safe calls to the library causes undefined behaviour, an out-of-bounds access or arithmetic whose result differs between checked and unchecked builds: the outcome of every operation is the same in a debug build, in an optimised build, and under memory-error and undefined-behaviour checkers.",
 ["inputs","histories","configurations"],"all workloads of the other properties, under each build configuration and checker",
 "The tests run in one unoptimised configuration without sanitizers on a few values.",
 [S+"detail/helpers.rs",S+"sysex7.rs",S+"sysex8.rs",S+"buffer.rs",S+"message.rs"],
 [("absence of unsafe code, checked indexing","midi2/src/**")],
 observe=["result digests across builds; sanitizer and Miri reports"])
p("P18","Capability-inquiry discovery messages encode and decode correctly",
 "A capability-inquiry discovery message of either version, built in byte-stream form, carries the universal header, version, source, broadcast destination, device identity, supported-feature bits, maximum message size and (second version) output path at their defined 7-bit positions; setting any of them changes only that field. Any data is either refused or readable without panic, and built messages are accepted again as the same version with equal fields.",
 ["inputs","histories"],"every field value, setter sequence and buffer kind; every corrupted, truncated or foreign system exclusive message",
 "A handful of tests check one value per field.",
 [S+"ci.rs",S+"ci/common_properties.rs",S+"ci/device_id.rs",S+"ci/discovery.rs",S+"ci/property.rs",S+"ci/version.rs"],
 [("property read/write over system exclusive payload",S+"ci/property.rs"),("message generation","midi2_proc/src/generate_ci.rs")],
 observe=["getters, setters and payload of the discovery message"])
p("P19","Features only select what is available, never what it does",
 "In every combination of optional features the library builds, and every message type enabled in that combination behaves exactly as with all features enabled (only whether text is checked to be UTF-8 depends on the standard library being enabled); the general message then recognises exactly the enabled families.",
 ["configurations","inputs"],"feature subsets (each single feature, none, the default, all, and no-allocation variants) and the workloads of the dispatch and encoding properties",
 "The test suite is run with all features and with none; dispatch tables and conversions change with each subset.",
 ["midi2/Cargo.toml",S+"lib.rs",S+"message.rs",S+"packet.rs"],
 [("cfg(feature) gates",S+"lib.rs, "+S+"message.rs, "+S+"packet.rs")],
 observe=["result digests of the same workload in each feature build"])
p("P20","Comparison, copies and debug output follow the data",
 "Two messages of one type, family or general kind (or two packets) whose buffers hold exactly the message compare equal exactly when their raw data is equal. A copy equals its original, and editing the copy leaves the original unchanged. The debug output lists exactly the words or bytes of the message in order, so it is the same for equal messages and differs between different ones.",
 ["inputs"],"every pair of accepted messages or packets, of any length, in particular pairs differing in one bit, one field or one later packet",
 "Tests compare messages with literals they are equal to; a comparison or printout that ignores part of a message passes all of them, and hides other failures.",
 ["midi2_proc/src/generate_message.rs","midi2_proc/src/derives.rs",S+"message.rs",S+"packet.rs",S+"buffer.rs"],
 [("derived PartialEq and Clone of generated messages","midi2_proc/src/generate_message.rs"),("Debug of messages and packets","midi2_proc/src/derives.rs")],
 observe=["==, !=, clone() and {:?} of messages and packets"])
p("P21","Results do not depend on the target's word size or byte order",
 "The crate builds for a target with 32-bit addresses, and on 32-bit and big-endian targets every operation gives the same result as on a 64-bit little-endian host: the same values, the same words and bytes in memory order of their type, the same acceptance, refusals, iterator lengths and debug output, and no panic that the host does not have.",
 ["inputs","configurations"],"every input and target: word size 32 or 64, either byte order",
 "The crate is written for embedded use without std, but its tests run on the 64-bit little-endian build host only; arithmetic on usize that fits there overflows on a 32-bit target, and octets taken in native order come out reversed on a big-endian one.",
 [S+"detail/bit_ops.rs",S+"detail/helpers.rs",S+"sysex7.rs",S+"sysex8.rs",S+"ci.rs"],
 [("bit access on words and bytes",S+"detail/bit_ops.rs"),("sizes and positions of content",S+"detail/helpers.rs")],
 observe=["outcomes of every operation on wasm32 and powerpc against those on the host"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
