import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs=None):
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs or [],"hook_needed":None}})
EV=["midi/events/meta/*.go","midi/events/midi/*.go","midi/events/sysex/*.go"]
p("C01","Binary events decode to exactly the fields the MIDI bytes carry",
 "Decoding a well-formed MIDI event - through the track decoder or through an event's own binary decoding - yields an event of the kind its status (and meta type) byte denotes, and the delta time and every field of that event (channel, note, velocity, controller and value, program, pressure, bend, tempo, time and key signature, SMPTE offset, text, manufacturer, data, ...) equals the value held in the event's bytes, bit for bit.",
 ["inputs"],"every event kind, every value of every payload byte, every delta time, every legal length encoding, with explicit or running status",
 "The tests decode one hand-picked byte string per event; a wrong mask, shift or index that agrees on that string is invisible.",
 ["midi/MTrk.go","midi/events/binary.go"]+EV,[("Parse / unmarshal / UnmarshalBinary per kind","midi/events/*/"),("track event reader","midi/MTrk.go:parse")],["events of a decoded file"])
p("C02","Encoding an event writes exactly the bytes the event was decoded from",
 "Encoding an event that was decoded from MIDI bytes gives back its status byte, meta type, a length that is the number of data bytes written, and the same data bytes; re-encoding never drops, adds, truncates or alters a byte of the event for any field value or data length.",
 ["inputs"],"every event kind, every field value, every data length",
 "MarshalBinary tests use one fixed event per kind with short payloads; lengths >= 128 bytes, 14-bit values and high bits are never sampled.",
 EV+["midi/lib/types.go"],[("MarshalBinary per kind","midi/events/*/"),("variable length fields","midi/lib/types.go")],["bytes written by assemble, transpose"])
p("C03","Variable-length quantities are encoded minimally and decoded exactly",
 "Every delta time and data length from 0 to 0x0FFFFFFF is written as the minimal SMF variable-length quantity (7 bits per byte, most significant group first, continuation bit on every byte but the last), and every decoder of the system maps each legal 1 to 4 byte quantity back to exactly that number and consumes exactly those bytes.",
 ["inputs"],"all 2^28 values, every encoder and decoder in the system",
 "Tests sample about a dozen quantities out of 2^28 and not every one of the duplicated decoders.",
 ["midi/lib/delta.go","midi/lib/types.go","midi/events/event.go","midi/events/binary.go","midi/events/meta/metaevent.go","midi/events/midi/midievent.go","midi/events/sysex/sysex.go"],[("vlq encoders","midi/lib"),("vlq decoders","midi/events")])
p("C04","Exporting to JSON and assembling it again preserves every event",
 "For every event, assembling the JSON that the system itself exports for it yields an event of the same kind with the same delta time and the same field values, so that it encodes to the same MIDI bytes (text fields being valid UTF-8).",
 ["inputs"],"every event kind and every field value",
 "Tests compare one exported document and one assembled document; no test composes the two over field values.",
 EV+["midi/events/json.go","midi/lib/*.go","ops/export/export.go","ops/assemble/json.go"],[("MarshalJSON/UnmarshalJSON pairs","midi/events/*/"),("tag dispatch","midi/events/json.go")])
p("C05","Disassembling to text and assembling it again preserves every event",
 "For every event, assembling the listing line that the disassembler prints for it yields an event of the same kind with the same delta time and the same musical content, so that it encodes to the same MIDI bytes (for text without line breaks or leading blanks, known manufacturers, and the default note naming).",
 ["inputs"],"every event kind and every field value in range",
 "Tests print and parse single sample lines; digits, signs, optional parts and the template/regex pairing are not explored.",
 EV+["ops/disassemble/template","ops/disassemble/disassemble.go","midi/events/text.go","ops/assemble/text.go"],[("template","ops/disassemble/template"),("UnmarshalText regular expressions","midi/events/*/")])
p("C06","Every event kind is handled by every format, as itself",
 "Each of the 28 event kinds that can be decoded from a MIDI file is dispatched to its own implementation - and never to another kind's - when it is decoded from MIDI, assembled from JSON or text, encoded, exported to JSON, listed by the disassembler and tabulated; unknown kinds and tags are rejected with an error.",
 ["inputs","configurations"],"all event kinds x all formats",
 "Each dispatcher is a long hand-written table; tests hit some rows of some tables.",
 ["midi/events/binary.go","midi/events/json.go","midi/events/text.go","midi/events/meta/metaevent.go","midi/events/midi/midievent.go","midi/events/sysex/sysex.go","midi/lib/tag.go","midi/lib/event.go","ops/disassemble/template","commands/tsv.go"],[("dispatch tables","midi/events/*.go")])
p("C07","Malformed event data is rejected with an error",
 "An event whose data does not have the length its kind requires, whose value is outside the range the kind allows, whose status or type byte is not that kind's, or which ends early is rejected with an error by the binary decoders: it is never accepted with invented, stale or truncated field values.",
 ["inputs"],"every event kind, every data length and every out-of-range value",
 "Tests feed only well-formed events apart from a few fixed negatives.",
 EV+["midi/MTrk.go","encoding/midi/decoder.go"],[("length and range checks","midi/events/*/")])
p("C08","Decoding never crashes, whatever the input bytes",
 "For every byte sequence presented as a MIDI file or as a single binary event, decoding returns a result or an error: it never panics with an index, slice, nil, type or explicit panic.",
 ["inputs"],"all byte sequences of any length",
 "No fuzzing in the tests; the inputs are all valid files.",
 ["encoding/midi/decoder.go","midi/MThd.go","midi/MTrk.go","midi/events"],[("bounds guards","everywhere a byte slice is indexed")])
p("C09","Assembling never crashes, whatever the JSON or text",
 "For every JSON document and every text listing, assembling an event, a track or a file returns bytes or an error and never panics.",
 ["inputs"],"all JSON documents and text lines",
 "Tests only assemble valid documents.",
 ["ops/assemble/*.go","midi/events"],[("field validation before Make*","midi/events/*/")])
p("C10","Out-of-range values never reach a MIDI file",
 "Whatever JSON or text is assembled, every event that is accepted encodes to well-formed MIDI: channel 0-15 in the status byte, every channel-message data byte 0-127, tempo within 24 bits, key signature and SMPTE offset within their legal sets; a value that does not fit is rejected with an error instead of being silently wrapped, masked or truncated.",
 ["inputs"],"all field values accepted by the JSON and text readers",
 "Tests assemble valid values only.",
 EV+["midi/lib/channel.go"],[("range checks in UnmarshalJSON / UnmarshalText / Parse*","midi/events/*/")])
p("C11","File and track framing is exact",
 "A file is written as one MThd chunk of length 6 carrying the format, the number of tracks that follow and the division, followed by one MTrk chunk per track whose length field is exactly the number of bytes of event data that follow it, in the order of the events; decoding reads those same fields back and rejects files whose header, track tag or track count is inconsistent.",
 ["inputs","histories"],"all headers, any number of tracks and events",
 "Tests check two or three sample files.",
 ["encoding/midi/encoder.go","encoding/midi/decoder.go","midi/MThd.go","midi/MTrk.go"],[("EncodeMTrk","encoding/midi/encoder.go"),("chunker","encoding/midi/decoder.go")])
p("C12","Running status is interpreted correctly when decoding",
 "An event without a status byte is decoded with the status of the closest preceding channel event of the same track, every meta or system-exclusive event cancels running status, and a data byte with no running status in effect is an error.",
 ["inputs","histories"],"all sequences of events in a track",
 "Tests contain only single short running-status sequences.",
 ["midi/MTrk.go","midi/events/midi/midievent.go"],[("running status state","midi/context/context.go")])
p("C13","Running status is only used when the decoder would infer the same status",
 "When encoding omits an event's status byte, the event is a channel event and the event written immediately before it in the same track is one with the same status byte, so that decoding the output infers exactly the omitted status.",
 ["histories"],"all sequences of events in a track",
 "Tests encode a few fixed sequences.",
 ["encoding/midi/encoder.go"],[("running status fixup","encoding/midi/encoder.go:EncodeMTrk")])
p("C14","Event ticks are the running sum of delta times",
 "In a decoded track the tick of every event equals the sum of the delta times of that event and of all events before it in the same track, and the events are kept in file order, none lost or duplicated.",
 ["histories","inputs"],"all tracks",
 "Tests compare a few fixed tracks.",
 ["midi/MTrk.go"],[("tick accumulator","midi/MTrk.go:UnmarshalBinary")])
p("C15","Transposing changes notes and keys, and nothing else",
 "Transposing by n semitones moves every note-on and note-off by n, limited to 0..127, identically for both, renames it consistently, replaces a key signature by one with the same mode whose tonic is n semitones away (modulo 12), and leaves every other event, all delta times, ticks, channels, velocities and the order and number of events unchanged.",
 ["inputs"],"all notes, all steps, all key signatures, all event kinds",
 "Tests transpose one file by one interval.",
 ["ops/transpose/transpose.go","midi/events/midi/note_on.go","midi/events/midi/note_off.go","midi/events/meta/key_signature.go","midi/lib/scales.go"],[("Transpose methods","midi/events")])
p("C16","The reference tables are right and internally consistent",
 "Every scale has the accidental count, mode, name and seven notes of its key signature, with exactly one scale per accidental count and mode; every controller and manufacturer entry is filed under its own identifier, manufacturer names are unique, every note has its own pitch class, and each event tag is printed and parsed under the same name.",
 ["inputs"],"every entry of every table",
 "Tests look up a handful of entries.",
 ["midi/lib/scales.go","midi/lib/note.go","midi/lib/controller.go","midi/lib/manufacturer.go","midi/lib/tag.go","midi/context/context.go"],[("tables","midi/lib")])
p("C17","Note names and note numbers are exact inverses",
 "For every note number 0..127, in sharp or flat spelling and under either middle C convention, the name printed denotes that note, and parsing a printed name gives back the same number; an invalid name or a name outside the MIDI range is rejected.",
 ["inputs","configurations"],"128 notes x 2 spellings x 2 conventions",
 "Tests cover a few notes in one convention.",
 ["midi/context/context.go","midi/events/midi/midievent.go","midi/events/midi/note_on.go","midi/lib/note.go"],[("FormatNote / ParseNote","midi/context, midi/events/midi")])
p("C18","Program changes carry the bank selected on their own channel",
 "The bank of a decoded program change is the 14-bit value formed by the latest bank-select MSB (controller 0, upper 7 bits) and LSB (controller 32, lower 7 bits) on the same channel of the same track, and 0 if there is none; no other event changes it.",
 ["histories"],"all sequences of controller and program change events on all channels",
 "Tests use one bank/program sequence on one channel.",
 ["midi/MTrk.go","midi/events/midi/program_change.go"],[("program bank map","midi/MTrk.go")])
p("C19","Validation reports exactly the documented violations",
 "Validation reports an error if and only if a format 0 file does not have exactly one track, a format 1 file has a track-0 event outside the tempo-track set or a tempo or SMPTE offset event outside track 0, a track has no end-of-track event or has one that is not last, or a bank-select MSB and LSB are not an adjacent pair on one channel; each report names the right track.",
 ["inputs","histories"],"all decoded files",
 "There are tests for single instances of some rules only.",
 ["midi/smf.go","midi/events/event.go"],[("Validate","midi/smf.go")])
p("C20","Tracks and files are decoded independently of one another",
 "Decoding a track depends only on that track's bytes and the global configuration (manufacturers, middle C): each track starts from a fresh context, and neither decoding, encoding nor any operation writes package-level state, so the result does not depend on what was processed before.",
 ["histories","schedules"],"any sequence of files and tracks",
 "Tests process one file per process state.",
 ["encoding/midi/decoder.go","midi/context/context.go","midi/lib"],[("NewContext per track","encoding/midi/decoder.go")])
p("C21","Output is deterministic",
 "The same input and options always produce byte-identical output from every command: no output depends on map iteration order, on an unstable sort, on time, randomness or on goroutine scheduling.",
 ["schedules","inputs"],"all inputs and all map orders and schedules",
 "A single run cannot see a different map order.",
 ["ops","commands","midi"],[("sorted or order-insensitive iteration","")])
p("C22","No failure is swallowed",
 "Every error raised while reading, decoding, assembling, encoding, transposing or writing is returned to the caller: no operation reports success after a step it depends on failed, and a failed command ends with a non-zero exit status.",
 ["fault_sequences","inputs"],"every call that can fail, on every path",
 "Failures of I/O and of nested decoding are not injected by the tests.",
 ["commands","ops","encoding","midi","cmd/midiasm"],[("error returns","everywhere")])
p("C23","Inputs are never modified and outputs are only written on success",
 "A command only ever writes files named by its output options (with --split alone: new files beside the input); it opens its inputs read-only and creates or truncates an output file only after the input was read and decoded successfully.",
 ["inputs","fault_sequences"],"all commands and options",
 "Tests never run the commands on files.",
 ["commands","cmd/midiasm"],[("os.Create / os.WriteFile call sites","commands")])
p("C24","Every loop over input makes progress and ends",
 "Decoding, assembling and all operations terminate on every finite input: each loop advances a bounded counter, a range or a reader, and no loop can continue without consuming input.",
 ["inputs"],"all inputs",
 "A hang only shows on the particular input that causes it.",
 ["midi","ops","encoding"],[("loop bounds","everywhere")])
p("C25","Read-only operations leave the decoded file unchanged",
 "Validating, disassembling, exporting, tabulating and listing notes never modify the header, tracks or events they are given, so their order and repetition does not matter.",
 ["histories"],"all operations on all files",
 "Tests run one operation per decoded file.",
 ["midi/smf.go","ops","commands"],[("value receivers and absence of stores","")])
p("C26","Notes are paired on their own channel and key",
 "In the notes listing, each note-off (or note-on with velocity 0) ends the sounding note with the same channel and key and no other; every note carries the channel, key and velocity of the note-on that started it.",
 ["histories"],"all sequences of note events",
 "The test uses one file.",
 ["ops/notes/notes.go"],[("pending note map","ops/notes/notes.go")])
p("C27","Concurrent assembly is race-free and cannot deadlock or leak",
 "While a text listing is assembled, every goroutine that is started terminates whatever the input and on every early return, no data is shared between goroutines without synchronisation, and no send happens on a closed channel.",
 ["schedules","inputs"],"all schedules and inputs",
 "Tests run one schedule on valid input.",
 ["ops/assemble/text.go"],[("scan/chunkify/parseMTrk goroutines","ops/assemble/text.go")])
p("C28","Each command honours its own options",
 "Every command-line option is stored in the option set of the command that declares it and is read by that command, with no two options of a command sharing a variable, so that an option never silently changes or is ignored by another command.",
 ["configurations"],"all commands and options",
 "No tests run the command line.",
 ["commands"],[("flag registration","commands/*.go")])
p("C29","Decoded tick-to-time conversion and click tables are numerically accurate",
 "The times reported for notes equal the sum over tempo segments of ticks x tempo / PPQN, rounded to the documented precision.",
 ["inputs"],"all tempo maps",
 "Tests check one file.",
 ["ops/notes/notes.go","ops/click/click.go"],[("tempo map","ops/notes/notes.go")])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
