AI="abstract interpretation of the SSA form (bit-provenance, linear-interval and sequence-shape domains)"
TRUST=" Trusts the analyser's models of the standard library functions used (bytes, strings, fmt, encoding/json, regexp, bufio) and go/ssa. An obligation that the abstraction cannot settle is listed as undecided in the evidence and is not reported as a violation; on the committed tree there are none unless the evidence says so."
t("C01",AI+" of every decoder on symbolic event bytes, compared with the format's field expressions",
 "All values of all payload bytes, all 1-4 byte deltas and lengths, for every kind through its own decoder, the event dispatcher and the track decoder."+TRUST)
t("C02",AI+" of decoder followed by encoder on symbolic event bytes, compared byte by byte with the minimal form of the input",
 "All field values and data lengths, each kind through its own encoder, the track encoder and the file encoder."+TRUST)
t("C03",AI+" of every VLQ encoder and decoder over all 28-bit values, by length class",
 "All values 0..0x0FFFFFFF and all legal encodings, in every function that reads or writes a quantity."+TRUST)
t("C04",AI+" of decode, JSON export and JSON assembly on symbolic events and files, encoding/json being modelled on trees of keys and symbolic values",
 "All field values of each of the 28 kinds as single events; files of one and two tracks with symbolic contents. Text fields are taken to be valid UTF-8; the end flag of SysEx continuation packets is only restored by the file assembler."+TRUST)
t("C05",AI+" of decode, disassembly (the embedded text templates evaluated on the abstract file) and text assembly on symbolic files",
 "All field values of each kind, plus multi-event and multi-track shapes; regular expressions are matched on character classes with sampled segment lengths. Text payloads without NUL, line breaks and leading blanks; known manufacturers; metrical time."+TRUST)
t("C07",AI+" of every decoder on symbolic malformed events: every path must end in an error",
 "Each malformation class of each kind, all other bytes free; classes are listed in the evidence."+TRUST)
t("C08",AI+" of the decoders on arbitrary bytes: every index, slice, nil, type-assertion, conversion and explicit-panic site reachable must be discharged on every path",
 "Arbitrary input length and contents; a site that cannot be discharged is re-run with exact input lengths to find a concrete crash path, and reported only then."+TRUST)
t("C09",AI+" of the assemblers on unconstrained documents: every index, slice, nil, type-assertion and explicit-panic site reachable must be discharged on every path",
 "Any JSON value at any place of a document and any text line of each class, each kind through its own UnmarshalJSON and UnmarshalText followed by the encoder; sequences of line classes up to the bound listed in the evidence."+TRUST)
t("C10",AI+" of both assemblers and the encoder on exported documents in which one number is replaced by a free integer",
 "Every number of the JSON and text form of every kind and of the header, replaced by any integer in +-2^40; a document that is accepted must decode again to that number (or to the original file). One number is replaced at a time."+TRUST)
t("C11",AI+" of header, track and file encoder and decoder on symbolic chunks",
 "All header bytes; files of 0-3 tracks and unknown chunks with free contents; the track decoder inside the file decoder is replaced by a recorder of the bytes it is given (it is judged by C01, C12, C14)."+TRUST)
t("C12",AI+" of the track decoder on symbolic tracks with omitted status bytes",
 "All pairs of channel kinds with free channels and data, all cancelling kinds; tracks of up to 4 events."+TRUST)
t("C13",AI+" of the track encoder on symbolic decoded tracks, compared with the set of legal encodings",
 "All ordered pairs of kinds, triples of the kinds that interact, chains of 4 notes; statuses equal or different on every channel."+TRUST)
t("C14",AI+" of the track decoder on symbolic tracks, comparing tick expressions and event lists",
 "All ordered pairs of kinds with free contents, chains of 20 events with free 28-bit deltas (sums beyond 32 bits)."+TRUST)
t("C15",AI+" of decode, the transpose operation and encode on symbolic files with a free semitone count, compared with the input's bytes with the note moved and clamped",
 "All single-event files of every kind and multi-event shapes with free contents and free semitones -1000..1000; every note number with a spread of semitone counts for the note names; every key signature with every shift for the keys."+TRUST)
t("C16",AI+" of the lookup and parse functions and of the initialised tables (keys, controllers, manufacturers, note names, event tags), compared with the MIDI specification's tables by exhaustive enumeration of the index space",
 "Every entry of every table; names unique, parse inverse to print, key signature scale notes consistent with the key."+TRUST)
t("C17",AI+" of note naming and note parsing for every note number under both accidental spellings and every key signature",
 "All 128 notes x both spellings x both middle C conventions; parsing of every printed name."+TRUST)
t("C18",AI+" of the track decoder on symbolic bank-select sequences",
 "All sequences of up to three bank selects on free channels, with any other event in between."+TRUST)
FL="dataflow over the whole-program SSA: "
t("C19",AI+" of the decoder and of Validate on symbolic files, comparing the tracks named by the reports with those that break a documented rule",
 "Every kind in track 0, 1 and 2 of each format, files of 0-3 tracks, missing, misplaced and repeated end of track, bank selects with equal and different channels and any event between; contents free. The number and wording of the reports are not judged, only which tracks they name."+TRUST)
t("C20",FL+"interprocedural effect analysis (writes through pointers rooted in package variables) over everything the commands call; and "+AI+" of the file decoder on two-track files, the second track compared with its decoding by itself",
 "Effects: every function reachable from a command by static, interface and closure calls. Tracks: pairs of kinds with free contents (thorough: all ordered pairs)."+TRUST)
t("C22",FL+"value flow of every error result and path search from every branch taken because of an error to a return without one",
 "Every call that returns an error and every test of an error in the repository's functions. Deferred and explicit Close results and diagnostics are exempt; io.EOF and similar recognised errors are taken as handled."+TRUST)
t("C25",FL+"interprocedural effect analysis of the read-only operations; and "+AI+" of validate, disassemble and export on symbolic files, comparing all reachable objects before and after",
 "Effects: the operations and the commands' helpers given a file; objects: the file shapes of C04 with free contents."+TRUST)
t("C26",AI+" of the decoder and the notes operation on files with fixed channels, keys and ticks and free velocities, comparing the exported notes with the pairing by channel and key",
 "Sequences of up to 6 note events over equal and different channels and keys (quick and thorough alike); start and end are judged by which event's time they are, not by the time arithmetic (C29)."+TRUST)
t("C21",FL+"every iteration over a map is classified by what its body does with the entries (sets, sums, entries per key, extrema, lookups, lists sorted by a total order before use, or ordered effects); calls to clocks, random sources and the environment, address formatting and racing selects are searched for in every function",
 "Every map iteration and every call in the repository's functions. That no two entries of the built-in tables tie in a lookup or in the search for a tag is checked by C16; scheduling is judged by C27."+TRUST)
t("C23",FL+"backward slice of the path argument of every call that writes the file system, through calls, parameters and option fields; and path search from each command's Execute to those calls, avoiding or following a failure of the read and decode of the input",
 "Every file-writing call reachable from a command. That two different names do not denote the same file (links, an output option naming the input) is not judged."+TRUST)
t("C27",FL+"channel protocol analysis of every go statement (drain, close and quit obligations on every path of every process) and access analysis of the memory shared with it",
 "All paths and schedules, per go statement; goroutines joined by package sync would be reported as undecided. Panics of the starter are not considered."+TRUST)
t("C28",FL+"registration, ownership, aliasing and reads of every option variable over the call graph of each command",
 "Every option of every command and of main; that an option is read is shown, not that the value has the documented effect (C05, C15 and C26 judge the operations). The humanise command is unfinished (it always fails) and its option is exempt from being read."+TRUST)
t("C24",FL+"every path round every natural loop is enumerated on the SSA and must take a range element, move a variable of the exit tests, receive, or consume input by a read whose failure leaves the loop",
 "Every loop of every function; up to 3000 paths per loop; a variable that moves is taken to reach its bound (overflow and moving bounds are not judged); recursion is left undecided."+TRUST)
NA={"C29":"The times are products and quotients of unbounded quantities (ticks x tempo / PPQN) accumulated in floating point over the tempo map; the domains here are linear, and no sound static argument in reach bounds the rounding.",
"C06":"Covered by other checks as far as static analysis reaches: decoding (C01), encoding (C02), JSON (C04), text (C05) and the tag table (C16) each prove for every kind that it comes out as itself; what is left is the tabulation in commands/tsv.go, whose result only reaches files through unexported functions, so that a rule about them would judge how the code is written."}
