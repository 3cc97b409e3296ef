ID='bank-by-port'; PROPERTY='C18'
NEEDS='bank selects on channels 8-15'
BREAKS='bank selects on channels 8 apart overwrite each other'
SUBS=[('midi/MTrk.go', '\t\t\t\tc := uint8(k.Channel)\n\t\t\t\te.Event = k.SetBank', '\t\t\t\tc := uint8(k.Channel & 0x0b)\n\t\t\t\te.Event = k.SetBank')]
MAIN='package main\nimport ("bytes";"fmt";"os";"strings"\n "github.com/transcriptaze/midiasm/encoding/midi"\n "github.com/transcriptaze/midiasm/midi"\n "github.com/transcriptaze/midiasm/midi/context"\n "github.com/transcriptaze/midiasm/midi/events"\n "github.com/transcriptaze/midiasm/midi/events/meta"\n "github.com/transcriptaze/midiasm/midi/events/midi"\n "github.com/transcriptaze/midiasm/midi/events/sysex"\n "github.com/transcriptaze/midiasm/midi/lib"\n "github.com/transcriptaze/midiasm/ops/assemble"\n "github.com/transcriptaze/midiasm/ops/disassemble"\n "github.com/transcriptaze/midiasm/ops/export"\n "github.com/transcriptaze/midiasm/ops/notes"\n "github.com/transcriptaze/midiasm/ops/transpose")\nvar _ = bytes.NewReader; var _ = strings.Contains; var _ = context.NewContext; var _ events.IEvent; var _ metaevent.Tempo; var _ midievent.NoteOn\nvar _ sysex.SysExMessage; var _ lib.Delta; var _ assemble.TextAssembler; var _ disassemble.Disassemble; var _ export.Export; var _ notes.Notes; var _ transpose.Transpose; var _ midi.SMF\nfunc die(a ...any) { fmt.Println(a...); os.Exit(1) }\nfunc file(tracks ...[]byte) []byte {\n f := 1; if len(tracks)==1 { f=0 }\n b := []byte{\'M\',\'T\',\'h\',\'d\',0,0,0,6,0,byte(f),0,byte(len(tracks)),0,96}\n for _, t := range tracks {\n  t = append(append([]byte{},t...),0,0xff,0x2f,0)\n  n := len(t)\n  b = append(b,\'M\',\'T\',\'r\',\'k\',byte(n>>24),byte(n>>16),byte(n>>8),byte(n))\n  b = append(b,t...)\n }\n return b\n}\nfunc decode(b []byte) *midi.SMF {\n smf, err := midifile.NewDecoder().Decode(bytes.NewReader(b))\n if err != nil { die("decode:",err) }\n return smf\n}\nfunc encode(smf *midi.SMF) []byte {\n var b bytes.Buffer\n if err := midifile.NewEncoder(&b).Encode(*smf); err != nil { die("encode:",err) }\n return b.Bytes()\n}\nfunc list(smf *midi.SMF) string {\n op, err := disassemble.NewDisassemble()\n if err != nil { die(err) }\n var w bytes.Buffer\n if err := op.Print(smf, "document", &w); err != nil { die(err) }\n return w.String()\n}\nfunc tojson(smf *midi.SMF) string {\n op, err := export.NewExport()\n if err != nil { die(err) }\n var w bytes.Buffer\n if err := op.Export(smf, &w); err != nil { die(err) }\n return w.String()\n}\nvar _ = decode; var _ = encode; var _ = list; var _ = tojson; var _ = file\nfunc main() {\n smf := decode(file([]byte{0,0xbc,0,1, 0,0xbc,0x20,2, 0,0xcc,5}))\n if p, ok := smf.Tracks[0].Events[2].Event.(midievent.ProgramChange); !ok || p.Bank != 130 { die(p.Bank) }\n}\n'
