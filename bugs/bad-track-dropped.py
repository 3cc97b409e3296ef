ID='bad-track-dropped'; PROPERTY='C22'
NEEDS='a file whose last tracks cannot be decoded'
BREAKS='the decoder returns the tracks before a broken one as if they were the whole file'
SUBS=[('encoding/midi/decoder.go', 'UnmarshalBinary(chunk); err != nil {\n\t\t\t\t\treturn nil, err\n\t\t\t\t}', 'UnmarshalBinary(chunk); err != nil {\n\t\t\t\t\tsmf.MThd.Tracks = uint16(len(smf.Tracks))\n\t\t\t\t\tbreak\n\t\t\t\t}')]
MAIN='package main\nimport ("bytes";"os/exec";"runtime";"time";"path/filepath";"fmt";"os";"strings"\n "github.com/transcriptaze/midiasm/encoding/midi"\n "github.com/transcriptaze/midiasm/midi"\n "github.com/transcriptaze/midiasm/midi/context"\n "github.com/transcriptaze/midiasm/midi/events"\n "github.com/transcriptaze/midiasm/midi/events/meta"\n "github.com/transcriptaze/midiasm/midi/events/midi"\n "github.com/transcriptaze/midiasm/midi/events/sysex"\n "github.com/transcriptaze/midiasm/midi/lib"\n "github.com/transcriptaze/midiasm/ops/assemble"\n "github.com/transcriptaze/midiasm/ops/disassemble"\n "github.com/transcriptaze/midiasm/ops/export"\n "github.com/transcriptaze/midiasm/ops/notes"\n "github.com/transcriptaze/midiasm/ops/transpose")\nvar _ = exec.Command; var _ = runtime.NumGoroutine; var _ = time.Now; var _ = filepath.Join; var _ = bytes.NewReader; var _ = strings.Contains; var _ = context.NewContext; var _ events.IEvent; var _ metaevent.Tempo; var _ midievent.NoteOn\nvar _ sysex.SysExMessage; var _ lib.Delta; var _ assemble.TextAssembler; var _ disassemble.Disassemble; var _ export.Export; var _ notes.Notes; var _ transpose.Transpose; var _ midi.SMF\nfunc die(a ...any) { fmt.Println(a...); os.Exit(1) }\nfunc file(tracks ...[]byte) []byte {\n f := 1; if len(tracks)==1 { f=0 }\n b := []byte{\'M\',\'T\',\'h\',\'d\',0,0,0,6,0,byte(f),0,byte(len(tracks)),0,96}\n for _, t := range tracks {\n  t = append(append([]byte{},t...),0,0xff,0x2f,0)\n  n := len(t)\n  b = append(b,\'M\',\'T\',\'r\',\'k\',byte(n>>24),byte(n>>16),byte(n>>8),byte(n))\n  b = append(b,t...)\n }\n return b\n}\nfunc decode(b []byte) *midi.SMF {\n smf, err := midifile.NewDecoder().Decode(bytes.NewReader(b))\n if err != nil { die("decode:",err) }\n return smf\n}\nfunc encode(smf *midi.SMF) []byte {\n var b bytes.Buffer\n if err := midifile.NewEncoder(&b).Encode(*smf); err != nil { die("encode:",err) }\n return b.Bytes()\n}\nfunc list(smf *midi.SMF) string {\n op, err := disassemble.NewDisassemble()\n if err != nil { die(err) }\n var w bytes.Buffer\n if err := op.Print(smf, "document", &w); err != nil { die(err) }\n return w.String()\n}\nfunc tojson(smf *midi.SMF) string {\n op, err := export.NewExport()\n if err != nil { die(err) }\n var w bytes.Buffer\n if err := op.Export(smf, &w); err != nil { die(err) }\n return w.String()\n}\nvar _ = decode; var _ = encode; var _ = list; var _ = tojson; var _ = file\nfunc main() {\n\n b := file([]byte{0,0x90,60,64},[]byte{0,0x90,60,0x85})\n if _, err := midifile.NewDecoder().Decode(bytes.NewReader(b)); err == nil { die("a broken track was accepted") }\n\n}\n'
