ID='write-before-check'; PROPERTY='C23'
NEEDS='an assemble command with an invalid source and an existing output file'
BREAKS='an existing MIDI file is replaced by an empty one although the source could not be assembled'
SUBS=[('commands/assemble.go', '\tif err != nil {\n\t\treturn err\n\t}\n\n\tif a.out != "" {\n\t\tif err := os.WriteFile(a.out, midi, 0660); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n\n\treturn nil', '\tif a.out != "" {\n\t\tif err := os.WriteFile(a.out, midi, 0660); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n\n\treturn err')]
MAIN='package main\nimport ("bytes";"os/exec";"runtime";"time";"path/filepath";"fmt";"os";"strings"\n "github.com/transcriptaze/midiasm/encoding/midi"\n "github.com/transcriptaze/midiasm/midi"\n "github.com/transcriptaze/midiasm/midi/context"\n "github.com/transcriptaze/midiasm/midi/events"\n "github.com/transcriptaze/midiasm/midi/events/meta"\n "github.com/transcriptaze/midiasm/midi/events/midi"\n "github.com/transcriptaze/midiasm/midi/events/sysex"\n "github.com/transcriptaze/midiasm/midi/lib"\n "github.com/transcriptaze/midiasm/ops/assemble"\n "github.com/transcriptaze/midiasm/ops/disassemble"\n "github.com/transcriptaze/midiasm/ops/export"\n "github.com/transcriptaze/midiasm/ops/notes"\n "github.com/transcriptaze/midiasm/ops/transpose")\nvar _ = exec.Command; var _ = runtime.NumGoroutine; var _ = time.Now; var _ = filepath.Join; var _ = bytes.NewReader; var _ = strings.Contains; var _ = context.NewContext; var _ events.IEvent; var _ metaevent.Tempo; var _ midievent.NoteOn\nvar _ sysex.SysExMessage; var _ lib.Delta; var _ assemble.TextAssembler; var _ disassemble.Disassemble; var _ export.Export; var _ notes.Notes; var _ transpose.Transpose; var _ midi.SMF\nfunc die(a ...any) { fmt.Println(a...); os.Exit(1) }\nfunc file(tracks ...[]byte) []byte {\n f := 1; if len(tracks)==1 { f=0 }\n b := []byte{\'M\',\'T\',\'h\',\'d\',0,0,0,6,0,byte(f),0,byte(len(tracks)),0,96}\n for _, t := range tracks {\n  t = append(append([]byte{},t...),0,0xff,0x2f,0)\n  n := len(t)\n  b = append(b,\'M\',\'T\',\'r\',\'k\',byte(n>>24),byte(n>>16),byte(n>>8),byte(n))\n  b = append(b,t...)\n }\n return b\n}\nfunc decode(b []byte) *midi.SMF {\n smf, err := midifile.NewDecoder().Decode(bytes.NewReader(b))\n if err != nil { die("decode:",err) }\n return smf\n}\nfunc encode(smf *midi.SMF) []byte {\n var b bytes.Buffer\n if err := midifile.NewEncoder(&b).Encode(*smf); err != nil { die("encode:",err) }\n return b.Bytes()\n}\nfunc list(smf *midi.SMF) string {\n op, err := disassemble.NewDisassemble()\n if err != nil { die(err) }\n var w bytes.Buffer\n if err := op.Print(smf, "document", &w); err != nil { die(err) }\n return w.String()\n}\nfunc tojson(smf *midi.SMF) string {\n op, err := export.NewExport()\n if err != nil { die(err) }\n var w bytes.Buffer\n if err := op.Export(smf, &w); err != nil { die(err) }\n return w.String()\n}\nvar _ = decode; var _ = encode; var _ = list; var _ = tojson; var _ = file\nfunc main() {\n\n dir := os.Getenv("SCRATCH")\n bin := filepath.Join(dir,"midiasm")\n if out, err := exec.Command("go","build","-o",bin,"./cmd/midiasm").CombinedOutput(); err != nil { fmt.Println(string(out)); os.Exit(3) }\n\n in, o := filepath.Join(dir,"x.txt"), filepath.Join(dir,"o.mid")\n os.WriteFile(in, []byte("MThd length:6, format:9\\n"), 0600)\n os.WriteFile(o, []byte("precious"), 0600)\n err := exec.Command(bin,"assemble","--out",o,in).Run()\n b, _ := os.ReadFile(o)\n if err == nil || string(b) != "precious" { die("output overwritten:", err, string(b)) }\n\n}\n'
