ID="smpte-hour-mask"; PROPERTY="C01"
NEEDS="an SMPTE offset event with an hour of 16 or more"
BREAKS="the hour of the decoded SMPTE offset loses its top bit"
SUBS=[("midi/events/meta/smpte_offset.go","data[0] & 0x01f\n","data[0] & 0x00f\n",0)]
MAIN='''package main
import ("bytes";"fmt";"os"
 "github.com/transcriptaze/midiasm/encoding/midi"
 "github.com/transcriptaze/midiasm/midi/events/meta")
func main(){
 b := []byte{'M','T','h','d',0,0,0,6,0,0,0,1,0,96,'M','T','r','k',0,0,0,13,0,0xff,0x54,5,0x77,0x2d,0x3b,7,0x27,0,0xff,0x2f,0}
 smf, err := midifile.NewDecoder().Decode(bytes.NewReader(b))
 if err != nil { fmt.Println(err); os.Exit(1) }
 t, ok := smf.Tracks[0].Events[0].Event.(metaevent.SMPTEOffset)
 if !ok || t.Hour != 23 { fmt.Println("hour", t.Hour); os.Exit(1) }
}
'''
