ID="pitchbend-lsb"; PROPERTY="C01"
NEEDS="a pitch bend whose second data byte has bit 6 set"
BREAKS="the decoded bend loses a bit of its low half"
SUBS=[("midi/events/midi/pitch_bend.go","	bend |= uint16(data[1]) & 0x7f\n","	bend |= uint16(data[1]) & 0x3f\n",1)]
MAIN='''package main
import ("fmt";"os"
 "github.com/transcriptaze/midiasm/midi/events/midi")
func main(){
 e := midievent.PitchBend{}
 err := e.UnmarshalBinary([]byte{0x00,0xe3,0x12,0x7f})
 if err != nil || e.Bend != 0x12<<7|0x7f { fmt.Println("bend", e.Bend, err); os.Exit(1) }
}
'''
