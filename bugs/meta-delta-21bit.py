ID="meta-delta-21bit"; PROPERTY="C01"
NEEDS="a meta event with a delta time of four bytes (2^21 ticks or more)"
BREAKS="the meta event decoders drop the top bits of a four byte delta time"
SUBS=[("midi/events/meta/metaevent.go","		vlq <<= 7\n		vlq += uint32(b & 0x7f)\n","		vlq = (vlq & 0x3fff) << 7\n		vlq += uint32(b & 0x7f)\n")]
MAIN='''package main
import ("fmt";"os"
 "github.com/transcriptaze/midiasm/midi/events/meta")
func main(){
 e := metaevent.Tempo{}
 err := e.UnmarshalBinary([]byte{0x81,0x80,0x80,0x00,0xff,0x51,3,7,0xa1,0x20})
 if err != nil || e.Delta() != 1<<21 { fmt.Println("delta", e.Delta(), err); os.Exit(1) }
}
'''
