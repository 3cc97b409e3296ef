From 7841045e59d26f4bee5f909e745b8d9116801c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:08 +0000
Subject: [PATCH 01/51] fix: manufacturer 7F is filed with ID 7E

---
 midi/lib/manufacturer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index f89c662..6fc548d 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -154,7 +154,7 @@ var manufacturers = map[string]Manufacturer{
 
 	"7D": Manufacturer{ID: []byte{0x7d}, Region: "Special Purpose", Name: "Non-Commercial"},
 	"7E": Manufacturer{ID: []byte{0x7e}, Region: "Special Purpose", Name: "Non-RealTime Extensions"},
-	"7F": Manufacturer{ID: []byte{0x7e}, Region: "Special Purpose", Name: "RealTime Extensions"},
+	"7F": Manufacturer{ID: []byte{0x7f}, Region: "Special Purpose", Name: "RealTime Extensions"},
 
 	// American
 	"01": Manufacturer{ID: []byte{0x01}, Region: "American", Name: "Sequential Circuits"},
-- 
2.43.0


From 97ca799c750bc244c2da71ae36de27f716e2c1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:31 +0000
Subject: [PATCH 02/51] fix: SysEx continuation events lose their terminating
 F7 when decoded

---
 midi/events/sysex/continuation_message.go | 26 +++++++----------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/midi/events/sysex/continuation_message.go b/midi/events/sysex/continuation_message.go
index 738a692..bd818c0 100644
--- a/midi/events/sysex/continuation_message.go
+++ b/midi/events/sysex/continuation_message.go
@@ -47,16 +47,12 @@ func (e *SysExContinuationMessage) unmarshal(tick uint64, delta uint32, status l
 		return fmt.Errorf("Invalid SysExContinuationMessage event type (%02x): expected 'F7'", status)
 	}
 
-	d := data
-	if len(data) > 0 {
-		terminator := data[len(d)-1]
-		if terminator == 0xf7 {
-			d = data[:len(d)-1]
-		}
+	if N := len(data); N > 0 && data[N-1] == 0xf7 {
+		*e = MakeSysExContinuationEndMessage(tick, delta, data[:N-1], bytes...)
+	} else {
+		*e = MakeSysExContinuationMessage(tick, delta, data, bytes...)
 	}
 
-	*e = MakeSysExContinuationMessage(tick, delta, d, bytes...)
-
 	return nil
 }
 
@@ -90,17 +86,11 @@ func (e *SysExContinuationMessage) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSysExContinuation, remaining[0])
 	} else if data, err := vlf(remaining[1:]); err != nil {
 		return err
+	} else if N := len(data); N > 0 && data[N-1] == 0xf7 {
+		// ctx.Casio = false
+		*e = MakeSysExContinuationEndMessage(0, uint32(delta), data[:N-1], bytes...)
 	} else {
-		d := data
-		if len(data) > 0 {
-			terminator := data[len(d)-1]
-			if terminator == 0xf7 {
-				d = data[:len(d)-1]
-				// ctx.Casio = false
-			}
-		}
-
-		*e = MakeSysExContinuationMessage(0, uint32(delta), d, bytes...)
+		*e = MakeSysExContinuationMessage(0, uint32(delta), data, bytes...)
 	}
 
 	return nil
-- 
2.43.0


From a456532faf619a5f75f503dd137cb733b8426d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:33 +0000
Subject: [PATCH 03/51] fix: PitchBend is encoded as two 8-bit values instead
 of two 7-bit values

---
 midi/events/midi/pitch_bend.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index 4cd3ac5..e3ba0b4 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -58,8 +58,8 @@ func (e *PitchBend) unmarshal(tick uint64, delta uint32, status lib.Status, data
 func (b PitchBend) MarshalBinary() (encoded []byte, err error) {
 	encoded = []byte{
 		byte(0xe0 | b.Channel),
-		byte(b.Bend >> 8 & 0x00ff),
-		byte(b.Bend >> 0 & 0x00ff),
+		byte(b.Bend >> 7 & 0x007f),
+		byte(b.Bend >> 0 & 0x007f),
 	}
 
 	return
-- 
2.43.0


From 3528ba4e3f3f06491d7433dbf61d463db36b34aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:11 +0000
Subject: [PATCH 04/51] fix: meta events with more than 127 bytes of data are
 written with a truncated length

---
 midi/events/meta/copyright.go          | 15 +++++++++------
 midi/events/meta/cue_point.go          | 15 +++++++++------
 midi/events/meta/device_name.go        | 15 +++++++++------
 midi/events/meta/instrument_name.go    | 15 +++++++++------
 midi/events/meta/lyric.go              | 15 +++++++++------
 midi/events/meta/marker.go             | 15 +++++++++------
 midi/events/meta/program_name.go       | 15 +++++++++------
 midi/events/meta/sequencer_specific.go | 21 ++++++++++++---------
 midi/events/meta/text.go               | 15 +++++++++------
 9 files changed, 84 insertions(+), 57 deletions(-)

diff --git a/midi/events/meta/copyright.go b/midi/events/meta/copyright.go
index c04a9ff..4c0b35b 100644
--- a/midi/events/meta/copyright.go
+++ b/midi/events/meta/copyright.go
@@ -35,12 +35,15 @@ func (e *Copyright) unmarshal(tick uint64, delta lib.Delta, status byte, data []
 }
 
 func (e Copyright) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Copyright)),
-	},
-		[]byte(e.Copyright)...), nil
+	if data, err := lib.VLF(e.Copyright).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(e.Status),
+			byte(e.Type),
+		},
+			data...), nil
+	}
 }
 
 func (e *Copyright) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/cue_point.go b/midi/events/meta/cue_point.go
index 697737a..98bc5ce 100644
--- a/midi/events/meta/cue_point.go
+++ b/midi/events/meta/cue_point.go
@@ -36,12 +36,15 @@ func (e *CuePoint) unmarshal(tick uint64, delta lib.Delta, status byte, data []b
 }
 
 func (e CuePoint) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.CuePoint)),
-	},
-		[]byte(e.CuePoint)...), nil
+	if data, err := lib.VLF(e.CuePoint).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(e.Status),
+			byte(e.Type),
+		},
+			data...), nil
+	}
 }
 
 func (e *CuePoint) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/device_name.go b/midi/events/meta/device_name.go
index 7dfe32c..b9222c1 100644
--- a/midi/events/meta/device_name.go
+++ b/midi/events/meta/device_name.go
@@ -36,12 +36,15 @@ func (e *DeviceName) unmarshal(tick uint64, delta lib.Delta, status byte, data [
 }
 
 func (d DeviceName) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(d.Status),
-		byte(d.Type),
-		byte(len(d.Name)),
-	},
-		[]byte(d.Name)...), nil
+	if data, err := lib.VLF(d.Name).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(d.Status),
+			byte(d.Type),
+		},
+			data...), nil
+	}
 }
 
 func (e *DeviceName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/instrument_name.go b/midi/events/meta/instrument_name.go
index 5f61f73..66af390 100644
--- a/midi/events/meta/instrument_name.go
+++ b/midi/events/meta/instrument_name.go
@@ -36,12 +36,15 @@ func (e *InstrumentName) unmarshal(tick uint64, delta lib.Delta, status byte, da
 }
 
 func (e InstrumentName) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Name)),
-	},
-		[]byte(e.Name)...), nil
+	if data, err := lib.VLF(e.Name).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(e.Status),
+			byte(e.Type),
+		},
+			data...), nil
+	}
 }
 
 func (e *InstrumentName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/lyric.go b/midi/events/meta/lyric.go
index b2b80b9..8e3014e 100644
--- a/midi/events/meta/lyric.go
+++ b/midi/events/meta/lyric.go
@@ -36,12 +36,15 @@ func (e *Lyric) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte
 }
 
 func (l Lyric) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(l.Status),
-		byte(l.Type),
-		byte(len(l.Lyric)),
-	},
-		[]byte(l.Lyric)...), nil
+	if data, err := lib.VLF(l.Lyric).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(l.Status),
+			byte(l.Type),
+		},
+			data...), nil
+	}
 }
 
 func (e *Lyric) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/marker.go b/midi/events/meta/marker.go
index 568a847..08dbe81 100644
--- a/midi/events/meta/marker.go
+++ b/midi/events/meta/marker.go
@@ -36,12 +36,15 @@ func (e *Marker) unmarshal(tick uint64, delta lib.Delta, status byte, data []byt
 }
 
 func (m Marker) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(m.Status),
-		byte(m.Type),
-		byte(len(m.Marker)),
-	},
-		[]byte(m.Marker)...), nil
+	if data, err := lib.VLF(m.Marker).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(m.Status),
+			byte(m.Type),
+		},
+			data...), nil
+	}
 }
 
 func (e *Marker) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/program_name.go b/midi/events/meta/program_name.go
index e2fb57c..e146c69 100644
--- a/midi/events/meta/program_name.go
+++ b/midi/events/meta/program_name.go
@@ -36,12 +36,15 @@ func (e *ProgramName) unmarshal(tick uint64, delta lib.Delta, status byte, data
 }
 
 func (e ProgramName) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Name)),
-	},
-		[]byte(e.Name)...), nil
+	if data, err := lib.VLF(e.Name).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(e.Status),
+			byte(e.Type),
+		},
+			data...), nil
+	}
 }
 
 func (e *ProgramName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index d052294..fb8cc52 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -44,17 +44,20 @@ func (e *SequencerSpecificEvent) unmarshal(tick uint64, delta lib.Delta, status
 	return nil
 }
 
-// FIXME encode as VLF
 func (e SequencerSpecificEvent) MarshalBinary() (encoded []byte, err error) {
-	b := []byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Manufacturer.ID) + len(e.Data))}
+	vlf := []byte{}
+	vlf = append(vlf, e.Manufacturer.ID...)
+	vlf = append(vlf, e.Data...)
 
-	b = append(b, e.Manufacturer.ID...)
-	b = append(b, e.Data...)
-
-	return b, nil
+	if data, err := lib.VLF(vlf).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(e.Status),
+			byte(e.Type),
+		},
+			data...), nil
+	}
 }
 
 func (e *SequencerSpecificEvent) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/text.go b/midi/events/meta/text.go
index 05be373..f8f85f6 100644
--- a/midi/events/meta/text.go
+++ b/midi/events/meta/text.go
@@ -37,12 +37,15 @@ func (e *Text) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte,
 }
 
 func (e Text) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Text)),
-	},
-		[]byte(e.Text)...), nil
+	if data, err := lib.VLF(e.Text).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(e.Status),
+			byte(e.Type),
+		},
+			data...), nil
+	}
 }
 
 func (e *Text) UnmarshalBinary(bytes []byte) error {
-- 
2.43.0


From 805873fe73ccdd0eb6130dd93d476166776cfefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:13 +0000
Subject: [PATCH 05/51] fix: values of 2^28 and more are written as an invalid
 variable length quantity

---
 midi/lib/delta.go | 15 +--------------
 midi/lib/hex.go   |  2 +-
 midi/lib/types.go | 15 +++++++++++++++
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/midi/lib/delta.go b/midi/lib/delta.go
index 3402db5..1c04695 100644
--- a/midi/lib/delta.go
+++ b/midi/lib/delta.go
@@ -41,18 +41,5 @@ func DecodeDelta(r io.ByteReader) (Delta, error) {
 }
 
 func (d Delta) MarshalBinary() ([]byte, error) {
-	buffer := []byte{0x00, 0x80, 0x80, 0x80, 0x00}
-	b := d
-
-	for i := 4; i > 0; i-- {
-		buffer[i] |= byte(b & 0x7f)
-		if b >>= 7; b == 0 {
-			return buffer[i:], nil
-		}
-	}
-
-	buffer[1] |= 0x80
-	buffer[0] = byte(b & 0x7f)
-
-	return buffer, nil
+	return VLQ(d).MarshalBinary()
 }
diff --git a/midi/lib/hex.go b/midi/lib/hex.go
index 9276652..98f7a58 100644
--- a/midi/lib/hex.go
+++ b/midi/lib/hex.go
@@ -29,7 +29,7 @@ func (bytes Hex) String() string {
 }
 
 func (h Hex) MarshalBinary() ([]byte, error) {
-	return vlf2bin([]byte(h)), nil
+	return VLF(h).MarshalBinary()
 }
 
 func (h Hex) MarshalJSON() ([]byte, error) {
diff --git a/midi/lib/types.go b/midi/lib/types.go
index 1f8b8ba..9bc65ec 100644
--- a/midi/lib/types.go
+++ b/midi/lib/types.go
@@ -1,14 +1,29 @@
 package lib
 
+import (
+	"fmt"
+)
+
+// Largest value that can be represented as a 4 byte MIDI variable length quantity
+const MaxVLQ = 0x0fffffff
+
 type VLQ uint32
 
 func (v VLQ) MarshalBinary() ([]byte, error) {
+	if v > MaxVLQ {
+		return nil, fmt.Errorf("value (%v) exceeds the maximum variable length quantity (%v)", uint32(v), MaxVLQ)
+	}
+
 	return vlq2bin(uint32(v)), nil
 }
 
 type VLF []byte
 
 func (v VLF) MarshalBinary() ([]byte, error) {
+	if len(v) > MaxVLQ {
+		return nil, fmt.Errorf("data length (%v) exceeds the maximum variable length quantity (%v)", len(v), MaxVLQ)
+	}
+
 	return vlf2bin(v), nil
 }
 
-- 
2.43.0


From cce97518ddaeabdf1ed2ef07b2858709d1623ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:37 +0000
Subject: [PATCH 06/51] fix: variable length quantities of more than 4 bytes
 wrap around silently

---
 midi/events/binary.go         | 4 ++++
 midi/events/event.go          | 6 +++---
 midi/events/meta/metaevent.go | 4 ++++
 midi/events/midi/midievent.go | 4 ++++
 midi/events/sysex/sysex.go    | 4 ++++
 midi/lib/delta.go             | 6 +++---
 6 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/midi/events/binary.go b/midi/events/binary.go
index d05cac9..01b45ab 100644
--- a/midi/events/binary.go
+++ b/midi/events/binary.go
@@ -130,6 +130,10 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 	vlq := uint32(0)
 
 	for i, b := range bytes {
+		if i > 3 {
+			return 0, nil, fmt.Errorf("Invalid variable length quantity (more than 4 bytes)")
+		}
+
 		vlq <<= 7
 		vlq += uint32(b & 0x7f)
 
diff --git a/midi/events/event.go b/midi/events/event.go
index 4186e47..47f9c7b 100644
--- a/midi/events/event.go
+++ b/midi/events/event.go
@@ -144,7 +144,7 @@ func VLF(r io.ByteReader) ([]byte, error) {
 func VLQ(r io.ByteReader) (uint32, error) {
 	vlq := uint32(0)
 
-	for {
+	for i := 0; i < 4; i++ {
 		b, err := r.ReadByte()
 		if err != nil {
 			return 0, err
@@ -154,9 +154,9 @@ func VLQ(r io.ByteReader) (uint32, error) {
 		vlq += uint32(b & 0x7f)
 
 		if b&0x80 == 0 {
-			break
+			return vlq, nil
 		}
 	}
 
-	return vlq, nil
+	return 0, fmt.Errorf("Invalid variable length quantity (more than 4 bytes)")
 }
diff --git a/midi/events/meta/metaevent.go b/midi/events/meta/metaevent.go
index 6326ea4..26e6c93 100644
--- a/midi/events/meta/metaevent.go
+++ b/midi/events/meta/metaevent.go
@@ -167,6 +167,10 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 	vlq := uint32(0)
 
 	for i, b := range bytes {
+		if i > 3 {
+			return 0, nil, fmt.Errorf("Invalid variable length quantity (more than 4 bytes)")
+		}
+
 		vlq <<= 7
 		vlq += uint32(b & 0x7f)
 
diff --git a/midi/events/midi/midievent.go b/midi/events/midi/midievent.go
index a741740..3905498 100644
--- a/midi/events/midi/midievent.go
+++ b/midi/events/midi/midievent.go
@@ -123,6 +123,10 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 	vlq := uint32(0)
 
 	for i, b := range bytes {
+		if i > 3 {
+			return 0, nil, fmt.Errorf("Invalid variable length quantity (more than 4 bytes)")
+		}
+
 		vlq <<= 7
 		vlq += uint32(b & 0x7f)
 
diff --git a/midi/events/sysex/sysex.go b/midi/events/sysex/sysex.go
index 48b2432..176f386 100644
--- a/midi/events/sysex/sysex.go
+++ b/midi/events/sysex/sysex.go
@@ -111,6 +111,10 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 	vlq := uint32(0)
 
 	for i, b := range bytes {
+		if i > 3 {
+			return 0, nil, fmt.Errorf("Invalid variable length quantity (more than 4 bytes)")
+		}
+
 		vlq <<= 7
 		vlq += uint32(b & 0x7f)
 
diff --git a/midi/lib/delta.go b/midi/lib/delta.go
index 1c04695..1a28fba 100644
--- a/midi/lib/delta.go
+++ b/midi/lib/delta.go
@@ -23,7 +23,7 @@ func ParseDelta(s string) (Delta, error) {
 func DecodeDelta(r io.ByteReader) (Delta, error) {
 	vlq := uint32(0)
 
-	for {
+	for i := 0; i < 4; i++ {
 		b, err := r.ReadByte()
 		if err != nil {
 			return 0, err
@@ -33,11 +33,11 @@ func DecodeDelta(r io.ByteReader) (Delta, error) {
 		vlq += uint32(b & 0x7f)
 
 		if b&0x80 == 0 {
-			break
+			return Delta(vlq), nil
 		}
 	}
 
-	return Delta(vlq), nil
+	return 0, fmt.Errorf("Invalid variable length quantity (more than 4 bytes)")
 }
 
 func (d Delta) MarshalBinary() ([]byte, error) {
-- 
2.43.0


From 0661831e26c604b6f36c28df129291105f702b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:39 +0000
Subject: [PATCH 07/51] fix: events with less data than their declared length
 panic

---
 midi/events/meta/metaevent.go | 2 ++
 midi/events/midi/midievent.go | 2 ++
 midi/events/sysex/sysex.go    | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/midi/events/meta/metaevent.go b/midi/events/meta/metaevent.go
index 26e6c93..10cb858 100644
--- a/midi/events/meta/metaevent.go
+++ b/midi/events/meta/metaevent.go
@@ -185,6 +185,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data (%d bytes): expected %d bytes", len(remaining), N)
 	} else {
 		return remaining[:N], nil
 	}
diff --git a/midi/events/midi/midievent.go b/midi/events/midi/midievent.go
index 3905498..edb6e6e 100644
--- a/midi/events/midi/midievent.go
+++ b/midi/events/midi/midievent.go
@@ -141,6 +141,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data (%d bytes): expected %d bytes", len(remaining), N)
 	} else {
 		return remaining[:N], nil
 	}
diff --git a/midi/events/sysex/sysex.go b/midi/events/sysex/sysex.go
index 176f386..d147f2b 100644
--- a/midi/events/sysex/sysex.go
+++ b/midi/events/sysex/sysex.go
@@ -129,6 +129,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data (%d bytes): expected %d bytes", len(remaining), N)
 	} else {
 		return remaining[:N], nil
 	}
-- 
2.43.0


From 87159a1ad9a181646c3e5da2d60dcb2ae6ac7cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:13 +0000
Subject: [PATCH 08/51] fix: SysEx and SequencerSpecific events without data
 after the manufacturer ID panic

---
 midi/events/meta/sequencer_specific.go | 8 ++++++--
 midi/events/sysex/message.go           | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index fb8cc52..3692a07 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -31,6 +31,10 @@ func MakeSequencerSpecificEvent(tick uint64, delta lib.Delta, manufacturer lib.M
 }
 
 func (e *SequencerSpecificEvent) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte, bytes ...byte) error {
+	if len(data) < 1 || (data[0] == 0x00 && len(data) < 3) {
+		return fmt.Errorf("Invalid SequencerSpecificEvent length (%d): expected a manufacturer ID", len(data))
+	}
+
 	id := data[0:1]
 	d := data[1:]
 
@@ -71,8 +75,8 @@ func (e *SequencerSpecificEvent) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSequencerSpecificEvent, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 2 {
-		return fmt.Errorf("Invalid SequencerSpecificEvent channel data")
+	} else if len(data) < 1 || (data[0] == 0x00 && len(data) < 3) {
+		return fmt.Errorf("Invalid SequencerSpecificEvent data")
 	} else {
 		id := data[0:1]
 		d := data[1:]
diff --git a/midi/events/sysex/message.go b/midi/events/sysex/message.go
index fff7472..60efabf 100644
--- a/midi/events/sysex/message.go
+++ b/midi/events/sysex/message.go
@@ -58,7 +58,7 @@ func (e *SysExMessage) unmarshal(tick uint64, delta uint32, status lib.Status, d
 	manufacturer := lib.LookupManufacturer(id)
 	d := data[1:]
 
-	if d[len(d)-1] != 0xf7 {
+	if len(d) == 0 || d[len(d)-1] != 0xf7 {
 		*e = MakeSysExMessage(tick, delta, manufacturer, d, bytes...)
 	} else {
 		*e = MakeSysExSingleMessage(tick, delta, manufacturer, d[:len(d)-1], bytes...)
@@ -98,12 +98,14 @@ func (e *SysExMessage) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSysExMessage, remaining[0])
 	} else if data, err := vlf(remaining[1:]); err != nil {
 		return err
+	} else if len(data) == 0 {
+		return fmt.Errorf("Invalid SysExMessage event data (0 bytes)")
 	} else {
 		id := data[0:1]
 		manufacturer := lib.LookupManufacturer(id)
 		d := data[1:]
 
-		if d[len(d)-1] != 0xf7 {
+		if len(d) == 0 || d[len(d)-1] != 0xf7 {
 			// ctx.Casio = true
 			*e = MakeSysExMessage(0, uint32(delta), manufacturer, d, bytes...)
 		} else {
-- 
2.43.0


From 6e9daf16252ddfb752b6c73b0c66d15d2b882d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:14 +0000
Subject: [PATCH 09/51] fix: channel events with data bytes over 127 are
 decoded instead of being rejected

---
 midi/events/midi/controller.go          | 6 ++++++
 midi/events/midi/note_off.go            | 6 ++++++
 midi/events/midi/note_on.go             | 6 ++++++
 midi/events/midi/pitch_bend.go          | 8 ++++++--
 midi/events/midi/polyphonic_pressure.go | 4 ++++
 midi/events/midi/program_change.go      | 6 ++++++
 6 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/midi/events/midi/controller.go b/midi/events/midi/controller.go
index 2fa5c6d..1a4d9be 100644
--- a/midi/events/midi/controller.go
+++ b/midi/events/midi/controller.go
@@ -51,6 +51,10 @@ func (e *Controller) unmarshal(tick uint64, delta uint32, status lib.Status, dat
 		return fmt.Errorf("invalid channel (%v)", channel)
 	}
 
+	if controller > 127 || value > 127 {
+		return fmt.Errorf("Invalid %v data (%v)", lib.TagController, data)
+	}
+
 	*e = MakeController(tick, delta, channel, lib.LookupController(controller), value, bytes...)
 
 	return nil
@@ -77,6 +81,8 @@ func (e *Controller) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 2 {
 		return fmt.Errorf("Invalid Controller data")
+	} else if data[0] > 127 || data[1] > 127 {
+		return fmt.Errorf("Invalid Controller data (%v)", data)
 	} else {
 		controller := lib.LookupController(data[0])
 		value := data[1]
diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index f5d4867..a75f3c1 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -48,6 +48,10 @@ func (e *NoteOff) unmarshal(tick uint64, delta uint32, status lib.Status, data [
 		return fmt.Errorf("Invalid NoteOff data (%v): expected note and velocity", data)
 	}
 
+	if data[0] > 127 {
+		return fmt.Errorf("Invalid NoteOff note (%v)", data[0])
+	}
+
 	var channel = lib.Channel(status & 0x0f)
 	var note = Note{
 		Value: data[0],
@@ -139,6 +143,8 @@ func (e *NoteOff) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 2 {
 		return fmt.Errorf("Invalid NoteOff data")
+	} else if data[0] > 127 {
+		return fmt.Errorf("Invalid NoteOff note (%v)", data[0])
 	} else if velocity := data[1]; velocity > 127 {
 		return fmt.Errorf("Invalid NoteOff velocity (%v)", velocity)
 	} else {
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 7d1a3d7..eec7fbd 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -49,6 +49,10 @@ func (e *NoteOn) unmarshal(tick uint64, delta uint32, status lib.Status, data []
 		return fmt.Errorf("Invalid NoteOff data (%v): expected note and velocity", data)
 	}
 
+	if data[0] > 127 {
+		return fmt.Errorf("Invalid NoteOn note (%v)", data[0])
+	}
+
 	var channel = lib.Channel(status & 0x0f)
 	var note = Note{
 		Value: data[0],
@@ -89,6 +93,8 @@ func (e *NoteOn) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 2 {
 		return fmt.Errorf("Invalid NoteOn data")
+	} else if data[0] > 127 {
+		return fmt.Errorf("Invalid NoteOn note (%v)", data[0])
 	} else if velocity := data[1]; velocity > 127 {
 		return fmt.Errorf("Invalid NoteOn velocity (%v)", velocity)
 	} else {
diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index e3ba0b4..1d2ef0d 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -41,6 +41,10 @@ func (e *PitchBend) unmarshal(tick uint64, delta uint32, status lib.Status, data
 		return fmt.Errorf("Invalid PitchBend data (%v): expected bend", data)
 	}
 
+	if data[0] > 127 || data[1] > 127 {
+		return fmt.Errorf("Invalid PitchBend data (%v)", data)
+	}
+
 	channel := lib.Channel(status & 0x0f)
 	bend := uint16(data[0])
 	bend <<= 7
@@ -76,8 +80,8 @@ func (e *PitchBend) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 2 {
 		return fmt.Errorf("Invalid PitchBend data")
-	} else if pressure := data[0]; pressure > 127 {
-		return fmt.Errorf("InvalidPitchBend pressure (%v)", pressure)
+	} else if data[0] > 127 || data[1] > 127 {
+		return fmt.Errorf("Invalid PitchBend data (%v)", data)
 	} else {
 		bend := uint16(data[0])
 		bend <<= 7
diff --git a/midi/events/midi/polyphonic_pressure.go b/midi/events/midi/polyphonic_pressure.go
index 271136f..78b0ac7 100644
--- a/midi/events/midi/polyphonic_pressure.go
+++ b/midi/events/midi/polyphonic_pressure.go
@@ -48,6 +48,10 @@ func (e *PolyphonicPressure) unmarshal(tick uint64, delta uint32, status lib.Sta
 	var channel = lib.Channel(status & 0x0f)
 	var pressure = data[0]
 
+	if pressure > 127 {
+		return fmt.Errorf("invalid pressure (%v)", pressure)
+	}
+
 	*e = MakePolyphonicPressure(tick, delta, channel, pressure, bytes...)
 
 	return nil
diff --git a/midi/events/midi/program_change.go b/midi/events/midi/program_change.go
index 2045c74..5b53d52 100644
--- a/midi/events/midi/program_change.go
+++ b/midi/events/midi/program_change.go
@@ -46,6 +46,10 @@ func (e *ProgramChange) unmarshal(tick uint64, delta uint32, status lib.Status,
 	var channel = lib.Channel(status & 0x0f)
 	var program = data[0]
 
+	if program > 127 {
+		return fmt.Errorf("Invalid %v program (%v)", lib.TagProgramChange, program)
+	}
+
 	*e = MakeProgramChange(tick, delta, channel, 0, program, bytes...)
 
 	return nil
@@ -71,6 +75,8 @@ func (e *ProgramChange) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 1 {
 		return fmt.Errorf("Invalid ProgramChange data")
+	} else if data[0] > 127 {
+		return fmt.Errorf("Invalid ProgramChange program (%v)", data[0])
 	} else {
 		bank := uint16(0)
 		program := data[0]
-- 
2.43.0


From 07f39095609fd53ec196bd57bedc2815b39354f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:51 +0000
Subject: [PATCH 10/51] fix: meta events with the wrong data length are decoded
 or panic instead of being rejected

---
 midi/events/meta/end_of_track.go        | 8 ++++++++
 midi/events/meta/key_signature.go       | 2 +-
 midi/events/meta/midi_channel_prefix.go | 2 +-
 midi/events/meta/midi_port.go           | 2 +-
 midi/events/meta/sequence_number.go     | 2 ++
 midi/events/meta/smpte_offset.go        | 2 +-
 midi/events/meta/tempo.go               | 2 +-
 midi/events/meta/time_signature.go      | 2 +-
 8 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/midi/events/meta/end_of_track.go b/midi/events/meta/end_of_track.go
index 829b771..007454d 100644
--- a/midi/events/meta/end_of_track.go
+++ b/midi/events/meta/end_of_track.go
@@ -26,6 +26,10 @@ func MakeEndOfTrack(tick uint64, delta lib.Delta, bytes ...byte) EndOfTrack {
 }
 
 func (e *EndOfTrack) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte, bytes ...byte) error {
+	if len(data) != 0 {
+		return fmt.Errorf("Invalid EndOfTrack length (%d): expected '0'", len(data))
+	}
+
 	*e = MakeEndOfTrack(tick, delta, bytes...)
 
 	return nil
@@ -48,6 +52,10 @@ func (e *EndOfTrack) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v status (%02X)", lib.TagEndOfTrack, remaining[0])
 	} else if !equals(remaining[1], lib.TypeEndOfTrack) {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagEndOfTrack, remaining[1])
+	} else if data, err := vlf(remaining[2:]); err != nil {
+		return err
+	} else if len(data) != 0 {
+		return fmt.Errorf("Invalid EndOfTrack length (%d): expected '0'", len(data))
 	} else {
 		*e = MakeEndOfTrack(0, delta, bytes...)
 	}
diff --git a/midi/events/meta/key_signature.go b/midi/events/meta/key_signature.go
index 8cac694..5afb698 100644
--- a/midi/events/meta/key_signature.go
+++ b/midi/events/meta/key_signature.go
@@ -115,7 +115,7 @@ func (e *KeySignature) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagKeySignature, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 2 {
+	} else if len(data) != 2 {
 		return fmt.Errorf("Invalid KeySignature data")
 	} else {
 		var accidentals = int8(data[0])
diff --git a/midi/events/meta/midi_channel_prefix.go b/midi/events/meta/midi_channel_prefix.go
index f04ddf7..5d58d4e 100644
--- a/midi/events/meta/midi_channel_prefix.go
+++ b/midi/events/meta/midi_channel_prefix.go
@@ -66,7 +66,7 @@ func (e *MIDIChannelPrefix) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagMIDIChannelPrefix, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 1 {
+	} else if len(data) != 1 {
 		return fmt.Errorf("Invalid MIDIChannelPrefix channel data")
 	} else if channel := data[0]; channel > 15 {
 		return fmt.Errorf("Invalid MIDIChannelPrefix channel (%d): expected a value in the interval [0..15]", channel)
diff --git a/midi/events/meta/midi_port.go b/midi/events/meta/midi_port.go
index bc6c52d..b7ecf82 100644
--- a/midi/events/meta/midi_port.go
+++ b/midi/events/meta/midi_port.go
@@ -68,7 +68,7 @@ func (e *MIDIPort) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagMIDIPort, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 1 {
+	} else if len(data) != 1 {
 		return fmt.Errorf("Invalid MIDIPort channel data")
 	} else if port := data[0]; port > 127 {
 		return fmt.Errorf("Invalid MIDIPort port (%d): expected a value in the interval [0..127]", port)
diff --git a/midi/events/meta/sequence_number.go b/midi/events/meta/sequence_number.go
index 3b26242..e988672 100644
--- a/midi/events/meta/sequence_number.go
+++ b/midi/events/meta/sequence_number.go
@@ -63,6 +63,8 @@ func (e *SequenceNumber) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSequenceNumber, remaining[1])
 	} else if v, err := vlf(remaining[2:]); err != nil {
 		return err
+	} else if len(v) != 2 {
+		return fmt.Errorf("Invalid SequenceNumber length (%d): expected '2'", len(v))
 	} else {
 		*e = MakeSequenceNumber(0, delta, binary.BigEndian.Uint16(v), bytes...)
 	}
diff --git a/midi/events/meta/smpte_offset.go b/midi/events/meta/smpte_offset.go
index cf02b93..b617058 100644
--- a/midi/events/meta/smpte_offset.go
+++ b/midi/events/meta/smpte_offset.go
@@ -153,7 +153,7 @@ func (e *SMPTEOffset) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSMPTEOffset, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 5 {
+	} else if len(data) != 5 {
 		return fmt.Errorf("Invalid SMPTE offset data")
 	} else {
 		rr := (data[0] >> 5) & 0x03
diff --git a/midi/events/meta/tempo.go b/midi/events/meta/tempo.go
index 1c59834..0fc954c 100644
--- a/midi/events/meta/tempo.go
+++ b/midi/events/meta/tempo.go
@@ -75,7 +75,7 @@ func (e *Tempo) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagTempo, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 3 {
+	} else if len(data) != 3 {
 		return fmt.Errorf("Invalid Tempo data")
 	} else {
 		tempo := uint32(data[0])
diff --git a/midi/events/meta/time_signature.go b/midi/events/meta/time_signature.go
index 5d271e5..7610da3 100644
--- a/midi/events/meta/time_signature.go
+++ b/midi/events/meta/time_signature.go
@@ -96,7 +96,7 @@ func (e *TimeSignature) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagTimeSignature, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 4 {
+	} else if len(data) != 4 {
 		return fmt.Errorf("Invalid TimeSignature data")
 	} else {
 		numerator := data[0]
-- 
2.43.0


From bde1c6b15039358961c7eacee120d77593e89686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:53 +0000
Subject: [PATCH 11/51] fix: time signature denominators that are not a power
 of 2 up to 128 loop forever or are altered

---
 midi/events/meta/time_signature.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/midi/events/meta/time_signature.go b/midi/events/meta/time_signature.go
index 7610da3..bab1750 100644
--- a/midi/events/meta/time_signature.go
+++ b/midi/events/meta/time_signature.go
@@ -46,6 +46,10 @@ func (e *TimeSignature) unmarshal(tick uint64, delta lib.Delta, status byte, dat
 		return fmt.Errorf("Invalid TimeSignature length (%d): expected '4'", len(data))
 	}
 
+	if data[1] > 7 {
+		return fmt.Errorf("Invalid TimeSignature denominator (2^%d): expected a value in the interval [1..128]", data[1])
+	}
+
 	numerator := data[0]
 	ticksPerClick := data[2]
 	thirtySecondsPerQuarter := data[3]
@@ -98,6 +102,8 @@ func (e *TimeSignature) UnmarshalBinary(bytes []byte) error {
 		return err
 	} else if len(data) != 4 {
 		return fmt.Errorf("Invalid TimeSignature data")
+	} else if data[1] > 7 {
+		return fmt.Errorf("Invalid TimeSignature denominator (2^%d): expected a value in the interval [1..128]", data[1])
 	} else {
 		numerator := data[0]
 		ticksPerClick := data[2]
@@ -126,6 +132,8 @@ func (e *TimeSignature) UnmarshalText(bytes []byte) error {
 		return err
 	} else if denominator, err := strconv.ParseUint(match[3], 10, 8); err != nil {
 		return err
+	} else if !isDenominator(uint8(denominator)) {
+		return fmt.Errorf("Invalid TimeSignature denominator (%d): expected a power of 2 in the interval [1..128]", denominator)
 	} else if ticks, err := strconv.ParseUint(match[4], 10, 8); err != nil {
 		return err
 	} else if beats, err := strconv.ParseUint(match[5], 10, 8); err != nil {
@@ -137,6 +145,11 @@ func (e *TimeSignature) UnmarshalText(bytes []byte) error {
 	return nil
 }
 
+// A denominator is a power of two (and fits in a uint8)
+func isDenominator(d uint8) bool {
+	return d != 0 && d&(d-1) == 0
+}
+
 func (e TimeSignature) MarshalJSON() (encoded []byte, err error) {
 	t := struct {
 		Tag                     string    `json:"tag"`
@@ -182,6 +195,8 @@ func (e *TimeSignature) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if t.Tag != fmt.Sprintf("%v", lib.TagTimeSignature) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if !isDenominator(t.Denominator) {
+		return fmt.Errorf("Invalid TimeSignature denominator (%d): expected a power of 2 in the interval [1..128]", t.Denominator)
 	} else {
 		*e = MakeTimeSignature(0, t.Delta, t.Numerator, t.Denominator, t.TicksPerClick, t.ThirtySecondsPerQuarter, []byte{}...)
 	}
-- 
2.43.0


From 480f87d7b452da91da3854975e1da6cc92a96b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:55 +0000
Subject: [PATCH 12/51] fix: the text form of a time signature with 0, 9, 19,
 29, ... 32nds per quarter is rejected

---
 midi/events/meta/time_signature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/events/meta/time_signature.go b/midi/events/meta/time_signature.go
index bab1750..32c6dae 100644
--- a/midi/events/meta/time_signature.go
+++ b/midi/events/meta/time_signature.go
@@ -121,7 +121,7 @@ func (e *TimeSignature) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *TimeSignature) UnmarshalText(bytes []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)TimeSignature\s+([0-9]+)/([1-9][0-9]*),\s* ([0-9]+) ticks per click,\s*([1-9][0-8]*)/32 per quarter`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)TimeSignature\s+([0-9]+)/([1-9][0-9]*),\s* ([0-9]+) ticks per click,\s*([0-9]+)/32 per quarter`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 6 {
-- 
2.43.0


From 081133c8f9ea87d2d7454c1b616b3704cbce2927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:25 +0000
Subject: [PATCH 13/51] fix: making or encoding a time signature with a
 denominator over 128 never terminates

---
 midi/events/meta/time_signature.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/midi/events/meta/time_signature.go b/midi/events/meta/time_signature.go
index 32c6dae..c036af3 100644
--- a/midi/events/meta/time_signature.go
+++ b/midi/events/meta/time_signature.go
@@ -18,13 +18,6 @@ type TimeSignature struct {
 }
 
 func MakeTimeSignature(tick uint64, delta lib.Delta, numerator, denominator, ticksPerClick, thirtySecondsPerQuarter uint8, bytes ...byte) TimeSignature {
-	d := 0
-	dd := uint8(1)
-	for dd < denominator {
-		dd *= 2
-		d += 1
-	}
-
 	return TimeSignature{
 		event: event{
 			tick:   tick,
@@ -70,8 +63,8 @@ func (t TimeSignature) String() string {
 
 func (t TimeSignature) MarshalBinary() (encoded []byte, err error) {
 	d := 0
-	denominator := uint8(1)
-	for denominator < t.Denominator {
+	denominator := uint(1)
+	for denominator < uint(t.Denominator) {
 		denominator *= 2
 		d += 1
 	}
-- 
2.43.0


From e5ea327f048f52aff95c923e2f80c57937a89004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:27 +0000
Subject: [PATCH 14/51] fix: assembling channel events with out of range values
 panics or writes invalid MIDI data bytes

---
 midi/events/midi/channel_pressure.go    | 2 ++
 midi/events/midi/controller.go          | 8 ++++++++
 midi/events/midi/note_off.go            | 4 ++++
 midi/events/midi/note_on.go             | 4 ++++
 midi/events/midi/pitch_bend.go          | 4 ++++
 midi/events/midi/polyphonic_pressure.go | 2 ++
 midi/events/midi/program_change.go      | 4 ++++
 7 files changed, 28 insertions(+)

diff --git a/midi/events/midi/channel_pressure.go b/midi/events/midi/channel_pressure.go
index f2ed3af..02df880 100644
--- a/midi/events/midi/channel_pressure.go
+++ b/midi/events/midi/channel_pressure.go
@@ -140,6 +140,8 @@ func (e *ChannelPressure) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagChannelPressure) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Pressure > 127 {
+		return fmt.Errorf("invalid ChannelPressure pressure (%v)", t.Pressure)
 	} else {
 		*e = MakeChannelPressure(0, uint32(t.Delta), t.Channel, t.Pressure, []byte{}...)
 	}
diff --git a/midi/events/midi/controller.go b/midi/events/midi/controller.go
index 1a4d9be..a8b714b 100644
--- a/midi/events/midi/controller.go
+++ b/midi/events/midi/controller.go
@@ -105,6 +105,10 @@ func (e *Controller) UnmarshalText(text []byte) error {
 		return err
 	} else if value, err := strconv.ParseUint(match[4], 10, 8); err != nil {
 		return err
+	} else if controller > 127 {
+		return fmt.Errorf("invalid Controller (%v)", controller)
+	} else if value > 127 {
+		return fmt.Errorf("invalid Controller value (%v)", value)
 	} else {
 		*e = MakeController(0, uint32(delta), lib.Channel(channel), lib.LookupController(uint8(controller)), uint8(value), []byte{}...)
 	}
@@ -145,6 +149,10 @@ func (e *Controller) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagController) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Controller.ID > 127 {
+		return fmt.Errorf("invalid Controller (%v)", t.Controller.ID)
+	} else if t.Value > 127 {
+		return fmt.Errorf("invalid Controller value (%v)", t.Value)
 	} else {
 		*e = MakeController(0, uint32(t.Delta), t.Channel, t.Controller, t.Value, []byte{}...)
 	}
diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index a75f3c1..08ce74e 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -226,6 +226,10 @@ func (e *NoteOff) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagNoteOff) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Note.Value > 127 {
+		return fmt.Errorf("invalid NoteOff note (%v)", t.Note.Value)
+	} else if t.Velocity > 127 {
+		return fmt.Errorf("invalid NoteOff velocity (%v)", t.Velocity)
 	} else {
 		e.tick = 0
 		e.delta = t.Delta
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index eec7fbd..6b1ab97 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -166,6 +166,10 @@ func (e *NoteOn) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagNoteOn) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Note.Value > 127 {
+		return fmt.Errorf("invalid NoteOn note (%v)", t.Note.Value)
+	} else if t.Velocity > 127 {
+		return fmt.Errorf("invalid NoteOn velocity (%v)", t.Velocity)
 	} else {
 		note := Note{
 			Value: t.Note.Value,
diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index 1d2ef0d..79a742a 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -104,6 +104,8 @@ func (e *PitchBend) UnmarshalText(text []byte) error {
 		return err
 	} else if bend, err := strconv.ParseUint(match[3], 10, 16); err != nil {
 		return err
+	} else if bend > 0x3fff {
+		return fmt.Errorf("invalid PitchBend bend (%v)", bend)
 	} else {
 		*e = MakePitchBend(0, uint32(delta), lib.Channel(channel), uint16(bend), []byte{}...)
 	}
@@ -140,6 +142,8 @@ func (e *PitchBend) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagPitchBend) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Bend > 0x3fff {
+		return fmt.Errorf("invalid PitchBend bend (%v)", t.Bend)
 	} else {
 		*e = MakePitchBend(0, uint32(t.Delta), t.Channel, t.Bend, []byte{}...)
 	}
diff --git a/midi/events/midi/polyphonic_pressure.go b/midi/events/midi/polyphonic_pressure.go
index 78b0ac7..b9930cd 100644
--- a/midi/events/midi/polyphonic_pressure.go
+++ b/midi/events/midi/polyphonic_pressure.go
@@ -136,6 +136,8 @@ func (e *PolyphonicPressure) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagPolyphonicPressure) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Pressure > 127 {
+		return fmt.Errorf("invalid PolyphonicPressure pressure (%v)", t.Pressure)
 	} else {
 		*e = MakePolyphonicPressure(0, uint32(t.Delta), t.Channel, t.Pressure, []byte{}...)
 	}
diff --git a/midi/events/midi/program_change.go b/midi/events/midi/program_change.go
index 5b53d52..e5d2d4e 100644
--- a/midi/events/midi/program_change.go
+++ b/midi/events/midi/program_change.go
@@ -100,6 +100,8 @@ func (e *ProgramChange) UnmarshalText(text []byte) error {
 		return err
 	} else if program, err := strconv.ParseUint(match[4], 10, 8); err != nil {
 		return err
+	} else if program > 127 {
+		return fmt.Errorf("invalid ProgramChange program (%v)", program)
 	} else {
 		*e = MakeProgramChange(0, uint32(delta), lib.Channel(channel), uint16(bank), uint8(program), []byte{}...)
 	}
@@ -140,6 +142,8 @@ func (e *ProgramChange) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagProgramChange) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Program > 127 {
+		return fmt.Errorf("invalid ProgramChange program (%v)", t.Program)
 	} else {
 		*e = MakeProgramChange(0, uint32(t.Delta), t.Channel, t.Bank, t.Program, []byte{}...)
 	}
-- 
2.43.0


From 5a3dbd91b5bb00d677f416cf72ac0baa7602a789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:17 +0000
Subject: [PATCH 15/51] fix: data and manufacturer ID values over 255 are
 silently truncated

---
 midi/lib/hex.go          | 4 ++++
 midi/lib/manufacturer.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/midi/lib/hex.go b/midi/lib/hex.go
index 98f7a58..67f16f7 100644
--- a/midi/lib/hex.go
+++ b/midi/lib/hex.go
@@ -50,6 +50,10 @@ func (h *Hex) UnmarshalJSON(bytes []byte) error {
 
 	buffer := []byte{}
 	for _, b := range v {
+		if b > 255 {
+			return fmt.Errorf("invalid byte value (%v)", b)
+		}
+
 		buffer = append(buffer, byte(b))
 	}
 
diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index 6fc548d..7d8c27e 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -44,6 +44,10 @@ func (m *Manufacturer) UnmarshalJSON(bytes []byte) error {
 
 	id := []byte{}
 	for _, b := range manufacturer.ID {
+		if b > 255 {
+			return fmt.Errorf("Invalid manufacturer ID: %v", manufacturer.ID)
+		}
+
 		id = append(id, byte(b))
 	}
 
-- 
2.43.0


From 94cc2dc89c40ba059abc05105d2401fbd9ae9127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:19 +0000
Subject: [PATCH 16/51] fix: manufacturers loaded from a file lose their region
 and name

---
 midi/lib/manufacturer.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index 7d8c27e..340a666 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -98,10 +98,12 @@ func FindManufacturer(s string) (Manufacturer, error) {
 
 func LoadManufacturers(r io.Reader) (map[string]Manufacturer, error) {
 	conf := struct {
-		Manufacturers []Manufacturer `json:"manufacturers"`
-	}{
-		Manufacturers: []Manufacturer{},
-	}
+		Manufacturers []struct {
+			ID     Hex    `json:"id"`
+			Region string `json:"region"`
+			Name   string `json:"name"`
+		} `json:"manufacturers"`
+	}{}
 
 	bytes, err := ioutil.ReadAll(r)
 	if err != nil {
-- 
2.43.0


From c705bc025d309381dfd469dc40d722cfccb98302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:21 +0000
Subject: [PATCH 17/51] fix: assembling an out of range SMPTE offset panics

---
 midi/events/meta/smpte_offset.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/midi/events/meta/smpte_offset.go b/midi/events/meta/smpte_offset.go
index b617058..dffd14e 100644
--- a/midi/events/meta/smpte_offset.go
+++ b/midi/events/meta/smpte_offset.go
@@ -224,8 +224,16 @@ func (e *SMPTEOffset) UnmarshalText(text []byte) error {
 		return err
 	} else if fractions, err := strconv.ParseUint(match[7], 10, 8); err != nil {
 		return err
+	} else if hour > 24 {
+		return fmt.Errorf("Invalid SMPTE offset hour (%d): expected a value in the interval [0..24]", hour)
+	} else if minute > 59 {
+		return fmt.Errorf("Invalid SMPTE offset minute (%d): expected a value in the interval [0..59]", minute)
+	} else if second > 59 {
+		return fmt.Errorf("Invalid SMPTE offset second (%d): expected a value in the interval [0..59]", second)
 	} else if frameRate != 24 && frameRate != 25 && frameRate != 29 && frameRate != 30 {
 		return fmt.Errorf("Invalid SMPTE offset frame rate (%02X): expected a value in the set [24,25,29,30]", frameRate)
+	} else if frames >= frameRate {
+		return fmt.Errorf("Invalid SMPTE offset frames (%d): expected a value in the interval [0..%d]", frames, frameRate-1)
 	} else if fractions > 100 {
 		return fmt.Errorf("Invalid SMPTE offset fractional frames (%d): expected a value in the interval [0..100", fractions)
 	} else {
@@ -279,6 +287,18 @@ func (e *SMPTEOffset) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if t.Tag != fmt.Sprintf("%v", lib.TagSMPTEOffset) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Hour > 24 {
+		return fmt.Errorf("Invalid SMPTE offset hour (%d): expected a value in the interval [0..24]", t.Hour)
+	} else if t.Minute > 59 {
+		return fmt.Errorf("Invalid SMPTE offset minute (%d): expected a value in the interval [0..59]", t.Minute)
+	} else if t.Second > 59 {
+		return fmt.Errorf("Invalid SMPTE offset second (%d): expected a value in the interval [0..59]", t.Second)
+	} else if t.FrameRate != 24 && t.FrameRate != 25 && t.FrameRate != 29 && t.FrameRate != 30 {
+		return fmt.Errorf("Invalid SMPTE offset frame rate (%02X): expected a value in the set [24,25,29,30]", t.FrameRate)
+	} else if t.Frames >= t.FrameRate {
+		return fmt.Errorf("Invalid SMPTE offset frames (%d): expected a value in the interval [0..%d]", t.Frames, t.FrameRate-1)
+	} else if t.FractionalFrames > 100 {
+		return fmt.Errorf("Invalid SMPTE offset fractional frames (%d): expected a value in the interval [0..100", t.FractionalFrames)
 	} else {
 		*e = MakeSMPTEOffset(0, t.Delta, t.Hour, t.Minute, t.Second, t.FrameRate, t.Frames, t.FractionalFrames, []byte{}...)
 	}
-- 
2.43.0


From 9c5c224f5f7b0bf83edee0bb941a7722bf0cb513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:23 +0000
Subject: [PATCH 18/51] fix: assembling an invalid key signature or tempo
 panics or writes another value

---
 midi/events/meta/key_signature.go | 13 +++++++++++++
 midi/events/meta/tempo.go         |  4 ++++
 2 files changed, 17 insertions(+)

diff --git a/midi/events/meta/key_signature.go b/midi/events/meta/key_signature.go
index 5afb698..da9d798 100644
--- a/midi/events/meta/key_signature.go
+++ b/midi/events/meta/key_signature.go
@@ -154,12 +154,14 @@ func (e *KeySignature) UnmarshalText(text []byte) error {
 	} else {
 		accidentals := int8(0)
 		keyType := lib.KeyType(0)
+		found := false
 		key := strings.ToLower(fmt.Sprintf("%v %v", match[2], match[3]))
 
 		for _, scale := range lib.MAJOR_SCALES {
 			if strings.ToLower(scale.Name) == key {
 				accidentals = scale.Accidentals
 				keyType = scale.Type
+				found = true
 				break
 			}
 		}
@@ -168,10 +170,15 @@ func (e *KeySignature) UnmarshalText(text []byte) error {
 			if strings.ToLower(scale.Name) == key {
 				accidentals = scale.Accidentals
 				keyType = scale.Type
+				found = true
 				break
 			}
 		}
 
+		if !found {
+			return fmt.Errorf("invalid KeySignature key (%v %v)", match[2], match[3])
+		}
+
 		*e = MakeKeySignature(0, delta, accidentals, keyType, []byte{}...)
 	}
 
@@ -212,6 +219,12 @@ func (e *KeySignature) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagKeySignature) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if _, ok := lib.MajorScale(t.Accidentals); t.KeyType == lib.Major && !ok {
+		return fmt.Errorf("Invalid major key signature (%d accidentals)", t.Accidentals)
+	} else if _, ok := lib.MinorScale(t.Accidentals); t.KeyType == lib.Minor && !ok {
+		return fmt.Errorf("Invalid minor key signature (%d accidentals)", t.Accidentals)
+	} else if t.KeyType != lib.Major && t.KeyType != lib.Minor {
+		return fmt.Errorf("Invalid KeySignature key type (%d)", byte(t.KeyType))
 	} else {
 		*e = MakeKeySignature(0, t.Delta, t.Accidentals, t.KeyType, []byte{}...)
 	}
diff --git a/midi/events/meta/tempo.go b/midi/events/meta/tempo.go
index 0fc954c..aa13285 100644
--- a/midi/events/meta/tempo.go
+++ b/midi/events/meta/tempo.go
@@ -99,6 +99,8 @@ func (e *Tempo) UnmarshalText(text []byte) error {
 		return err
 	} else if tempo, err := strconv.ParseUint(match[2], 10, 32); err != nil {
 		return err
+	} else if tempo > 0x00ffffff {
+		return fmt.Errorf("invalid Tempo tempo (%v)", tempo)
 	} else {
 		*e = MakeTempo(0, delta, uint32(tempo), []byte{}...)
 	}
@@ -135,6 +137,8 @@ func (e *Tempo) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagTempo) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Tempo > 0x00ffffff {
+		return fmt.Errorf("invalid Tempo tempo (%v)", t.Tempo)
 	} else {
 		*e = MakeTempo(0, t.Delta, t.Tempo, []byte{}...)
 	}
-- 
2.43.0


From 40c74bd992b601ee60574a5bb7d7a0fdc41d163b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:10 +0000
Subject: [PATCH 19/51] fix: truncated MThd and MTrk chunks panic

---
 midi/MThd.go | 4 ++++
 midi/MTrk.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/midi/MThd.go b/midi/MThd.go
index 645530a..adb6f61 100644
--- a/midi/MThd.go
+++ b/midi/MThd.go
@@ -72,6 +72,10 @@ func MakeMThd(format uint16, tracks uint16, division uint16, bytes ...byte) MThd
 }
 
 func (mthd *MThd) UnmarshalBinary(chunk []byte) error {
+	if len(chunk) != 14 {
+		return fmt.Errorf("invalid MThd chunk (%d bytes) - expected 14 bytes", len(chunk))
+	}
+
 	if tag := string(chunk[0:4]); tag != "MThd" {
 		return fmt.Errorf("invalid MThd chunk - expected:'%v', got:'%v'", "MThd", tag)
 	} else {
diff --git a/midi/MTrk.go b/midi/MTrk.go
index 869730a..4730d82 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -36,6 +36,10 @@ func NewMTrk() (*MTrk, error) {
 }
 
 func (chunk *MTrk) UnmarshalBinary(data []byte) error {
+	if len(data) < 8 {
+		return fmt.Errorf("Invalid MTrk chunk (%d bytes)", len(data))
+	}
+
 	tag := string(data[0:4])
 	if tag != "MTrk" {
 		return fmt.Errorf("Invalid MTrk chunk type (%s): expected 'MTrk'", tag)
-- 
2.43.0


From b8f4ea38787eef3881366a087c64c85672611cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:11 +0000
Subject: [PATCH 20/51] fix: a file that ends inside a chunk or a track that
 ends inside an event is decoded without an error

---
 encoding/midi/decoder.go | 4 +++-
 midi/MTrk.go             | 9 ++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/encoding/midi/decoder.go b/encoding/midi/decoder.go
index 8dad338..0fb5b69 100644
--- a/encoding/midi/decoder.go
+++ b/encoding/midi/decoder.go
@@ -90,7 +90,9 @@ func (r *chunker) next() ([]byte, error) {
 	N := binary.BigEndian.Uint32(buffer[4:])
 	chunk := make([]byte, N)
 
-	if _, err := io.ReadFull(r.reader, chunk); err != nil {
+	if _, err := io.ReadFull(r.reader, chunk); errors.Is(err, io.EOF) {
+		return nil, io.ErrUnexpectedEOF
+	} else if err != nil {
 		return nil, err
 	}
 
diff --git a/midi/MTrk.go b/midi/MTrk.go
index 4730d82..2f373af 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -106,12 +106,19 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 	return nil
 }
 
-func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, error) {
+func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (event *events.Event, err error) {
 	rr := reader{
 		reader: r,
 		buffer: &bytes.Buffer{},
 	}
 
+	// ... EOF is only valid between events
+	defer func() {
+		if err == io.EOF && len(rr.Bytes()) > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+	}()
+
 	delta, err := events.VLQ(rr)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b43600fa696770307b8642503f87c3cf85c7cf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:13 +0000
Subject: [PATCH 21/51] fix: an invalid meta or MIDI event in a track panics

---
 midi/MTrk.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index 2f373af..429ed79 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -147,8 +147,11 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (event *events.Ev
 		}
 
 		e, err := metaevent.Parse(uint64(tick)+uint64(delta), rr.Bytes()...)
+		if err != nil {
+			return nil, err
+		}
 
-		return events.NewEvent(e), err
+		return events.NewEvent(e), nil
 	}
 
 	// ... SysEx event
@@ -195,8 +198,11 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (event *events.Ev
 	}
 
 	e, err := midievent.Parse(uint64(tick)+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
+	if err != nil {
+		return nil, err
+	}
 
 	ctx.RunningStatus = status
 
-	return events.NewEvent(e), err
+	return events.NewEvent(e), nil
 }
-- 
2.43.0


From 2c4e0efb8e07109ffc3f1908bb4a080a36efcb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:14 +0000
Subject: [PATCH 22/51] fix: event ticks wrap around at 2^32

---
 midi/MTrk.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index 429ed79..eb9dca4 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -49,14 +49,14 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 
 	eventlist := make([]*events.Event, 0)
 	r := bufio.NewReader(bytes.NewReader(data[8:]))
-	tick := uint32(0)
+	tick := uint64(0)
 	err := error(nil)
 	var e *events.Event = nil
 
 	for err == nil {
 		e, err = parse(r, tick, chunk.Context)
 		if err == nil && e != nil {
-			tick += e.Delta()
+			tick += uint64(e.Delta())
 			eventlist = append(eventlist, e)
 
 			switch k := e.Event.(type) {
@@ -106,7 +106,7 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 	return nil
 }
 
-func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (event *events.Event, err error) {
+func parse(r *bufio.Reader, tick uint64, ctx *context.Context) (event *events.Event, err error) {
 	rr := reader{
 		reader: r,
 		buffer: &bytes.Buffer{},
@@ -146,7 +146,7 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (event *events.Ev
 			return nil, err
 		}
 
-		e, err := metaevent.Parse(uint64(tick)+uint64(delta), rr.Bytes()...)
+		e, err := metaevent.Parse(tick+uint64(delta), rr.Bytes()...)
 		if err != nil {
 			return nil, err
 		}
@@ -165,7 +165,7 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (event *events.Ev
 				return nil, fmt.Errorf("Invalid SysExMessage event data: F0 start byte without terminating F7")
 			}
 
-			if e, err := sysex.Parse(uint64(tick)+uint64(delta), ctx.Casio, rr.Bytes()...); err != nil {
+			if e, err := sysex.Parse(tick+uint64(delta), ctx.Casio, rr.Bytes()...); err != nil {
 				return nil, err
 			} else {
 				bytes := rr.Bytes()
@@ -197,7 +197,7 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (event *events.Ev
 		}
 	}
 
-	e, err := midievent.Parse(uint64(tick)+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
+	e, err := midievent.Parse(tick+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From cc3865214a8a47f9e2939c262214244fad5ea6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:15 +0000
Subject: [PATCH 23/51] fix: bank select drops the top bit of the MSB and LSB

---
 midi/MTrk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index eb9dca4..0f6003e 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -71,13 +71,13 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 				if k.Controller.ID == 0x00 {
 					c := uint8(k.Channel)
 					v := uint16(k.Value)
-					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & 0x003f) | ((v & 0x003f) << 7)
+					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & 0x007f) | ((v & 0x007f) << 7)
 				}
 
 				if k.Controller.ID == 0x20 {
 					c := uint8(k.Channel)
 					v := uint16(k.Value)
-					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & (0x003f << 7)) | (v & 0x003f)
+					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & (0x007f << 7)) | (v & 0x007f)
 				}
 
 			case midievent.NoteOff:
-- 
2.43.0


From 8b6e5e6975f132ce0d202f9abcbc6b5b1d5fdb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:17 +0000
Subject: [PATCH 24/51] fix: validating a format 1 file without tracks and
 assembling a track without events panic

---
 midi/smf.go              | 6 +++++-
 ops/assemble/assemble.go | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/midi/smf.go b/midi/smf.go
index d1d7a09..f02c318 100644
--- a/midi/smf.go
+++ b/midi/smf.go
@@ -98,7 +98,11 @@ func (smf *SMF) validateFormat1() []ValidationError {
 		}
 	}
 
-	for _, track := range smf.Tracks[1:] {
+	for i, track := range smf.Tracks {
+		if i == 0 {
+			continue
+		}
+
 		for _, e := range track.Events {
 			if !events.IsTrack1Event(e) {
 				errors = append(errors, ValidationError(fmt.Errorf("Track %d: unexpected event (%s)", track.TrackNumber, events.Clean(e))))
diff --git a/ops/assemble/assemble.go b/ops/assemble/assemble.go
index 01275c3..f17119e 100644
--- a/ops/assemble/assemble.go
+++ b/ops/assemble/assemble.go
@@ -12,7 +12,7 @@ type Assembler interface {
 }
 
 func fixups(mtrk *midi.MTrk) (*midi.MTrk, error) {
-	for ix := range mtrk.Events[1:] {
+	for ix := 0; ix+1 < len(mtrk.Events); ix++ {
 		previous := mtrk.Events[ix]
 		event := mtrk.Events[ix+1]
 
@@ -30,7 +30,7 @@ func fixups(mtrk *midi.MTrk) (*midi.MTrk, error) {
 		}
 	}
 
-	for ix := range mtrk.Events[1:] {
+	for ix := 0; ix+1 < len(mtrk.Events); ix++ {
 		previous := mtrk.Events[ix]
 		event := mtrk.Events[ix+1]
 
-- 
2.43.0


From 882b8ad8794e0f3045140248ce6f136ccf688151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:34 +0000
Subject: [PATCH 25/51] fix: a text event whose data includes the name of
 another event is not assembled

---
 midi/events/text.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/midi/events/text.go b/midi/events/text.go
index 2a9b639..04f96ad 100644
--- a/midi/events/text.go
+++ b/midi/events/text.go
@@ -3,6 +3,7 @@ package events
 import (
 	"encoding"
 	"fmt"
+	"regexp"
 	"strings"
 
 	"github.com/transcriptaze/midiasm/midi/events/meta"
@@ -13,6 +14,11 @@ import (
 func (e *Event) UnmarshalText(text []byte) error {
 	s := string(text)
 
+	// ... the event data may include the name of some other event
+	if match := regexp.MustCompile(`delta:[0-9]+\s+(?:[0-9A-Fa-f]{2}\s+)?([A-Za-z]+)`).FindStringSubmatch(s); match != nil {
+		s = match[1]
+	}
+
 	switch {
 	case strings.Contains(s, "SequenceNumber"):
 		return unmarshalText[metaevent.SequenceNumber](e, text)
@@ -99,7 +105,7 @@ func (e *Event) UnmarshalText(text []byte) error {
 		return unmarshalText[sysex.SysExEscapeMessage](e, text)
 
 	default:
-		return fmt.Errorf("Unrecognised event (%v)", s)
+		return fmt.Errorf("Unrecognised event (%v)", string(text))
 	}
 }
 
-- 
2.43.0


From f9df4dd3d4a3818836d17542b27fc735bf5b6f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:36 +0000
Subject: [PATCH 26/51] fix: the tag unmarshalled from text depends on the map
 iteration order

---
 midi/lib/tag.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/midi/lib/tag.go b/midi/lib/tag.go
index b169371..95e7fbc 100644
--- a/midi/lib/tag.go
+++ b/midi/lib/tag.go
@@ -110,13 +110,18 @@ func (t Tag) String() string {
 func (t *Tag) UnmarshalText(bytes []byte) error {
 	text := string(bytes)
 
+	index := -1
+
 	for k, v := range tags {
-		if strings.Contains(text, v) {
+		if ix := strings.Index(text, v); ix >= 0 && (index < 0 || ix < index) {
+			index = ix
 			*t = k
-			return nil
 		}
 	}
 
-	return fmt.Errorf("No matching tag")
+	if index < 0 {
+		return fmt.Errorf("No matching tag")
+	}
 
+	return nil
 }
-- 
2.43.0


From 13431a83a483bade3d9b064ffe7063edfa79d81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:37 +0000
Subject: [PATCH 27/51] fix: a comment or event with the text 'MThd' or 'MTrk'
 is assembled as a chunk header

---
 ops/assemble/text.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 5d39a0e..4bc0721 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -37,7 +37,10 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 			case strings.HasPrefix(line, "%%"):
 				// comment - ignore
 
-			case strings.Contains(line, "MThd"):
+			case isMThd(line) && smf.MThd != nil:
+				return nil, fmt.Errorf("duplicate MThd")
+
+			case isMThd(line):
 				if mthd, err := a.parseMThd(chunk); err != nil {
 					return nil, err
 				} else {
@@ -46,7 +49,7 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 
 				break
 
-			case strings.Contains(line, "MTrk"):
+			case isMTrk(line):
 				if mtrk, err := a.parseMTrk(chunk); err != nil {
 					return nil, err
 				} else {
@@ -101,8 +104,6 @@ func (a TextAssembler) scan(scanner *bufio.Scanner, lines chan string) {
 }
 
 func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
-	tags := regexp.MustCompile("(MThd)|(MTrk)")
-
 	clone := func(slice []string) []string {
 		chunk := make([]string, len(slice))
 		copy(chunk, slice)
@@ -111,14 +112,14 @@ func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
 
 	var chunk []string
 	for line := range lines {
-		if strings.Contains(line, "MThd") {
+		if isMThd(line) {
 			chunk = []string{line}
 			break
 		}
 	}
 
 	for line := range lines {
-		if match := tags.FindStringSubmatch(line); match != nil {
+		if isMThd(line) || isMTrk(line) {
 			chunks <- clone(chunk)
 			chunk = []string{line}
 		} else {
@@ -133,6 +134,16 @@ func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
 	close(chunks)
 }
 
+// An MThd or MTrk chunk starts with a line with the chunk tag ahead of any fields. The tag may also
+// occur in a comment or in the data of an event.
+func isMThd(line string) bool {
+	return regexp.MustCompile(`^[^%:]*MThd`).MatchString(line)
+}
+
+func isMTrk(line string) bool {
+	return regexp.MustCompile(`^[^%:]*MTrk`).MatchString(line)
+}
+
 func (a TextAssembler) parseMThd(chunk []string) (*midi.MThd, error) {
 	for _, line := range chunk {
 		if strings.Contains(line, "MThd") {
-- 
2.43.0


From ff19a39c698c04d41960519b8a8293e557bf4f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:39 +0000
Subject: [PATCH 28/51] fix: assembling an invalid track leaks a goroutine

---
 ops/assemble/text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 4bc0721..f31cb60 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -195,7 +195,7 @@ func (a TextAssembler) parseMTrk(chunk []string) (*midi.MTrk, error) {
 			select {
 			case lines <- line:
 			case <-closed:
-				break
+				return
 			}
 		}
 
-- 
2.43.0


From 2826679a14ed6e943440cdd53ee08639da46dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:55 +0000
Subject: [PATCH 29/51] fix: a command that cannot be parsed or configured
 exits with status 0

---
 cmd/midiasm/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/midiasm/main.go b/cmd/midiasm/main.go
index beb6fc7..b0a628b 100644
--- a/cmd/midiasm/main.go
+++ b/cmd/midiasm/main.go
@@ -41,7 +41,7 @@ func main() {
 	cmd, flagset, err := parse()
 	if err != nil {
 		fmt.Printf("ERROR: unable to parse command line (%v)\n", err)
-		return
+		os.Exit(1)
 	}
 
 	// ... set manufacturer specific options
@@ -49,7 +49,7 @@ func main() {
 		f, err := os.Open(options.conf)
 		if err != nil {
 			fmt.Printf("ERROR: %v\n", err)
-			return
+			os.Exit(1)
 		}
 
 		manufacturers, err := lib.LoadManufacturers(f)
@@ -58,7 +58,7 @@ func main() {
 
 		if err != nil {
 			fmt.Printf("ERROR: %v\n", err)
-			return
+			os.Exit(1)
 		}
 
 		lib.AddManufacturers(manufacturers)
-- 
2.43.0


From 61792a5e4c8e95cd7d7430bbcbb14bd8df3bcc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:56 +0000
Subject: [PATCH 30/51] fix: disassemble --split ignores errors writing the
 files

---
 commands/disassemble.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/commands/disassemble.go b/commands/disassemble.go
index 8598538..b18b9cd 100644
--- a/commands/disassemble.go
+++ b/commands/disassemble.go
@@ -128,12 +128,14 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 		return err
 	}
 
-	if err = op.Print(smf.MThd, "MThd", w); err != nil {
-		fmt.Printf("Error %v extracting MThd information\n", err)
-	}
+	err = op.Print(smf.MThd, "MThd", w)
 
 	w.Close()
 
+	if err != nil {
+		return fmt.Errorf("error extracting MThd information (%w)", err)
+	}
+
 	// Print tracks
 	for _, mtrk := range smf.Tracks {
 		filename := fmt.Sprintf("%s-%d.MTrk", base, mtrk.TrackNumber)
@@ -142,11 +144,13 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 			return err
 		}
 
-		if err = op.Print(mtrk, "MTrk", w); err != nil {
-			fmt.Printf("Error %v extracting MTrk%d information\n", mtrk.TrackNumber, err)
-		}
+		err = op.Print(mtrk, "MTrk", w)
 
 		w.Close()
+
+		if err != nil {
+			return fmt.Errorf("error extracting MTrk%d information (%w)", mtrk.TrackNumber, err)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 47ca98fd1db6e275d600f04479d2e4f0e94a2fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:58 +0000
Subject: [PATCH 31/51] fix: disassemble --split creates an inaccessible
 directory

---
 commands/disassemble.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commands/disassemble.go b/commands/disassemble.go
index b18b9cd..ad46576 100644
--- a/commands/disassemble.go
+++ b/commands/disassemble.go
@@ -115,7 +115,7 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 
 	if p.out != "" {
 		dir = p.out
-		err := os.MkdirAll(dir, os.ModeDir)
+		err := os.MkdirAll(dir, 0770)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 6b79fe620ea95a82e6d49af7da894b8827cc4334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:59 +0000
Subject: [PATCH 32/51] fix: tsv ignores errors writing a table

---
 commands/tsv.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commands/tsv.go b/commands/tsv.go
index e49facb..70706c2 100644
--- a/commands/tsv.go
+++ b/commands/tsv.go
@@ -186,7 +186,9 @@ func writeTable(records [][]string, w io.Writer) error {
 			row = append(row, fmt.Sprintf(formats[i], f))
 		}
 
-		fmt.Fprintf(w, "%v\n", strings.Join(row, "  "))
+		if _, err := fmt.Fprintf(w, "%v\n", strings.Join(row, "  ")); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 7f6c9763bc81aa654e728f66e6ca34a8a61bd5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:00 +0000
Subject: [PATCH 33/51] fix: the humanise --out option is stored as the tsv
 --out option

---
 commands/humanise.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commands/humanise.go b/commands/humanise.go
index ee80c3b..8200b06 100644
--- a/commands/humanise.go
+++ b/commands/humanise.go
@@ -18,7 +18,7 @@ type humanise struct {
 var Humanise = humanise{}
 
 func (h *humanise) Flagset(flagset *flag.FlagSet) *flag.FlagSet {
-	flagset.StringVar(&TSV.out, "out", "", "Output file path")
+	flagset.StringVar(&h.out, "out", "", "Output file path")
 
 	return flagset
 }
-- 
2.43.0


From bb8a11bfd370295f4af78744b4cca3339f9a35e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:01 +0000
Subject: [PATCH 34/51] fix: notes ignores errors writing the notes

---
 ops/notes/notes.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index b1f0d26..d2a78dc 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -49,13 +49,11 @@ func (x *Notes) Execute(smf *midi.SMF) error {
 		return err
 	} else {
 		if x.JSON {
-			export(notes, x.Writer)
+			return export(notes, x.Writer)
 		} else {
-			print(notes, x.Writer)
+			return print(notes, x.Writer)
 		}
 	}
-
-	return nil
 }
 
 func extract(smf *midi.SMF, transposition int) ([]Note, error) {
@@ -285,7 +283,9 @@ func print(notes []Note, w io.Writer) error {
 		end := n.End.Truncate(time.Millisecond)
 		duration := n.Duration.Truncate(time.Millisecond)
 
-		fmt.Fprintf(w, "%-4s channel:%-2d  note:%02X  velocity:%-3d  start:%-9s  end:%-9s  duration:%s\n", n.FormattedNote, n.Channel, n.Note, n.Velocity, start, end, duration)
+		if _, err := fmt.Fprintf(w, "%-4s channel:%-2d  note:%02X  velocity:%-3d  start:%-9s  end:%-9s  duration:%s\n", n.FormattedNote, n.Channel, n.Note, n.Velocity, start, end, duration); err != nil {
+			return err
+		}
 	}
 
 	return nil
@@ -324,8 +324,8 @@ func export(notes []Note, w io.Writer) error {
 
 	if bytes, err := json.MarshalIndent(object, "", "  "); err != nil {
 		return err
-	} else {
-		w.Write(bytes)
+	} else if _, err := w.Write(bytes); err != nil {
+		return err
 	}
 
 	return nil
-- 
2.43.0


From d77f8feaf9f417db3a0275d55aa597f00610d87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:03 +0000
Subject: [PATCH 35/51] fix: transposed notes in the notes listing exceed 127

---
 ops/notes/notes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index d2a78dc..0bde6ce 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -270,8 +270,8 @@ func transpose(note uint8, transpose int) uint8 {
 
 	if v < 0 {
 		return 0
-	} else if v > 255 {
-		return 255
+	} else if v > 127 {
+		return 127
 	} else {
 		return uint8(v)
 	}
-- 
2.43.0


From b3414ea3f0966721708910b585634b65a5a7a7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:04 +0000
Subject: [PATCH 36/51] fix: the order of notes ended by EndOfTrack depends on
 the map iteration order

---
 ops/notes/notes.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 0bde6ce..633ce50 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -230,7 +230,8 @@ func buildNoteList(events []event, transposition int) ([]Note, error) {
 			for i := 0; i < 16; i++ {
 				list := pending[lib.Channel(i)]
 				if len(list) > 0 {
-					for k, p := range list {
+					for _, k := range keys(list) {
+						p := list[k]
 						warnf("EndOfTrack automatically ending note (channel:%v, note:%02X, tick:%v, at:%v)", i, k, p.tick, p.at)
 						on := p.event.(midievent.NoteOn)
 
@@ -256,7 +257,8 @@ func buildNoteList(events []event, transposition int) ([]Note, error) {
 	for i := 0; i < 16; i++ {
 		list := pending[lib.Channel(i)]
 		if len(list) > 0 {
-			for k, n := range list {
+			for _, k := range keys(list) {
+				n := list[k]
 				warnf("Incomplete note (channel:%v, note:%02X, tick:%v, at:%v)", i, k, n.tick, n.at)
 			}
 		}
@@ -265,6 +267,19 @@ func buildNoteList(events []event, transposition int) ([]Note, error) {
 	return notes, nil
 }
 
+func keys(pending map[uint8]event) []uint8 {
+	list := []uint8{}
+	for k := range pending {
+		list = append(list, k)
+	}
+
+	sort.Slice(list, func(i, j int) bool {
+		return list[i] < list[j]
+	})
+
+	return list
+}
+
 func transpose(note uint8, transpose int) uint8 {
 	v := int(note) + transpose
 
-- 
2.43.0


From 29065aa6d198750eb70d9d8947e012f678fe4220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:05 +0000
Subject: [PATCH 37/51] fix: notes panics on a file without tracks or without a
 metrical time division

---
 ops/notes/notes.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 633ce50..b030eb6 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -59,6 +59,14 @@ func (x *Notes) Execute(smf *midi.SMF) error {
 func extract(smf *midi.SMF, transposition int) ([]Note, error) {
 	notes := make([]Note, 0)
 
+	if len(smf.Tracks) == 0 {
+		return notes, nil
+	}
+
+	if smf.MThd.PPQN == 0 {
+		return nil, fmt.Errorf("invalid metrical time division (%d ppqn)", smf.MThd.PPQN)
+	}
+
 	// ... build tempo map
 	tempoMap := buildTempoMap(*smf)
 
-- 
2.43.0


From 6fd822c5b73dd12dc9dc15a5fc70a438da5ed9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:06 +0000
Subject: [PATCH 38/51] fix: the default tempo for notes is 1200 BPM instead of
 120 BPM

---
 ops/notes/notes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index b030eb6..88d46e3 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -122,7 +122,7 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	})
 
 	// ... assign event timestamps
-	tempo := uint64(50000)
+	tempo := uint64(500000)
 	at := time.Duration(0)
 
 	for i, e := range list {
-- 
2.43.0


From 9c7ec4359f9eb14e1c770eb6d316b92632d55526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:23 +0000
Subject: [PATCH 39/51] fix: note times ignore a tempo change between two
 events of a track

---
 ops/notes/notes.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 88d46e3..945658b 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -124,11 +124,13 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	// ... assign event timestamps
 	tempo := uint64(500000)
 	at := time.Duration(0)
+	tick := uint64(0)
 
 	for i, e := range list {
 		// beat = float64(tick) / float64(ppqn)
-		delta := time.Duration(1000 * e.delta * tempo / uint64(ppqn))
+		delta := time.Duration(1000 * (e.tick - tick) * tempo / uint64(ppqn))
 		at += delta
+		tick = e.tick
 
 		if dt := (uint64(delta) * tempo) % uint64(ppqn); dt > 0 {
 			warnf("%-5dµs loss of precision converting from MIDI tick to physical time at tick %d", dt, e.tick)
-- 
2.43.0


From 89876e125eb5dfd24176fa141bc0b997ddd605f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:24 +0000
Subject: [PATCH 40/51] fix: disassembling an event without bytes panics

---
 ops/disassemble/disassemble.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops/disassemble/disassemble.go b/ops/disassemble/disassemble.go
index 687a2e2..ca708ca 100644
--- a/ops/disassemble/disassemble.go
+++ b/ops/disassemble/disassemble.go
@@ -96,7 +96,7 @@ func pad(width int, v any) string {
 func valign(bytes lib.Hex, w ...int) string {
 	ix := 0
 
-	for {
+	for ix < len(bytes) {
 		b := bytes[ix]
 		ix += 1
 
-- 
2.43.0


From 30b0180e5db73675b2deb16f6208acbc83c05506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:25 +0000
Subject: [PATCH 41/51] fix: MakeMThd truncates the number of sub-frames

---
 midi/MThd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/MThd.go b/midi/MThd.go
index adb6f61..381ee6e 100644
--- a/midi/MThd.go
+++ b/midi/MThd.go
@@ -49,7 +49,7 @@ func MakeMThd(format uint16, tracks uint16, division uint16, bytes ...byte) MThd
 		mthd.PPQN = division & 0x7fff
 	} else {
 		mthd.SMPTETimeCode = true
-		mthd.SubFrames = division & 0x007f
+		mthd.SubFrames = division & 0x00ff
 
 		fps := division & 0xff00 >> 8
 		switch fps {
-- 
2.43.0


From 6624660318ae02f92101e9c441337fcc1b63b8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:27 +0000
Subject: [PATCH 42/51] fix: click never matches a tempo, time signature or end
 of track event

---
 ops/click/click.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ops/click/click.go b/ops/click/click.go
index 4ae040a..60dbfb6 100644
--- a/ops/click/click.go
+++ b/ops/click/click.go
@@ -42,7 +42,7 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 	tempoMap := make([]*events.Event, 0)
 
 	for _, e := range smf.Tracks[0].Events {
-		if _, ok := e.Event.(*metaevent.Tempo); ok {
+		if _, ok := e.Event.(metaevent.Tempo); ok {
 			tempoMap = append(tempoMap, e)
 		}
 	}
@@ -57,13 +57,13 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 		}
 
 		for _, e := range track.Events {
-			if _, ok := e.Event.(*metaevent.TimeSignature); ok {
+			if _, ok := e.Event.(metaevent.TimeSignature); ok {
 				tick := e.Tick()
 				list := eventlist[tick]
 				eventlist[tick] = append(list, e)
 			}
 
-			if _, ok := e.Event.(*metaevent.EndOfTrack); ok {
+			if _, ok := e.Event.(metaevent.EndOfTrack); ok {
 				tick := e.Tick()
 				list := eventlist[tick]
 				eventlist[tick] = append(list, e)
@@ -97,7 +97,7 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 				event := e.Event
 
 				// ... tempo changes
-				if v, ok := event.(*metaevent.Tempo); ok {
+				if v, ok := event.(metaevent.Tempo); ok {
 					tempo = uint(math.Round(60.0 * 1000000.0 / float64(v.Tempo)))
 
 					debugf("%-14v  %-5v bar:%-3d", "TEMPO", v, bar)
@@ -109,7 +109,7 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 				}
 
 				// ... time signature changes
-				if v, ok := event.(*metaevent.TimeSignature); ok {
+				if v, ok := event.(metaevent.TimeSignature); ok {
 					debugf("%-14v  %-5v bar:%-3d", "TIME SIGNATURE", v, bar)
 
 					cluck := clucks[bar]
@@ -118,10 +118,10 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 					cluck.TimeSignature = fmt.Sprintf("%v", v)
 					clucks[bar] = cluck
 
-					timeSignature = v
+					timeSignature = &v
 				}
 
-				if _, ok := event.(*metaevent.EndOfTrack); ok {
+				if _, ok := event.(metaevent.EndOfTrack); ok {
 					debugf("%-14v  %-5v bar:%-3d", "END OF TRACK", "", bar)
 
 					cluck := clucks[bar]
-- 
2.43.0


From cacebd430d0976a124b1ed8ba2e61e7b95659747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:45 +0000
Subject: [PATCH 43/51] fix: the order of the click track bars depends on the
 map iteration order

---
 ops/click/click.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ops/click/click.go b/ops/click/click.go
index 60dbfb6..ee22190 100644
--- a/ops/click/click.go
+++ b/ops/click/click.go
@@ -137,9 +137,18 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 		break
 	}
 
+	bars := []uint{}
+	for bar := range clucks {
+		bars = append(bars, bar)
+	}
+
+	sort.Slice(bars, func(i, j int) bool {
+		return bars[i] < bars[j]
+	})
+
 	list := []Cluck{}
-	for _, v := range clucks {
-		list = append(list, v)
+	for _, bar := range bars {
+		list = append(list, clucks[bar])
 	}
 
 	sort.SliceStable(list, func(i, j int) bool {
-- 
2.43.0


From e5da09c8c7b6c9cc1c5e429b49844060cbdb6047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:46 +0000
Subject: [PATCH 44/51] fix: click panics on a file without tracks

---
 ops/click/click.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ops/click/click.go b/ops/click/click.go
index ee22190..0678df0 100644
--- a/ops/click/click.go
+++ b/ops/click/click.go
@@ -41,6 +41,10 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 	ppqn := uint64(smf.MThd.Division)
 	tempoMap := make([]*events.Event, 0)
 
+	if len(smf.Tracks) == 0 {
+		return fmt.Errorf("missing MTrk")
+	}
+
 	for _, e := range smf.Tracks[0].Events {
 		if _, ok := e.Event.(metaevent.Tempo); ok {
 			tempoMap = append(tempoMap, e)
-- 
2.43.0


From 649c588578e151c63d93038ec265d1462ed17fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:48 +0000
Subject: [PATCH 45/51] fix: click ignores errors writing the click track

---
 ops/click/click.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ops/click/click.go b/ops/click/click.go
index 0678df0..876de20 100644
--- a/ops/click/click.go
+++ b/ops/click/click.go
@@ -161,7 +161,9 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 
 	fmt.Println()
 	for _, v := range list {
-		fmt.Fprintf(x.Writer, "bar %-4v  tempo:%-3v  time-signature %v\n", v.Bar, v.Tempo, v.TimeSignature)
+		if _, err := fmt.Fprintf(x.Writer, "bar %-4v  tempo:%-3v  time-signature %v\n", v.Bar, v.Tempo, v.TimeSignature); err != nil {
+			return err
+		}
 	}
 
 	spans := []Span{}
@@ -188,7 +190,9 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 
 	fmt.Println()
 	for _, v := range spans {
-		fmt.Fprintf(x.Writer, "bars %-7v  tempo:%-3v  time-signature %v\n", fmt.Sprintf("%v:%v", v.Start, v.End), v.Tempo, v.TimeSignature)
+		if _, err := fmt.Fprintf(x.Writer, "bars %-7v  tempo:%-3v  time-signature %v\n", fmt.Sprintf("%v:%v", v.Start, v.End), v.Tempo, v.TimeSignature); err != nil {
+			return err
+		}
 	}
 	fmt.Println()
 
-- 
2.43.0


From cbe261a797be87b7c60946cb3536622f59016715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:44 +0000
Subject: [PATCH 46/51] fix: a three byte manufacturer ID that does not start
 with 00 is looked up as another manufacturer

---
 midi/lib/manufacturer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index 340a666..d8b4d71 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"slices"
 	"strings"
 )
 
@@ -72,13 +73,13 @@ func LookupManufacturer(id []byte) Manufacturer {
 	switch len(id) {
 	case 1:
 		key := fmt.Sprintf("%02X", id[0])
-		if m, ok := manufacturers[key]; ok {
+		if m, ok := manufacturers[key]; ok && slices.Equal(m.ID, id) {
 			return m
 		}
 
 	case 3:
 		key := fmt.Sprintf("%02X%02X", id[1], id[2])
-		if m, ok := manufacturers[key]; ok {
+		if m, ok := manufacturers[key]; ok && slices.Equal(m.ID, id) {
 			return m
 		}
 	}
-- 
2.43.0


From 0709dfe2975777c152907b01513db40138bb2caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:46 +0000
Subject: [PATCH 47/51] fix: SysEx messages with a three byte manufacturer ID
 are decoded with an unknown manufacturer

---
 midi/events/sysex/message.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/midi/events/sysex/message.go b/midi/events/sysex/message.go
index 60efabf..d3395f4 100644
--- a/midi/events/sysex/message.go
+++ b/midi/events/sysex/message.go
@@ -54,9 +54,8 @@ func (e *SysExMessage) unmarshal(tick uint64, delta uint32, status lib.Status, d
 		return fmt.Errorf("Invalid SysExMessage event data (0 bytes")
 	}
 
-	id := data[0:1]
+	id, d := split(data)
 	manufacturer := lib.LookupManufacturer(id)
-	d := data[1:]
 
 	if len(d) == 0 || d[len(d)-1] != 0xf7 {
 		*e = MakeSysExMessage(tick, delta, manufacturer, d, bytes...)
@@ -67,6 +66,15 @@ func (e *SysExMessage) unmarshal(tick uint64, delta uint32, status lib.Status, d
 	return nil
 }
 
+// Splits SysEx message data into the (1 or 3 byte) manufacturer ID and the rest of the data.
+func split(data []byte) ([]byte, []byte) {
+	if len(data) > 2 && data[0] == 0x00 && data[1] < 0x80 && data[2] < 0x80 {
+		return data[0:3], data[3:]
+	}
+
+	return data[0:1], data[1:]
+}
+
 func (e SysExMessage) MarshalBinary() ([]byte, error) {
 	status := byte(e.Status)
 
@@ -101,9 +109,8 @@ func (e *SysExMessage) UnmarshalBinary(bytes []byte) error {
 	} else if len(data) == 0 {
 		return fmt.Errorf("Invalid SysExMessage event data (0 bytes)")
 	} else {
-		id := data[0:1]
+		id, d := split(data)
 		manufacturer := lib.LookupManufacturer(id)
-		d := data[1:]
 
 		if len(d) == 0 || d[len(d)-1] != 0xf7 {
 			// ctx.Casio = true
-- 
2.43.0


From 69191b56beed3602f094a5f136efb84ca989022c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:47 +0000
Subject: [PATCH 48/51] fix: notes below C0, notes above G9 and notes with C4
 as middle C are assembled from text with the wrong value

---
 midi/events/midi/note_off.go |  2 +-
 midi/events/midi/note_on.go  | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index 08ce74e..602c4ae 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -167,7 +167,7 @@ func (n *NoteOff) UnmarshalText(bytes []byte) error {
 	n.tag = lib.TagNoteOff
 	n.Status = 0x80
 
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOff\s+channel:([0-9]+)\s+note:([A-G][♯♭]?[0-9]),\s*velocity:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOff\s+channel:([0-9]+)\s+note:([A-G][♯♭]?-?[0-9]),\s*velocity:([0-9]+)`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 5 {
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 6b1ab97..3c4c6f8 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -111,7 +111,7 @@ func (e *NoteOn) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *NoteOn) UnmarshalText(bytes []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOn\s+channel:([0-9]+)\s+note:([A-G][♯♭]?[0-9]),\s*velocity:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOn\s+channel:([0-9]+)\s+note:([A-G][♯♭]?-?[0-9]),\s*velocity:([0-9]+)`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 5 {
@@ -235,7 +235,7 @@ func (e NoteOn) Format(ctx *context.Context) NoteOn {
 }
 
 func ParseNote(ctx *context.Context, s string) (Note, error) {
-	re := regexp.MustCompile(`([A-G][♯♭]?)([-]?[0-9])`)
+	re := regexp.MustCompile(`^([A-G][♯♭]?)([-]?[0-9])$`)
 
 	if match := re.FindStringSubmatch(s); match == nil || len(match) != 3 {
 		return Note{}, fmt.Errorf("invalid note (%v)", s)
@@ -244,8 +244,17 @@ func ParseNote(ctx *context.Context, s string) (Note, error) {
 	} else if octave, err := strconv.ParseInt(match[2], 10, 8); err != nil {
 		return Note{}, err
 	} else {
+		value := 12*(int(octave)+1) + note.Ord
+		if context.MiddleC == lib.C4 {
+			value = 12*(int(octave)+2) + note.Ord
+		}
+
+		if value < 0 || value > 127 {
+			return Note{}, fmt.Errorf("note out of range (%v)", s)
+		}
+
 		return Note{
-			Value: uint8(12*int8(octave+1) + int8(note.Ord)),
+			Value: uint8(value),
 			Name:  fmt.Sprintf("%s%d", note.Name, octave),
 			Alias: fmt.Sprintf("%s%d", note.Name, octave),
 		}, nil
-- 
2.43.0


From 6036fcb21bcedc8aca8a144021c5f301dd2cdab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:40 +0000
Subject: [PATCH 49/51] fix: assemble text lines longer than 64 KB

---
 ops/assemble/text.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index f31cb60..ea66c6c 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -15,6 +15,10 @@ import (
 	"github.com/transcriptaze/midiasm/midi/lib"
 )
 
+// The longest event (a variable length quantity is at most 0x0fffffff) with its data as hex bytes
+// fits in a line of this length.
+const maxLine = 1 << 30
+
 type TextAssembler struct {
 }
 
@@ -77,6 +81,8 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 
 func (a TextAssembler) read(r io.Reader) ([][]string, error) {
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, maxLine)
+
 	lines := make(chan string)
 	chunks := make(chan []string)
 
-- 
2.43.0


From 8bef4ef12b40e310cbeb8f64ba2dbc706aa62a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:09 +0000
Subject: [PATCH 50/51] fix: a MThd format with more than one digit is rejected
 in a text listing

---
 ops/assemble/text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index ea66c6c..660bd7f 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -156,7 +156,7 @@ func (a TextAssembler) parseMThd(chunk []string) (*midi.MThd, error) {
 			var format uint16
 			var division uint16
 
-			if match := regexp.MustCompile(`format:(0|1|2)`).FindStringSubmatch(line); match == nil || len(match) < 2 {
+			if match := regexp.MustCompile(`format:(0|1|2)(?:[^0-9]|$)`).FindStringSubmatch(line); match == nil || len(match) < 2 {
 				return nil, fmt.Errorf("missing or invalid 'format' field in MThd")
 			} else if v, err := strconv.ParseUint(match[1], 10, 16); err != nil {
 				return nil, err
-- 
2.43.0


From 6fad7ec26ead34a58df1721261a8c135becc43ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:31 +0000
Subject: [PATCH 51/51] fix: load user templates in a fixed order

---
 ops/disassemble/disassemble.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ops/disassemble/disassemble.go b/ops/disassemble/disassemble.go
index ca708ca..6fe656a 100644
--- a/ops/disassemble/disassemble.go
+++ b/ops/disassemble/disassemble.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"sort"
 	"strings"
 	"text/template"
 
@@ -53,8 +54,16 @@ func (p *Disassemble) LoadTemplates(r io.Reader) error {
 		return err
 	}
 
-	for name, t := range templates.Templates {
-		if _, err = p.root.New(name).Parse(t); err != nil {
+	// ... in a fixed order: a template may redefine one that is defined in another
+	names := []string{}
+	for name := range templates.Templates {
+		names = append(names, name)
+	}
+
+	sort.Strings(names)
+
+	for _, name := range names {
+		if _, err = p.root.New(name).Parse(templates.Templates[name]); err != nil {
 			return err
 		}
 	}
-- 
2.43.0

