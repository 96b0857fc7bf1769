From 6d08b44e79628c9f5d37fecc479ebd3b2b8647ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 01/27] fix: report errors of slice elements and varints when
 marshalling

marshalSlice and marshalUint dropped the error of the element being
written, so Marshal reported success for boxes it had not written
completely (short inner slices, failing writers).
---
 marshaller.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marshaller.go b/marshaller.go
index 8dd9637..e6b7a2e 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -151,7 +151,9 @@ func (m *marshaller) marshalSlice(v reflect.Value, fi *fieldInstance) error {
 	}
 
 	for i := 0; i < int(length); i++ {
-		m.marshal(v.Index(i), fi)
+		if err := m.marshal(v.Index(i), fi); err != nil {
+			return err
+		}
 	}
 	return nil
 }
@@ -196,8 +198,7 @@ func (m *marshaller) marshalUint(v reflect.Value, fi *fieldInstance) error {
 	val := v.Uint()
 
 	if fi.is(fieldVarint) {
-		m.writeUvarint(val)
-		return nil
+		return m.writeUvarint(val)
 	}
 
 	for i := uint(0); i < fi.size; i += 8 {
-- 
2.43.0


From 98799afd74990af48c6e9095240c655b7782a9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 02/27] fix: read sgpd roll entries with explicit description
 lengths

A RollDistanceWithLength entry takes 48 bits, not 16: a sgpd box of
version 1 with default_length 0 and roll entries could not be decoded.
---
 box_types_iso14496_12.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index d258716..748e29f 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -1554,7 +1554,7 @@ type Sgpd struct {
 	DefaultSampleDescriptionIndex uint32                     `mp4:"3,size=32,ver=2"`
 	EntryCount                    uint32                     `mp4:"4,size=32"`
 	RollDistances                 []int16                    `mp4:"5,size=16,opt=dynamic"`
-	RollDistancesL                []RollDistanceWithLength   `mp4:"6,size=16,opt=dynamic"`
+	RollDistancesL                []RollDistanceWithLength   `mp4:"6,size=48,opt=dynamic"`
 	AlternativeStartupEntries     []AlternativeStartupEntry  `mp4:"7,size=dynamic,len=dynamic,opt=dynamic"`
 	AlternativeStartupEntriesL    []AlternativeStartupEntryL `mp4:"8,len=dynamic,opt=dynamic"`
 	VisualRandomAccessEntries     []VisualRandomAccessEntry  `mp4:"9,len=dynamic,opt=dynamic"`
-- 
2.43.0


From c6102a64fc0cb31bc6930e78103edf5dc33d4ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 03/27] fix: do not look beyond the payload of a short meta box

The bytes following an empty QuickTime style meta box decided how it was
decoded: depending on them it was an empty container, an error, or
swallowed its neighbour's bytes.
---
 box_types_iso14496_12.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index 748e29f..65a0de4 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -895,6 +895,12 @@ func (*Meta) GetType() BoxType {
 
 func (meta *Meta) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx Context) (n uint64, override bool, err error) {
 	// for Apple Quick Time
+	if size < 4 {
+		// too short to contain version and flags
+		meta.Version = 0
+		meta.Flags = [3]byte{0, 0, 0}
+		return 0, true, nil
+	}
 	buf := make([]byte, 4)
 	if _, err := io.ReadFull(r, buf); err != nil {
 		return 0, false, err
-- 
2.43.0


From 14440b2207f9ea23ce011a4c67f6ca43deafbd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 04/27] fix: stringify the Version field of the box itself

The value of GetVersion was printed for every field of that name, so the
version of boxes which are not FullBoxes but have such a field (dOps, ilst
items) was printed as 0.
---
 string.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/string.go b/string.go
index 4bc368e..886e538 100644
--- a/string.go
+++ b/string.go
@@ -110,12 +110,13 @@ func (m *stringifier) stringifyStruct(v reflect.Value, fs []*field, depth int, e
 			continue
 		}
 
-		if f.name == "Version" {
-			m.buf.WriteString(strconv.Itoa(int(m.src.GetVersion())))
+		fv := v.FieldByName(f.name)
+		if f.name == "Version" && fv.Kind() == reflect.Uint8 {
+			m.buf.WriteString(strconv.FormatUint(fv.Uint(), 10))
 		} else if f.name == "Flags" {
 			fmt.Fprintf(m.buf, "0x%06x", m.src.GetFlags())
 		} else {
-			err := m.stringify(v.FieldByName(f.name), fi, depth)
+			err := m.stringify(fv, fi, depth)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From e6d04ad130d970687fa8ec236da25b3fc7c85026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 05/27] fix: reject box sizes which are smaller than the header
 or overflow

Size-HeaderSize and Offset+Size wrapped around for such boxes: payload
sizes became huge and the end of a box could lie before its start, where
reading the structure never ended.
---
 box_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/box_info.go b/box_info.go
index 1cb4b8a..8f86c7a 100644
--- a/box_info.go
+++ b/box_info.go
@@ -142,7 +142,7 @@ func ReadBoxInfo(r io.ReadSeeker) (*BoxInfo, error) {
 		bi.Size = binary.BigEndian.Uint64(buf.Bytes())
 	}
 
-	if bi.Size == 0 {
+	if bi.Size < bi.HeaderSize || bi.Size > math.MaxInt64-bi.Offset {
 		return nil, fmt.Errorf("invalid size")
 	}
 
-- 
2.43.0


From 190c406ecf8ffc8398c9c22d8e3f1af2d0ef00df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 06/27] fix: decode extracted boxes in their own context

ExtractBoxesWithPayload used the context of the parent (or none), so
boxes whose layout depends on wave, ilst, udta, keys or ftyp were decoded
differently from ReadHandle.ReadPayload or not at all.
---
 extract.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/extract.go b/extract.go
index 7de36b0..c8cb2ab 100644
--- a/extract.go
+++ b/extract.go
@@ -26,11 +26,7 @@ func ExtractBoxesWithPayload(r io.ReadSeeker, parent *BoxInfo, paths []BoxPath)
 			return nil, err
 		}
 
-		var ctx Context
-		if parent != nil {
-			ctx = parent.Context
-		}
-		box, _, err := UnmarshalAny(r, bi.Type, bi.Size-bi.HeaderSize, ctx)
+		box, _, err := UnmarshalAny(r, bi.Type, bi.Size-bi.HeaderSize, bi.Context)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From d3de9898bf7a92b7cf65ab984566735ffc773518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 07/27] fix: use bytes which a reader returns together with an
 error

io.Reader may return n > 0 together with io.EOF (and util.ReadString
must not take a read of no bytes for one): the last byte was lost.
---
 internal/bitio/read.go | 7 ++++---
 internal/util/io.go    | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/bitio/read.go b/internal/bitio/read.go
index 4da76ea..18df577 100644
--- a/internal/bitio/read.go
+++ b/internal/bitio/read.go
@@ -59,9 +59,10 @@ func (r *reader) ReadBits(size uint) ([]byte, error) {
 func (r *reader) ReadBit() (bool, error) {
 	if r.width == 0 {
 		buf := make([]byte, 1)
-		if n, err := r.reader.Read(buf); err != nil {
-			return false, err
-		} else if n != 1 {
+		if n, err := r.reader.Read(buf); n != 1 {
+			if err != nil {
+				return false, err
+			}
 			return false, ErrDiscouragedReader
 		}
 		r.octet = buf[0]
diff --git a/internal/util/io.go b/internal/util/io.go
index 1e46811..b691662 100644
--- a/internal/util/io.go
+++ b/internal/util/io.go
@@ -9,7 +9,7 @@ func ReadString(r io.Reader) (string, error) {
 	b := make([]byte, 1)
 	buf := bytes.NewBuffer(nil)
 	for {
-		if _, err := r.Read(b); err != nil {
+		if _, err := io.ReadFull(r, b); err != nil {
 			return "", err
 		}
 		if b[0] == 0 {
-- 
2.43.0


From b59cadb0e344319b53fbafe6bcc87a5bbab4230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 08/27] fix: do not let NAL unit lengths wrap around in
 FindIDRFrames

A length close to 2^32 made the offset of the next NAL unit wrap around,
up to reading the same NAL unit again and again.
---
 probe.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/probe.go b/probe.go
index 2ffaf7a..9d7232e 100644
--- a/probe.go
+++ b/probe.go
@@ -570,7 +570,7 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 	if trackInfo.AVC == nil {
 		return nil, nil
 	}
-	lengthSize := uint32(trackInfo.AVC.LengthSize)
+	lengthSize := uint64(trackInfo.AVC.LengthSize)
 
 	var si int
 	idxs := make([]int, 0, 8)
@@ -582,17 +582,17 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 			if sample.Size == 0 {
 				continue
 			}
-			for nalOffset := uint32(0); nalOffset+lengthSize+1 <= sample.Size; {
-				if _, err := r.Seek(int64(dataOffset+uint64(nalOffset)), io.SeekStart); err != nil {
+			for nalOffset := uint64(0); nalOffset+lengthSize+1 <= uint64(sample.Size); {
+				if _, err := r.Seek(int64(dataOffset+nalOffset), io.SeekStart); err != nil {
 					return nil, err
 				}
 				data := make([]byte, lengthSize+1)
 				if _, err := io.ReadFull(r, data); err != nil {
 					return nil, err
 				}
-				var length uint32
+				var length uint64
 				for i := 0; i < int(lengthSize); i++ {
-					length = (length << 8) + uint32(data[i])
+					length = (length << 8) + uint64(data[i])
 				}
 				nalHeader := data[lengthSize]
 				nalType := nalHeader & 0x1f
-- 
2.43.0


From 5ad4003da865d54271a00a38a59dbd65ad6b59c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 09/27] fix: do not divide by zero in Samples.GetMaxBitrate

A window of samples without duration has no bitrate.
---
 probe.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/probe.go b/probe.go
index 9d7232e..56ab158 100644
--- a/probe.go
+++ b/probe.go
@@ -639,9 +639,11 @@ func (samples Samples) GetMaxBitrate(timescale uint32, timeDelta uint64) uint64
 				break
 			}
 		}
-		bitrate := 8 * size * uint64(timescale) / duration
-		if bitrate > maxBitrate {
-			maxBitrate = bitrate
+		if duration != 0 {
+			bitrate := 8 * size * uint64(timescale) / duration
+			if bitrate > maxBitrate {
+				maxBitrate = bitrate
+			}
 		}
 		for {
 			size -= uint64(samples[begin].Size)
-- 
2.43.0


From 3005b89b000d361782ba4840496928b69b28e6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 10/27] fix: do not overflow when computing bitrates

8*size*timescale exceeds 64 bits for large timescales, where the result
itself is small.
---
 probe.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/probe.go b/probe.go
index 56ab158..5b45dea 100644
--- a/probe.go
+++ b/probe.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"errors"
 	"io"
+	"math"
+	"math/bits"
 
 	"github.com/abema/go-mp4/internal/bitio"
 )
@@ -618,7 +620,7 @@ func (samples Samples) GetBitrate(timescale uint32) uint64 {
 	if totalDuration == 0 {
 		return 0
 	}
-	return 8 * totalSize * uint64(timescale) / totalDuration
+	return bitrate(totalSize, timescale, totalDuration)
 }
 
 func (samples Samples) GetMaxBitrate(timescale uint32, timeDelta uint64) uint64 {
@@ -640,9 +642,8 @@ func (samples Samples) GetMaxBitrate(timescale uint32, timeDelta uint64) uint64
 			}
 		}
 		if duration != 0 {
-			bitrate := 8 * size * uint64(timescale) / duration
-			if bitrate > maxBitrate {
-				maxBitrate = bitrate
+			if br := bitrate(size, timescale, duration); br > maxBitrate {
+				maxBitrate = br
 			}
 		}
 		for {
@@ -669,18 +670,27 @@ func (segments Segments) GetBitrate(trackID uint32, timescale uint32) uint64 {
 	if totalDuration == 0 {
 		return 0
 	}
-	return 8 * totalSize * uint64(timescale) / totalDuration
+	return bitrate(totalSize, timescale, totalDuration)
 }
 
 func (segments Segments) GetMaxBitrate(trackID uint32, timescale uint32) uint64 {
 	var maxBitrate uint64
 	for _, segment := range segments {
 		if segment.TrackID == trackID && segment.Duration != 0 {
-			bitrate := 8 * uint64(segment.Size) * uint64(timescale) / uint64(segment.Duration)
-			if bitrate > maxBitrate {
-				maxBitrate = bitrate
+			if br := bitrate(uint64(segment.Size), timescale, uint64(segment.Duration)); br > maxBitrate {
+				maxBitrate = br
 			}
 		}
 	}
 	return maxBitrate
 }
+
+// bitrate returns 8*size*timescale/duration without overflowing in between
+func bitrate(size uint64, timescale uint32, duration uint64) uint64 {
+	hi, lo := bits.Mul64(8*size, uint64(timescale))
+	if hi >= duration {
+		return math.MaxUint64
+	}
+	q, _ := bits.Div64(hi, lo, duration)
+	return q
+}
-- 
2.43.0


From eda9cdc7f5724fe186745b1806e97fd61112a532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:29 +0000
Subject: [PATCH 11/27] fix: take all trun boxes of a fragment into account
 when dividing

A fragment without a trun box made mp4tool divide panic, and only the
first of several trun boxes counted for the duration in the playlist.
---
 cmd/mp4tool/internal/divide/divide.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index 10c60a6..467e3a1 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -284,14 +284,16 @@ func divide(inputFilePath, outputDir string) error {
 				if err != nil {
 					return nil, err
 				}
-				trun := bs[0].Payload.(*mp4.Trun)
 
 				var duration uint32
-				for i := range trun.Entries {
-					if trun.CheckFlag(0x000100) {
-						duration += trun.Entries[i].SampleDuration
-					} else {
-						duration += defaultSampleDuration
+				for _, b := range bs {
+					trun := b.Payload.(*mp4.Trun)
+					for i := range trun.Entries {
+						if trun.CheckFlag(0x000100) {
+							duration += trun.Entries[i].SampleDuration
+						} else {
+							duration += defaultSampleDuration
+						}
 					}
 				}
 
-- 
2.43.0


From 59157d57786c38821f8c7da1e973c371ed848cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 12/27] fix: refuse byte arrays when the reader is beyond its
 end

The difference became a huge number of available bytes, so a buffer of
whatever length was declared was allocated.
---
 marshaller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshaller.go b/marshaller.go
index e6b7a2e..e529645 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -28,7 +28,7 @@ func readerHasSize(reader bitio.ReadSeeker, size uint64) bool {
 		return false
 	}
 
-	if uint64(end-pre) < size {
+	if end < pre || uint64(end-pre) < size {
 		return false
 	}
 
-- 
2.43.0


From 69af7801da78ab80d6c8dbdb3821a96bf0f81711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 13/27] fix: refuse payload sizes whose number of bits
 overflows

A payload of 2^61+k bytes was decoded as one of k bytes.
---
 marshaller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marshaller.go b/marshaller.go
index e529645..ebfddfa 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -290,6 +290,10 @@ func Unmarshal(r io.ReadSeeker, payloadSize uint64, dst IBox, ctx Context) (n ui
 		return 0, ErrBoxInfoNotFound
 	}
 
+	if payloadSize > math.MaxUint64/8 {
+		return 0, fmt.Errorf("too large payload: type=%s, size=%d", dst.GetType().String(), payloadSize)
+	}
+
 	v := reflect.ValueOf(dst).Elem()
 
 	dst.SetVersion(anyVersion)
-- 
2.43.0


From fa3f2e12a6bb22005c8bc47dea6cca7dcb43220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 14/27] fix: do not allocate buffers of declared box sizes in
 mp4tool

dump -full and psshdump crashed when a box header declares a huge size.
---
 cmd/mp4tool/internal/dump/dump.go         | 2 +-
 cmd/mp4tool/internal/psshdump/psshdump.go | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/mp4tool/internal/dump/dump.go b/cmd/mp4tool/internal/dump/dump.go
index 42280b1..ccebc32 100644
--- a/cmd/mp4tool/internal/dump/dump.go
+++ b/cmd/mp4tool/internal/dump/dump.go
@@ -156,7 +156,7 @@ func (m *mp4dump) dump(r io.ReadSeeker) error {
 
 		// unsupported box type
 		if full {
-			buf := bytes.NewBuffer(make([]byte, 0, h.BoxInfo.Size-h.BoxInfo.HeaderSize))
+			buf := bytes.NewBuffer(nil)
 			if _, err := h.ReadData(buf); err != nil {
 				return nil, err
 			}
diff --git a/cmd/mp4tool/internal/psshdump/psshdump.go b/cmd/mp4tool/internal/psshdump/psshdump.go
index 368bf0e..8d3cfd5 100644
--- a/cmd/mp4tool/internal/psshdump/psshdump.go
+++ b/cmd/mp4tool/internal/psshdump/psshdump.go
@@ -1,6 +1,7 @@
 package psshdump
 
 import (
+	"bytes"
 	"encoding/base64"
 	"fmt"
 	"io"
@@ -54,8 +55,8 @@ func dump(inputFilePath string) error {
 		if _, err := bs[i].Info.SeekToStart(r); err != nil {
 			return err
 		}
-		rawData := make([]byte, bs[i].Info.Size)
-		if _, err := io.ReadFull(r, rawData); err != nil {
+		rawData := bytes.NewBuffer(nil)
+		if _, err := io.CopyN(rawData, r, int64(bs[i].Info.Size)); err != nil {
 			return err
 		}
 
@@ -66,7 +67,7 @@ func dump(inputFilePath string) error {
 		fmt.Printf("  flags: 0x%x\n", pssh.Flags)
 		fmt.Printf("  systemId: %s\n", sysid)
 		fmt.Printf("  dataSize: %d\n", pssh.DataSize)
-		fmt.Printf("  base64: \"%s\"\n", base64.StdEncoding.EncodeToString(rawData))
+		fmt.Printf("  base64: \"%s\"\n", base64.StdEncoding.EncodeToString(rawData.Bytes()))
 		fmt.Println()
 	}
 
-- 
2.43.0


From cd5b630704abc0f576a5a575b5efb948e41ea277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:52 +0000
Subject: [PATCH 15/27] fix: apply the constant sample size of stsz to the
 samples

---
 probe.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/probe.go b/probe.go
index 5b45dea..6cfe55a 100644
--- a/probe.go
+++ b/probe.go
@@ -361,6 +361,11 @@ func probeTrak(r io.ReadSeeker, bi *BoxInfo) (*Track, error) {
 	}
 
 	if stsz != nil {
+		if stsz.SampleSize != 0 {
+			for i := 0; uint32(i) < stsz.SampleCount && i < len(track.Samples); i++ {
+				track.Samples[i].Size = stsz.SampleSize
+			}
+		}
 		for i := 0; i < len(stsz.EntrySize) && i < len(track.Samples); i++ {
 			track.Samples[i].Size = stsz.EntrySize[i]
 		}
-- 
2.43.0


From 887eb8784915029fe6b82912a016662071e9ff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 16/27] fix: report the AVC configuration of encrypted tracks

---
 probe.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probe.go b/probe.go
index 6cfe55a..1cb3b77 100644
--- a/probe.go
+++ b/probe.go
@@ -235,6 +235,7 @@ func probeTrak(r io.ReadSeeker, bi *BoxInfo) (*Track, error) {
 		case BoxTypeEncv():
 			track.Codec = CodecAVC1
 			track.Encrypted = true
+			avc1 = bip.Payload.(*VisualSampleEntry)
 		case BoxTypeMp4a():
 			track.Codec = CodecMP4A
 			audioSampleEntry = bip.Payload.(*AudioSampleEntry)
-- 
2.43.0


From 51d31cc7b54cc46b06cd8cd6ac187cbaac97552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:55 +0000
Subject: [PATCH 17/27] fix: FindIDRFrames ends on every NAL unit length

---
 probe.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/probe.go b/probe.go
index 1cb3b77..af6890b 100644
--- a/probe.go
+++ b/probe.go
@@ -579,6 +579,9 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 		return nil, nil
 	}
 	lengthSize := uint64(trackInfo.AVC.LengthSize)
+	if lengthSize == 0 {
+		return nil, errors.New("invalid NAL unit length size")
+	}
 
 	var si int
 	idxs := make([]int, 0, 8)
@@ -608,6 +611,9 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 					idxs = append(idxs, si)
 					break
 				}
+				if length > uint64(sample.Size) {
+					break
+				}
 				nalOffset += lengthSize + length
 			}
 			dataOffset += uint64(sample.Size)
-- 
2.43.0


From a4131a9d188c8195b067fd822e76ed98b0ea2b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:03 +0000
Subject: [PATCH 18/27] fix: print only the counted elements of pssh KIDs and
 key values

---
 box_types_iso23001_7.go | 3 +++
 box_types_metadata.go   | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/box_types_iso23001_7.go b/box_types_iso23001_7.go
index 766c348..554509b 100644
--- a/box_types_iso23001_7.go
+++ b/box_types_iso23001_7.go
@@ -47,6 +47,9 @@ func (pssh *Pssh) StringifyField(name string, indent string, depth int, ctx Cont
 		buf := bytes.NewBuffer(nil)
 		buf.WriteString("[")
 		for i, e := range pssh.KIDs {
+			if uint(i) >= pssh.GetFieldLength(name, ctx) {
+				break
+			}
 			if i != 0 {
 				buf.WriteString(", ")
 			}
diff --git a/box_types_metadata.go b/box_types_metadata.go
index 7baba22..133eef9 100644
--- a/box_types_metadata.go
+++ b/box_types_metadata.go
@@ -251,7 +251,11 @@ func (k *Key) StringifyField(name string, indent string, depth int, ctx Context)
 	case "KeyNamespace":
 		return fmt.Sprintf("\"%s\"", util.EscapeUnprintables(string(k.KeyNamespace))), true
 	case "KeyValue":
-		return fmt.Sprintf("\"%s\"", util.EscapeUnprintables(string(k.KeyValue))), true
+		value := k.KeyValue
+		if length := k.GetFieldLength(name, ctx); uint(len(value)) > length {
+			value = value[:length]
+		}
+		return fmt.Sprintf("\"%s\"", util.EscapeUnprintables(string(value))), true
 	}
 	return "", false
 }
-- 
2.43.0


From a03d97aa3d3543490e8dbed62af1cfae8f9bed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:38 +0000
Subject: [PATCH 19/27] fix: print the smallest 64-bit integer in hexadecimal
 without a second sign

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 886e538..5a20e49 100644
--- a/string.go
+++ b/string.go
@@ -216,7 +216,7 @@ func (m *stringifier) stringifyInt(v reflect.Value, fi *fieldInstance, depth int
 			m.buf.WriteString(strconv.FormatInt(val, 16))
 		} else {
 			m.buf.WriteString("-0x")
-			m.buf.WriteString(strconv.FormatInt(-val, 16))
+			m.buf.WriteString(strconv.FormatUint(uint64(-val), 16))
 		}
 	} else {
 		m.buf.WriteString(strconv.FormatInt(v.Int(), 10))
-- 
2.43.0


From dd8ab4a2cb9d41abc84d0ef7f06f59198a0edfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 20/27] fix: write boolean fields that are wider than 8 bits

---
 marshaller.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/marshaller.go b/marshaller.go
index ebfddfa..e8c61f5 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -225,10 +225,16 @@ func (m *marshaller) marshalBool(v reflect.Value, fi *fieldInstance) error {
 	} else {
 		val = 0x00
 	}
-	if err := m.writer.WriteBits([]byte{val}, fi.size); err != nil {
-		return err
+	for i := uint(0); i < fi.size; i += 8 {
+		size := uint(8)
+		if fi.size < i+8 {
+			size = fi.size - i
+		}
+		if err := m.writer.WriteBits([]byte{val}, size); err != nil {
+			return err
+		}
+		m.wbits += uint64(size)
 	}
-	m.wbits += uint64(fi.size)
 	return nil
 }
 
-- 
2.43.0


From 7168dcad44eaf612ad254b8f077aacfe6de39928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 21/27] fix: decode byte slices of sized structures that start
 inside a byte

---
 marshaller.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marshaller.go b/marshaller.go
index e8c61f5..6dea910 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -278,6 +278,7 @@ type unmarshaller struct {
 	dst    IBox
 	size   uint64
 	rbits  uint64
+	align  uint64 // position of the bit rbits counts from, within its byte
 	ctx    Context
 }
 
@@ -377,6 +378,7 @@ func (u *unmarshaller) unmarshalStructInternal(v reflect.Value, fi *fieldInstanc
 		u2 := *u
 		u2.size = uint64(fi.size / 8)
 		u2.rbits = 0
+		u2.align = (u.align + u.rbits) % 8
 		if err := u2.unmarshalStruct(v, fi.children); err != nil {
 			return err
 		}
@@ -448,7 +450,7 @@ func (u *unmarshaller) unmarshalSlice(v reflect.Value, fi *fieldInstance) error
 		}
 	}
 
-	if u.rbits%8 == 0 && elemType.Kind() == reflect.Uint8 && fi.size == 8 {
+	if (u.align+u.rbits)%8 == 0 && elemType.Kind() == reflect.Uint8 && fi.size == 8 {
 		totalSize := length * uint64(fi.size) / 8
 
 		if !readerHasSize(u.reader, totalSize) {
-- 
2.43.0


From 2a971a7b2c004687710758628f271dbbd0806325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 22/27] fix: mp4tool crashed when a broken file made it read
 behind the end

---
 cmd/mp4tool/internal/dump/dump.go         |  7 ++-
 cmd/mp4tool/internal/edit/edit.go         |  7 ++-
 cmd/mp4tool/internal/extract/extract.go   |  7 ++-
 cmd/mp4tool/internal/probe/probe.go       |  8 +++-
 cmd/mp4tool/internal/psshdump/psshdump.go |  7 ++-
 cmd/mp4tool/internal/util/reader.go       | 58 +++++++++++++++++++++++
 6 files changed, 84 insertions(+), 10 deletions(-)
 create mode 100644 cmd/mp4tool/internal/util/reader.go

diff --git a/cmd/mp4tool/internal/dump/dump.go b/cmd/mp4tool/internal/dump/dump.go
index ccebc32..4a7664f 100644
--- a/cmd/mp4tool/internal/dump/dump.go
+++ b/cmd/mp4tool/internal/dump/dump.go
@@ -10,7 +10,6 @@ import (
 
 	"github.com/abema/go-mp4"
 	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
-	"github.com/sunfish-shogi/bufseekio"
 	"golang.org/x/term"
 )
 
@@ -89,7 +88,11 @@ func (m *mp4dump) dumpFile(fpath string) error {
 	}
 	defer file.Close()
 
-	return m.dump(bufseekio.NewReadSeeker(file, blockSize, blockHistorySize))
+	r, err := util.NewReadSeeker(file, blockSize, blockHistorySize)
+	if err != nil {
+		return err
+	}
+	return m.dump(r)
 }
 
 func (m *mp4dump) dump(r io.ReadSeeker) error {
diff --git a/cmd/mp4tool/internal/edit/edit.go b/cmd/mp4tool/internal/edit/edit.go
index c9ce7f1..166c737 100644
--- a/cmd/mp4tool/internal/edit/edit.go
+++ b/cmd/mp4tool/internal/edit/edit.go
@@ -8,7 +8,7 @@ import (
 	"strings"
 
 	"github.com/abema/go-mp4"
-	"github.com/sunfish-shogi/bufseekio"
+	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
 )
 
 const UNoValue = math.MaxUint64
@@ -76,7 +76,10 @@ func editFile(inputPath, outputPath string) error {
 	}
 	defer outputFile.Close()
 
-	r := bufseekio.NewReadSeeker(inputFile, 128*1024, 4)
+	r, err := util.NewReadSeeker(inputFile, 128*1024, 4)
+	if err != nil {
+		return err
+	}
 	w := mp4.NewWriter(outputFile)
 	_, err = mp4.ReadBoxStructure(r, func(h *mp4.ReadHandle) (interface{}, error) {
 		if config.dropBoxes.Exists(h.BoxInfo.Type.String()) {
diff --git a/cmd/mp4tool/internal/extract/extract.go b/cmd/mp4tool/internal/extract/extract.go
index 51f93e2..1767f50 100644
--- a/cmd/mp4tool/internal/extract/extract.go
+++ b/cmd/mp4tool/internal/extract/extract.go
@@ -8,7 +8,6 @@ import (
 
 	"github.com/abema/go-mp4"
 	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
-	"github.com/sunfish-shogi/bufseekio"
 )
 
 const (
@@ -45,7 +44,11 @@ func Main(args []string) int {
 	}
 	defer input.Close()
 
-	r := bufseekio.NewReadSeeker(input, blockSize, blockHistorySize)
+	r, err := util.NewReadSeeker(input, blockSize, blockHistorySize)
+	if err != nil {
+		fmt.Println("Error:", err)
+		return 1
+	}
 	if err := extract(r, mp4.StrToBoxType(boxType)); err != nil {
 		fmt.Println("Error:", err)
 		return 1
diff --git a/cmd/mp4tool/internal/probe/probe.go b/cmd/mp4tool/internal/probe/probe.go
index 41568b8..70cba5c 100644
--- a/cmd/mp4tool/internal/probe/probe.go
+++ b/cmd/mp4tool/internal/probe/probe.go
@@ -8,7 +8,7 @@ import (
 	"os"
 
 	"github.com/abema/go-mp4"
-	"github.com/sunfish-shogi/bufseekio"
+	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
 	"gopkg.in/yaml.v2"
 )
 
@@ -34,7 +34,11 @@ func Main(args []string) int {
 	}
 	defer input.Close()
 
-	r := bufseekio.NewReadSeeker(input, 1024, 4)
+	r, err := util.NewReadSeeker(input, 1024, 4)
+	if err != nil {
+		fmt.Println("Error:", err)
+		return 1
+	}
 	rep, err := buildReport(r)
 	if err != nil {
 		fmt.Println("Error:", err)
diff --git a/cmd/mp4tool/internal/psshdump/psshdump.go b/cmd/mp4tool/internal/psshdump/psshdump.go
index 8d3cfd5..a87f272 100644
--- a/cmd/mp4tool/internal/psshdump/psshdump.go
+++ b/cmd/mp4tool/internal/psshdump/psshdump.go
@@ -8,7 +8,7 @@ import (
 	"os"
 
 	mp4 "github.com/abema/go-mp4"
-	"github.com/sunfish-shogi/bufseekio"
+	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
 )
 
 func Main(args []string) int {
@@ -31,7 +31,10 @@ func dump(inputFilePath string) error {
 	}
 	defer inputFile.Close()
 
-	r := bufseekio.NewReadSeeker(inputFile, 1024, 4)
+	r, err := util.NewReadSeeker(inputFile, 1024, 4)
+	if err != nil {
+		return err
+	}
 
 	bs, err := mp4.ExtractBoxesWithPayload(r, nil, []mp4.BoxPath{
 		{mp4.BoxTypeMoov(), mp4.BoxTypePssh()},
diff --git a/cmd/mp4tool/internal/util/reader.go b/cmd/mp4tool/internal/util/reader.go
new file mode 100644
index 0000000..a0d917c
--- /dev/null
+++ b/cmd/mp4tool/internal/util/reader.go
@@ -0,0 +1,58 @@
+package util
+
+import (
+	"errors"
+	"io"
+
+	"github.com/sunfish-shogi/bufseekio"
+)
+
+type readSeeker struct {
+	buffered *bufseekio.ReadSeeker
+	size     int64
+	position int64
+}
+
+// NewReadSeeker returns a buffered reader for r.
+// bufseekio.ReadSeeker must not be read behind the end of r or before its beginning,
+// which a broken file may ask for. The returned reader behaves like os.File there.
+func NewReadSeeker(r io.ReadSeeker, blockSize, historySize int) (io.ReadSeeker, error) {
+	size, err := r.Seek(0, io.SeekEnd)
+	if err != nil {
+		return nil, err
+	}
+	return &readSeeker{
+		buffered: bufseekio.NewReadSeeker(r, blockSize, historySize),
+		size:     size,
+	}, nil
+}
+
+func (r *readSeeker) Read(p []byte) (int, error) {
+	if r.position >= r.size {
+		return 0, io.EOF
+	}
+	n, err := r.buffered.Read(p)
+	r.position += int64(n)
+	return n, err
+}
+
+func (r *readSeeker) Seek(offset int64, whence int) (int64, error) {
+	switch whence {
+	case io.SeekStart:
+	case io.SeekCurrent:
+		offset += r.position
+	case io.SeekEnd:
+		offset += r.size
+	default:
+		return 0, errors.New("unknown whence")
+	}
+	if offset < 0 {
+		return 0, errors.New("negative position")
+	}
+	position, err := r.buffered.Seek(offset, io.SeekStart)
+	if err != nil {
+		return 0, err
+	}
+	r.position = position
+	return position, nil
+}
-- 
2.43.0


From 84ac7514af39654586d46e98753493d2a5e831d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:34 +0000
Subject: [PATCH 23/27] fix: mp4tool divide summed the durations of a fragment
 modulo 2^32

---
 cmd/mp4tool/internal/divide/divide.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index 467e3a1..8623be3 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -285,14 +285,14 @@ func divide(inputFilePath, outputDir string) error {
 					return nil, err
 				}
 
-				var duration uint32
+				var duration uint64
 				for _, b := range bs {
 					trun := b.Payload.(*mp4.Trun)
 					for i := range trun.Entries {
 						if trun.CheckFlag(0x000100) {
-							duration += trun.Entries[i].SampleDuration
+							duration += uint64(trun.Entries[i].SampleDuration)
 						} else {
-							duration += defaultSampleDuration
+							duration += uint64(defaultSampleDuration)
 						}
 					}
 				}
-- 
2.43.0


From 58ea2f5cfd388cb862ce63cf6fb9de55258c8810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 24/27] fix: mp4tool divide crashed on media boxes at
 unexpected places

---
 cmd/mp4tool/internal/divide/divide.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index 8623be3..cac051f 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -1,6 +1,7 @@
 package divide
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"math"
@@ -216,7 +217,10 @@ func divide(inputFilePath, outputDir string) error {
 					return nil, err
 				}
 				for _, val := range vals {
-					ci := val.(childInfo)
+					ci, ok := val.(childInfo)
+					if !ok {
+						return nil, errors.New("unexpected box in moov box")
+					}
 					for _, t := range tracks {
 						// already writeAll is true in Moov box
 						biMap[t.id].Size += ci[t.id]
@@ -313,6 +317,10 @@ func divide(inputFilePath, outputDir string) error {
 				}
 
 				t := tracks[currTrackID]
+				if len(t.segments) == 0 {
+					// no fragment yet, and the track has the initial value of currTrackID
+					return nil, nil
+				}
 				bandwidth := uint64(float64(h.BoxInfo.Size) * 8 / t.segments[len(t.segments)-1].duration)
 				if bandwidth > t.bandwidth {
 					t.bandwidth = bandwidth
-- 
2.43.0


From 9fade621d06cbe835cdb35ea0a3e09143afe9c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 25/27] fix: mp4tool divide ignored the default sample duration
 of trex

---
 cmd/mp4tool/internal/divide/divide.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index cac051f..63a88e2 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -72,6 +72,17 @@ func divide(inputFilePath, outputDir string) error {
 	}
 	defer inputFile.Close()
 
+	// get default sample durations from Trex boxes
+	defaultSampleDurations := make(map[uint32]uint32)
+	bips, err := mp4.ExtractBoxWithPayload(inputFile, nil, mp4.BoxPath{mp4.BoxTypeMoov(), mp4.BoxTypeMvex(), mp4.BoxTypeTrex()})
+	if err != nil {
+		return err
+	}
+	for _, bip := range bips {
+		trex := bip.Payload.(*mp4.Trex)
+		defaultSampleDurations[trex.TrackID] = trex.DefaultSampleDuration
+	}
+
 	// generate track map
 	tracks := make(map[uint32]*track, 4)
 	bis, err := mp4.ExtractBox(inputFile, nil, mp4.BoxPath{mp4.BoxTypeMoov(), mp4.BoxTypeTrak()})
@@ -278,7 +289,7 @@ func divide(inputFilePath, outputDir string) error {
 					return nil, nil
 				}
 
-				var defaultSampleDuration uint32
+				defaultSampleDuration := defaultSampleDurations[currTrackID]
 				if tfhd.CheckFlag(0x000008) {
 					defaultSampleDuration = tfhd.DefaultSampleDuration
 				}
-- 
2.43.0


From 7fe62c2f2600ec6dd60b6ac85b96620e8e07ebbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 26/27] fix: decode Pascal strings of 255 characters in hdlr

The length was computed with 8 bits, so a name of 255 characters was taken
for a C string that starts with the length byte.
---
 box_types_iso14496_12.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index 65a0de4..83627af 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -649,9 +649,9 @@ func (hdlr *Hdlr) OnReadName(r bitio.ReadSeeker, leftBits uint64, ctx Context) (
 	}
 
 	plen := buf[0]
-	if hdlr.PreDefined != 0 && size >= 2 && size == uint64(plen+1) {
+	if hdlr.PreDefined != 0 && size >= 2 && size == uint64(plen)+1 {
 		// Pascal-style String
-		hdlr.Name = string(buf[1 : plen+1])
+		hdlr.Name = string(buf[1:])
 	} else {
 		// C-style String
 		clen := 0
-- 
2.43.0


From e99098c0b5bc9788b4a302899d8dec54910d98af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:06 +0000
Subject: [PATCH 27/27] fix: nested structures must not extend past the payload

The length of alternative startup entries in sgpd was multiplied by 8 modulo
2^32, and an entry longer than the payload made Unmarshal read everything
that follows the box before it failed.
---
 box_types_iso14496_12.go | 4 ++--
 marshaller.go            | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index 83627af..fbaa1ad 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -1616,7 +1616,7 @@ type TemporalLevelEntryL struct {
 func (sgpd *Sgpd) GetFieldSize(name string, ctx Context) uint {
 	switch name {
 	case "AlternativeStartupEntries":
-		return uint(sgpd.DefaultLength * 8)
+		return uint(sgpd.DefaultLength) * 8
 	}
 	return 0
 }
@@ -1681,7 +1681,7 @@ func (entry *AlternativeStartupEntry) GetFieldLength(name string, ctx Context) u
 func (entry *AlternativeStartupEntryL) GetFieldSize(name string, ctx Context) uint {
 	switch name {
 	case "AlternativeStartupEntry":
-		return uint(entry.DescriptionLength * 8)
+		return uint(entry.DescriptionLength) * 8
 	}
 	return 0
 }
diff --git a/marshaller.go b/marshaller.go
index 6dea910..74f2900 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -375,6 +375,9 @@ func (u *unmarshaller) unmarshalPtr(v reflect.Value, fi *fieldInstance) error {
 
 func (u *unmarshaller) unmarshalStructInternal(v reflect.Value, fi *fieldInstance) error {
 	if fi.size != 0 && fi.size%8 == 0 {
+		if u.rbits+uint64(fi.size) > u.size*8 {
+			return errors.New("not enough bits")
+		}
 		u2 := *u
 		u2.size = uint64(fi.size / 8)
 		u2.rbits = 0
-- 
2.43.0

