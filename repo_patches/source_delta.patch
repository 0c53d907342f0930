From 4c66cdf21a003f53640aee95080191b6054ec02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:15 +0000
Subject: [PATCH 01/47] fix: rtp.Unpack rejects truncated packets instead of
 panicking

---
 net/rtp/packet.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/net/rtp/packet.go b/net/rtp/packet.go
index 77c6af5..226b499 100644
--- a/net/rtp/packet.go
+++ b/net/rtp/packet.go
@@ -14,6 +14,7 @@ const (
 
 var (
 	errInvalidVersion = errors.New("Invalid version of RTP packet")
+	errPacketTooShort = errors.New("RTP packet is too short")
 )
 
 var be = binary.BigEndian
@@ -48,6 +49,9 @@ type (
 
 // Unpack validates a packed RTP packet and converts it into a sparse structure.
 func Unpack(buf []byte) (*Packet, error) {
+	if len(buf) < HeaderSize {
+		return nil, errPacketTooShort
+	}
 	if (buf[0] & 0xC0) != RtpVersion {
 		return nil, errInvalidVersion
 	}
@@ -60,6 +64,9 @@ func Unpack(buf []byte) (*Packet, error) {
 	}
 
 	off := HeaderSize
+	if len(buf) < off+int(packet.CC())*4 {
+		return nil, errPacketTooShort
+	}
 	packet.CSRC = make([]uint32, packet.CC())
 	for i := range packet.CSRC {
 		packet.CSRC[i] = be.Uint32(buf[off:])
@@ -67,9 +74,15 @@ func Unpack(buf []byte) (*Packet, error) {
 	}
 
 	if packet.X() {
+		if len(buf) < off+4 {
+			return nil, errPacketTooShort
+		}
 		packet.XH = be.Uint16(buf[off:])
 		packet.XL = be.Uint16(buf[off+2:])
 		off += 4
+		if len(buf) < off+int(packet.XL)*4 {
+			return nil, errPacketTooShort
+		}
 		if packet.XL > 0 {
 			packet.XD = buf[off : off+int(packet.XL)*4]
 			off += int(packet.XL) * 4
-- 
2.43.0


From 97d4cc23e0e6d6842866c4f88c64f6f3b4302f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:15 +0000
Subject: [PATCH 02/47] fix: rtp.Unpack strips padding from the payload

---
 net/rtp/packet.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/net/rtp/packet.go b/net/rtp/packet.go
index 226b499..9efb6f0 100644
--- a/net/rtp/packet.go
+++ b/net/rtp/packet.go
@@ -15,6 +15,7 @@ const (
 var (
 	errInvalidVersion = errors.New("Invalid version of RTP packet")
 	errPacketTooShort = errors.New("RTP packet is too short")
+	errInvalidPadding = errors.New("Invalid padding of RTP packet")
 )
 
 var be = binary.BigEndian
@@ -90,6 +91,17 @@ func Unpack(buf []byte) (*Packet, error) {
 	}
 
 	packet.PL = buf[off:]
+	if packet.P() {
+		// Last octet counts all the padding octets including itself.
+		if len(packet.PL) == 0 {
+			return nil, errInvalidPadding
+		}
+		pad := int(packet.PL[len(packet.PL)-1])
+		if pad == 0 || pad > len(packet.PL) {
+			return nil, errInvalidPadding
+		}
+		packet.PL = packet.PL[:len(packet.PL)-pad]
+	}
 
 	//s.rtpChan <- packet
 	return packet, nil
-- 
2.43.0


From b3c7b17b1bb82fa21580904e490204f7e466861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:15 +0000
Subject: [PATCH 03/47] fix: rtp.Pack writes the whole packet, not only the
 start of its header

---
 net/rtp/packet.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/net/rtp/packet.go b/net/rtp/packet.go
index 9efb6f0..d22e1c6 100644
--- a/net/rtp/packet.go
+++ b/net/rtp/packet.go
@@ -137,15 +137,35 @@ func (p *Packet) Pack() []byte {
 	if p == nil {
 		return nil
 	}
-	sz := uint16(HeaderSize + p.CC()*4)
+	sz := HeaderSize + len(p.CSRC)*4 + len(p.PL)
 	if p.X() {
-		sz = sz + 4*(1+p.XL)
+		sz += 4 + len(p.XD)
 	}
-	b := make([]byte, sz)
+	pad := 0
+	if p.P() {
+		// Pad to 32-bit boundary, last octet is the count of padding octets.
+		pad = 4 - sz%4
+	}
+	b := make([]byte, sz+pad)
 	b[0] = p.VPXCC
 	b[1] = p.MPT
 	be.PutUint16(b[2:], p.SN)
 	be.PutUint32(b[4:], p.TS)
-	// TODO: Finish this
+	be.PutUint32(b[8:], p.SSRC)
+	off := HeaderSize
+	for _, csrc := range p.CSRC {
+		be.PutUint32(b[off:], csrc)
+		off += 4
+	}
+	if p.X() {
+		be.PutUint16(b[off:], p.XH)
+		be.PutUint16(b[off+2:], p.XL)
+		off += 4
+		off += copy(b[off:], p.XD)
+	}
+	copy(b[off:], p.PL)
+	if pad > 0 {
+		b[len(b)-1] = byte(pad)
+	}
 	return b
 }
-- 
2.43.0


From 781acb55abbf7fabda3657a3bbf881ba8fc67a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 04/47] fix: rtcp.Unpack rejects packets shorter than the
 header

---
 net/rtcp/packet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/rtcp/packet.go b/net/rtcp/packet.go
index e61e349..a9451c6 100644
--- a/net/rtcp/packet.go
+++ b/net/rtcp/packet.go
@@ -187,6 +187,9 @@ type DataBYE struct {
 
 // Unpack validates a packed RTCP packet and converts it into a sparse structure.
 func Unpack(buf []byte) (*Packet, error) {
+	if len(buf) < HeaderSize {
+		return nil, errPacketTooShort
+	}
 	packet := &Packet{
 		VPC: buf[0],
 		PT:  buf[1],
-- 
2.43.0


From 90def4a4a04ebfecd192de44063ca25d3ceec61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 05/47] fix: BitReader.ReadBits reads up to 32 bits at any
 alignment, and 0 bits at the end

---
 net/h264/bits.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/net/h264/bits.go b/net/h264/bits.go
index 85581b4..9dd0e8b 100644
--- a/net/h264/bits.go
+++ b/net/h264/bits.go
@@ -33,16 +33,20 @@ func (r *BitReader) ReadBits(n uint) (val uint32, err error) {
 	if n > 32 || n > r.Available() {
 		return 0, io.ErrUnexpectedEOF
 	}
-	val = uint32(r.buffer[r.byten])
+	if n == 0 {
+		return 0, nil
+	}
+	// Up to 39 bits are collected when reading 32 bits from an unaligned position.
+	acc := uint64(r.buffer[r.byten])
 	bits := 8 - r.bitn
 	for n > bits {
 		// No check here as we already know there is enough data from AvailableBits().
 		r.byten++
-		val = (val << 8) | uint32(r.buffer[r.byten])
+		acc = (acc << 8) | uint64(r.buffer[r.byten])
 		bits += 8
 	}
 	// Align and nask out most significant bits that are not requested.
-	val = (val >> (bits - n)) & ((1 << n) - 1)
+	val = uint32((acc >> (bits - n)) & ((1 << n) - 1))
 	r.bitn = 8 - (bits - n)
 	return
 }
-- 
2.43.0


From dadfed8a13ddfc8b069f6aa0112c0fe0994d1a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 06/47] fix: exponential golomb codes that do not fit into 32
 bits are errors

---
 net/h264/bits.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/net/h264/bits.go b/net/h264/bits.go
index 9dd0e8b..1ee994e 100644
--- a/net/h264/bits.go
+++ b/net/h264/bits.go
@@ -7,6 +7,7 @@ import (
 
 var (
 	errMissingTrailingBits = errors.New("RBSP is missing trailing stop and align bits")
+	errGolombOverflow      = errors.New("Exponential golomb code does not fit into 32 bits")
 )
 
 // BitReader implements bit stream reading for H.264 network layer processing.
@@ -81,6 +82,10 @@ func (r *BitReader) ReadUnsignedGolomb() (val uint32, err error) {
 		}
 		zeroes++
 	}
+	// Largest value, 2^32-2, has 31 zeroes.
+	if zeroes > 31 {
+		return 0, errGolombOverflow
+	}
 	// Last read bit was 1.  Read (zeroes) more.
 	val, err = r.ReadBits(zeroes)
 	if err != nil {
-- 
2.43.0


From f29ed47d2105dd38ba266d16c36b4e64600ee027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 07/47] fix: RBSPToEncapsulated handles adjacent and trailing
 zero pairs

---
 net/h264/annexb.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/net/h264/annexb.go b/net/h264/annexb.go
index 565f566..2a5af02 100644
--- a/net/h264/annexb.go
+++ b/net/h264/annexb.go
@@ -58,10 +58,11 @@ func RBSPToEncapsulated(buf []byte) []byte {
 	size := len(buf)
 	ebsp := make([]byte, 0, size*2)
 	for off := 0; off < size; {
-		if size-off >= 2 && buf[off] == 0 && buf[off+1] == 0 && buf[off+2] <= 3 {
-			// Add emulation prevention bytes.
+		if size-off >= 2 && buf[off] == 0 && buf[off+1] == 0 && (size-off == 2 || buf[off+2] <= 3) {
+			// Add emulation prevention bytes.  The byte they precede may itself start the next such sequence.
 			ebsp = append(ebsp, zero, zero, epb)
 			off += 2
+			continue
 		}
 		ebsp = append(ebsp, buf[off])
 		off++
-- 
2.43.0


From 07b505d761ea4b5685be952e7dd98cd23e819e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 08/47] fix: SplitAnnexB drops all zero bytes before a start
 code and finds one at the end

---
 net/h264/annexb.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/net/h264/annexb.go b/net/h264/annexb.go
index 2a5af02..a462165 100644
--- a/net/h264/annexb.go
+++ b/net/h264/annexb.go
@@ -8,26 +8,31 @@ func SplitAnnexB(buf []byte) [][]byte {
 	units := [][]byte{}
 	end := len(buf) - shortStartCodeLen
 	prev := 0
-	for off := 0; off < end; {
+	split := false
+	for off := 0; off <= end; {
 		if buf[off+2] > 1 {
 			// Speed up traversal in search for start codes
 			off += 3
 		} else if buf[off+2] == 1 && buf[off+1] == 0 && buf[off] == 0 {
+			// Zero bytes before the start code are not part of the unit.
+			last := off
+			for last > prev && buf[last-1] == 0 {
+				last--
+			}
 			// Do not insert 0-length slices.
-			if off > 0 && buf[off-1] == 0 {
-				if off > prev+1 {
-					units = append(units, EBSPToRaw(buf[prev:off-1]))
-				}
-			} else if off > prev {
-				units = append(units, EBSPToRaw(buf[prev:off]))
+			if last > prev {
+				units = append(units, EBSPToRaw(buf[prev:last]))
 			}
 			off += 3
 			prev = off
+			split = true
 		} else {
 			off++
 		}
 	}
-	units = append(units, EBSPToRaw(buf[prev:]))
+	if !split || prev < len(buf) {
+		units = append(units, EBSPToRaw(buf[prev:]))
+	}
 	return units
 }
 
-- 
2.43.0


From 37ecc1bd5cd8456d81876526f97cd65cf66a17be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 09/47] fix: aggregates with a truncated or empty unit are
 rejected, sizes near 65535 do not wrap

---
 net/h264/packet.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 8b96cb4..69c0f19 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -163,11 +163,14 @@ func (s *NALSink) parseSTAP(typ byte, buf []byte, ts uint32) error {
 		buf = buf[2:]
 	}
 	for {
-		if len(buf) < 2 {
+		if len(buf) == 0 {
 			return nil // Nothing more to process
 		}
-		size := be.Uint16(buf)
-		if len(buf) < int(size+2) {
+		if len(buf) < 2 {
+			return errPacketTooShort
+		}
+		size := int(be.Uint16(buf))
+		if size == 0 || len(buf) < size+2 {
 			return errPacketTooShort
 		}
 		s.Units = append(s.Units, NALUnit{Header: buf[2], Don: s.Don, TS: ts, Data: buf[3 : size+2]})
@@ -182,22 +185,25 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 	}
 	s.Don = be.Uint16(buf)
 	buf = buf[2:]
-	off := uint16(2 + 1 + 2) // size, donb, 16-bit ts offset
+	off := 2 + 1 + 2 // size, donb, 16-bit ts offset
 	if typ == typeMtap24 {
 		off++ // 24-bit ts offset instead of 16-bit
 	}
 	for {
-		if len(buf) < int(off) {
+		if len(buf) == 0 {
 			return nil // Nothing more to process
 		}
-		size := be.Uint16(buf)
+		if len(buf) < off {
+			return errPacketTooShort
+		}
+		size := int(be.Uint16(buf))
 		dond := uint16(buf[2])
 		// Read and handle 16-bit or 24-bit timestamp offset.
 		tsoff := uint32(buf[3])<<8 + uint32(buf[4])
 		if typ == typeMtap24 {
 			tsoff = ts<<8 + uint32(buf[5])
 		}
-		if len(buf) < int(size+off) {
+		if size == 0 || len(buf) < size+off {
 			return errPacketTooShort
 		}
 		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: buf[off+1 : size+off]})
-- 
2.43.0


From e1b4c1322e40aa2ff2f7b1b0267863c5a559f27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 10/47] fix: MTAP units take their own 24-bit timestamp offset
 and DON difference

---
 net/h264/packet.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 69c0f19..e3aa2ce 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -201,13 +201,12 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 		// Read and handle 16-bit or 24-bit timestamp offset.
 		tsoff := uint32(buf[3])<<8 + uint32(buf[4])
 		if typ == typeMtap24 {
-			tsoff = ts<<8 + uint32(buf[5])
+			tsoff = tsoff<<8 + uint32(buf[5])
 		}
 		if size == 0 || len(buf) < size+off {
 			return errPacketTooShort
 		}
 		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: buf[off+1 : size+off]})
-		s.Don++
 		buf = buf[size+off:]
 	}
 }
-- 
2.43.0


From ab95c84fc90564acce76d30db4db4ae21aa4bce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 11/47] fix: NALSink keeps all units of an Annex B payload and
 unescapes units, not the packets that carry them

---
 net/h264/packet.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index e3aa2ce..00b2045 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -150,7 +150,8 @@ func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32
 		for _, frag := range s.Fragments {
 			data = append(data, frag.Data...)
 		}
-		s.Units = append(s.Units, NALUnit{Header: indicator, Don: don, TS: ts, Data: data})
+		// Emulation prevention bytes could be split between fragments.
+		s.Units = append(s.Units, NALUnit{Header: indicator, Don: don, TS: ts, Data: EBSPToRaw(data)})
 	}
 }
 
@@ -173,7 +174,7 @@ func (s *NALSink) parseSTAP(typ byte, buf []byte, ts uint32) error {
 		if size == 0 || len(buf) < size+2 {
 			return errPacketTooShort
 		}
-		s.Units = append(s.Units, NALUnit{Header: buf[2], Don: s.Don, TS: ts, Data: buf[3 : size+2]})
+		s.Units = append(s.Units, NALUnit{Header: buf[2], Don: s.Don, TS: ts, Data: EBSPToRaw(buf[3 : size+2])})
 		s.Don++
 		buf = buf[size+2:]
 	}
@@ -206,14 +207,22 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 		if size == 0 || len(buf) < size+off {
 			return errPacketTooShort
 		}
-		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: buf[off+1 : size+off]})
+		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: EBSPToRaw(buf[off+1 : size+off])})
 		buf = buf[size+off:]
 	}
 }
 
 // Push RTP payload parsing NAL units and handling aggregation and fragmenting.
 func (s *NALSink) Push(buf []byte, ts uint32) error {
-	// TODO: Detect Annex B vs AVC payloads.  If starts with Annex B start code then split on start code.
+	s.Units = s.Units[:0]
+	if len(buf) < 1 {
+		return errPacketTooShort
+	}
+	switch buf[0] & 0x1F {
+	case typeStapA, typeStapB, typeMtap16, typeMtap24, typeFuA, typeFuB:
+		// Sizes, offsets and decoding order numbers inside could look like start codes or emulation prevention.
+		return s.parseNAL(append([]byte(nil), buf...), ts)
+	}
 	for _, nal := range SplitAnnexB(buf) {
 		if err := s.parseNAL(nal, ts); err != nil {
 			return err
@@ -223,7 +232,6 @@ func (s *NALSink) Push(buf []byte, ts uint32) error {
 }
 
 func (s *NALSink) parseNAL(buf []byte, ts uint32) error {
-	s.Units = s.Units[:0]
 	if len(buf) < 1 {
 		return errPacketTooShort
 	}
-- 
2.43.0


From 6ea4b600ebaf65bf077e7266de0fe5b980645e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 12/47] fix: incomplete series of fragments do not make NAL
 units, DON of a fragmented unit comes with its first fragment

---
 net/h264/packet.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 00b2045..10ae710 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -129,10 +129,14 @@ func NewNALSink() *NALSink {
 
 // AddFragment pushes NAL unit fragment into the fragment queue, resetting queue before
 // accepting first fragment in a series.  Upon receiving last fragment in a series, all fragments
-// are combined into a NAL unit and added to the unit queue.
+// are combined into a NAL unit and added to the unit queue.  Fragments that do not continue
+// the series in the queue are dropped as they cannot make a complete unit.
 func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32, data []byte) {
 	if (header & 0x80) != 0 {
 		s.Fragments = s.Fragments[:0]
+	} else if len(s.Fragments) == 0 || s.Fragments[0].TS != ts || s.Fragments[0].Header != indicator {
+		s.Fragments = s.Fragments[:0]
+		return
 	}
 	s.Fragments = append(s.Fragments, NALFragment{
 		NALUnit: NALUnit{
@@ -150,8 +154,12 @@ func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32
 		for _, frag := range s.Fragments {
 			data = append(data, frag.Data...)
 		}
+		// Decoding order number comes with the first fragment.
+		don = s.Fragments[0].Don
 		// Emulation prevention bytes could be split between fragments.
 		s.Units = append(s.Units, NALUnit{Header: indicator, Don: don, TS: ts, Data: EBSPToRaw(data)})
+		s.Don = don + 1
+		s.Fragments = s.Fragments[:0]
 	}
 }
 
-- 
2.43.0


From 0ce9863d0379496e18425f614f65be6346dbab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 13/47] fix: SPS with picture order count type 2 has no type 1
 fields

---
 net/h264/spspps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 5ac7854..b39d348 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -174,7 +174,7 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 		if sps.Log2MaxPicOrderCnt, err = br.ReadUnsignedGolomb(); err != nil {
 			return
 		}
-	} else {
+	} else if sps.PicOrderCntType == 1 {
 		if sps.DeltaPicOrderAlways0, err = br.ReadFlag(); err != nil {
 			return
 		}
-- 
2.43.0


From 98bf9c1a0b0362e0c1c21533d5dc00d3cb528b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 14/47] fix: frame_mbs_only_flag of SPS is a flag and
 mb_adaptive_frame_field_flag follows when it is not set

---
 net/h264/spspps.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index b39d348..a79056a 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -205,13 +205,13 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 	if sps.PicHeightInMapUnitsMinus1, err = br.ReadUnsignedGolomb(); err != nil {
 		return
 	}
-	if sps.FrameMbsOnly, err = br.ReadUnsignedGolomb(); err != nil {
+	if sps.FrameMbsOnly, err = br.ReadBits(1); err != nil {
 		return
 	}
 	if (sps.ConstraintSet&0x2) != 0 && (sps.ProfileIdc == 77 || sps.ProfileIdc == 88 || sps.ProfileIdc == 100) {
 		sps.FrameMbsOnly = 1
 	}
-	if sps.FrameMbsOnly != 0 {
+	if sps.FrameMbsOnly == 0 {
 		if sps.MbAdaptiveFrameField, err = br.ReadFlag(); err != nil {
 			return
 		}
-- 
2.43.0


From c9ff8d2b321c3ecb208c43cba95f4bdda3def15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 15/47] fix: picture height of SPS is in luma samples, not
 divided by chroma subsampling

---
 net/h264/spspps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index a79056a..8daca62 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -255,7 +255,7 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 	// Macroblock width is 16 for luma.
 	sps.Width = (sps.PicWidthInMbsMinus1 + 1) * 16 // / subWidthC
 	// FrameMbsOnly designates either full frame or field (half frame).  Hence multiplier.
-	sps.Height = (2 - sps.FrameMbsOnly) * (sps.PicHeightInMapUnitsMinus1 + 1) * 16 / subHeightC
+	sps.Height = (2 - sps.FrameMbsOnly) * (sps.PicHeightInMapUnitsMinus1 + 1) * 16
 	// Adjust for crop if present.  This accounts for monochrome vs. various color chroma formats.
 	cropUnitX := subWidthC
 	cropUnitY := (2 - sps.FrameMbsOnly) * subHeightC
-- 
2.43.0


From 79292689adad51f49a5ef8a34500b01fc2a9ca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 16/47] fix: parameter sets from SDP are unescaped before
 parsing

---
 net/h264/spspps.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 8daca62..a0e681f 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -415,9 +415,9 @@ func (s *ParameterSets) ParseSprop(buf []byte) (err error) {
 	}
 	typ := buf[0] & 0x1F
 	if typ == typeSPS {
-		return s.ParseSPS(buf[1:])
+		return s.ParseSPS(EBSPToRaw(buf[1:]))
 	} else if typ == typePPS {
-		return s.ParsePPS(buf[1:])
+		return s.ParsePPS(EBSPToRaw(buf[1:]))
 	}
 	return
 }
-- 
2.43.0


From 4b20d410e800fb68fd36930ebde6b27901c18633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 17/47] fix: PPS slice group map types 3 and 4 carry the same
 fields as 5

---
 net/h264/spspps.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index a0e681f..b47025c 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -313,9 +313,7 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 				}
 			}
 			break
-		case 3:
-		case 4:
-		case 5:
+		case 3, 4, 5:
 			if pps.SliceGroupChangeDirection, err = br.ReadFlag(); err != nil {
 				return
 			}
-- 
2.43.0


From b51d9f8830fd22730bab0434f2ce22b18a573438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 18/47] fix: PPS with impossible slice groups is an error, not
 a panic or a huge allocation

---
 net/h264/spspps.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index b47025c..69ca674 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -1,6 +1,8 @@
 package h264
 
 import (
+	"errors"
+	"io"
 	"math"
 )
 
@@ -85,6 +87,8 @@ type (
 	}
 )
 
+var errTooManySliceGroups = errors.New("Too many slice groups in PPS")
+
 // NewParameterSets create an representation of indexed storage for sequence
 // and picture parameter sets.
 func NewParameterSets() *ParameterSets {
@@ -291,6 +295,9 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 	if pps.NumSliceGroupsMinus1, err = br.ReadUnsignedGolomb(); err != nil {
 		return
 	}
+	if pps.NumSliceGroupsMinus1 >= uint32(len(pps.RunLengthMinus1)) {
+		return errTooManySliceGroups
+	}
 	if pps.NumSliceGroupsMinus1 > 0 {
 		if pps.SliceGroupMapType, err = br.ReadUnsignedGolomb(); err != nil {
 			return
@@ -325,8 +332,11 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 			if pps.PicSizeInMapUnitsMinus1, err = br.ReadUnsignedGolomb(); err != nil {
 				return
 			}
-			pps.SliceGroupID = make([]byte, pps.PicSizeInMapUnitsMinus1+1)
 			bits := uint(math.Ceil(math.Log2(float64(pps.NumSliceGroupsMinus1 + 1))))
+			if uint64(pps.PicSizeInMapUnitsMinus1) >= uint64(br.Available()/bits) {
+				return io.ErrUnexpectedEOF
+			}
+			pps.SliceGroupID = make([]byte, pps.PicSizeInMapUnitsMinus1+1)
 			for i := uint32(0); i <= pps.PicSizeInMapUnitsMinus1; i++ {
 				if pps.SliceGroupID[i], err = br.ReadByteBits(bits); err != nil {
 					return
-- 
2.43.0


From a766f61b6e695efd4fab35df3a1f02cc66702f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 19/47] fix: PPS without transform and scaling extension is not
 mistaken for one with it

---
 net/h264/bits.go   | 16 ++++++++++++++++
 net/h264/spspps.go |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/net/h264/bits.go b/net/h264/bits.go
index 1ee994e..3a8fc2c 100644
--- a/net/h264/bits.go
+++ b/net/h264/bits.go
@@ -28,6 +28,22 @@ func (r *BitReader) Available() uint {
 	return (r.count-r.byten)*8 - r.bitn
 }
 
+// moreData tells whether there is anything before the trailing stop bit, i.e. the last bit set in the buffer.
+func (r *BitReader) moreData() bool {
+	last := r.count
+	for last > 0 && r.buffer[last-1] == 0 {
+		last--
+	}
+	if last == 0 {
+		return false
+	}
+	stop := last*8 - 1
+	for b := r.buffer[last-1]; b&1 == 0; b >>= 1 {
+		stop--
+	}
+	return r.byten*8+r.bitn < stop
+}
+
 // ReadBits attempts to read requested number of bits from the bit stream.
 // Returns an error if running into end of stream prematurely.
 func (r *BitReader) ReadBits(n uint) (val uint32, err error) {
diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 69ca674..3ddf483 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -374,7 +374,7 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 	if pps.RedundantPicCntPresent, err = br.ReadFlag(); err != nil {
 		return
 	}
-	if br.Available() > 0 {
+	if br.moreData() {
 		if pps.Transform8x8Mode, err = br.ReadFlag(); err != nil {
 			return
 		}
-- 
2.43.0


From 21ea63968c55ba797e1e43095bda44afa72ea7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 20/47] fix: sdp.Parse does not panic on a media line without
 fields

---
 net/sdp/packet.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/net/sdp/packet.go b/net/sdp/packet.go
index 79d3df5..1124476 100644
--- a/net/sdp/packet.go
+++ b/net/sdp/packet.go
@@ -49,9 +49,9 @@ func Parse(buf []byte) (feeds []Media) {
 					case "video": // case "audio", "video":
 						feeds = append(feeds, Media{audio: fields[0] == "audio"})
 						m = &feeds[len(feeds)-1]
-						mfields := strings.Split(fields[1], " ")
-						if len(mfields) >= 3 {
-							m.PayloadType, _ = strconv.Atoi(mfields[2])
+						mfields := strings.Split(keyval[1], " ")
+						if len(mfields) >= 4 {
+							m.PayloadType, _ = strconv.Atoi(mfields[3])
 						}
 					default:
 						m = nil
-- 
2.43.0


From 23b95e462f272c62ae3392796607cc70bb4cfa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 21/47] fix: sdp.Parse takes each value only from the attribute
 that declares it

---
 net/sdp/packet.go | 79 ++++++++++++++++++++++++-----------------------
 1 file changed, 40 insertions(+), 39 deletions(-)

diff --git a/net/sdp/packet.go b/net/sdp/packet.go
index 1124476..6f802d6 100644
--- a/net/sdp/packet.go
+++ b/net/sdp/packet.go
@@ -59,51 +59,52 @@ func Parse(buf []byte) (feeds []Media) {
 				}
 			case "a":
 				if m != nil {
-					for _, field := range fields {
-						keyval = strings.SplitN(field, ":", 2)
-						if len(keyval) >= 2 {
-							key := keyval[0]
-							val := keyval[1]
-							switch key {
-							case "control":
-								m.Control = val
-							case "rtpmap":
-								m.Rtpmap, _ = strconv.Atoi(val)
-							}
+					attr := strings.SplitN(keyval[1], ":", 2)
+					if len(attr) < 2 {
+						continue
+					}
+					fields = strings.SplitN(strings.TrimSpace(attr[1]), " ", 2)
+					switch attr[0] {
+					case "control":
+						m.Control = fields[0]
+					case "rtpmap":
+						m.Rtpmap, _ = strconv.Atoi(fields[0])
+						if len(fields) < 2 {
+							continue
+						}
+						keyval = strings.Split(strings.TrimSpace(fields[1]), "/")
+						switch strings.ToUpper(keyval[0]) {
+						case "MPEG4-GENERIC":
+							m.Type = AAC
+						case "H264":
+							m.Type = H264
 						}
-						keyval = strings.Split(field, "/")
 						if len(keyval) >= 2 {
-							key := keyval[0]
-							switch strings.ToUpper(key) {
-							case "MPEG4-GENERIC":
-								m.Type = AAC
-							case "H264":
-								m.Type = H264
-							}
 							if i, err := strconv.Atoi(keyval[1]); err == nil {
 								m.TimeScale = i
 							}
 						}
-						keyval = strings.Split(field, ";")
-						if len(keyval) > 1 {
-							for _, field := range keyval {
-								keyval := strings.SplitN(field, "=", 2)
-								if len(keyval) == 2 {
-									key := strings.TrimSpace(keyval[0])
-									val := keyval[1]
-									switch key {
-									case "config":
-										m.Config, _ = hex.DecodeString(val)
-									case "sizelength":
-										m.SizeLength, _ = strconv.Atoi(val)
-									case "indexlength":
-										m.IndexLength, _ = strconv.Atoi(val)
-									case "sprop-parameter-sets":
-										fields := strings.Split(val, ",")
-										for _, field := range fields {
-											val, _ := base64.StdEncoding.DecodeString(field)
-											m.SpropParameterSets = append(m.SpropParameterSets, val)
-										}
+					case "fmtp":
+						if len(fields) < 2 {
+							continue
+						}
+						for _, field := range strings.Split(fields[1], ";") {
+							keyval := strings.SplitN(field, "=", 2)
+							if len(keyval) == 2 {
+								key := strings.TrimSpace(keyval[0])
+								val := strings.TrimSpace(keyval[1])
+								switch key {
+								case "config":
+									m.Config, _ = hex.DecodeString(val)
+								case "sizelength":
+									m.SizeLength, _ = strconv.Atoi(val)
+								case "indexlength":
+									m.IndexLength, _ = strconv.Atoi(val)
+								case "sprop-parameter-sets":
+									fields := strings.Split(val, ",")
+									for _, field := range fields {
+										val, _ := base64.StdEncoding.DecodeString(field)
+										m.SpropParameterSets = append(m.SpropParameterSets, val)
 									}
 								}
 							}
-- 
2.43.0


From fea11cd5482c97714f5fef061448051e848822d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 22/47] fix: hls playlist wraps the first segment around the
 ring

---
 net/hls/playlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/hls/playlist.go b/net/hls/playlist.go
index 3704f21..94e4b6c 100644
--- a/net/hls/playlist.go
+++ b/net/hls/playlist.go
@@ -100,7 +100,7 @@ func (pl *Playlist) AddSegment(duration float64, length int64) {
 	pl.Segments[pl.Last].Position = pos
 	pl.Segments[pl.Last].Length = length
 	if pl.First == pl.Last {
-		pl.First++
+		pl.First = (pl.First + 1) % len(pl.Segments)
 	} else if pl.First < 0 {
 		pl.First = pl.Last
 	}
-- 
2.43.0


From 012fbf1675b3ce13f7aafa69d5e58d06d0bb9d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 23/47] fix: digest nonce count grows with every request,
 MD5-sess key is not hashed again

---
 net/rtsp/digest.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index 619f4bb..3f1252f 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -130,13 +130,16 @@ func (d *Digest) Authenticate(username, password string) DigestAuth {
 	}
 }
 
-// Next increments session count and generates new cnonce.
+// Next increments nonce count.  The cnonce is generated once as the session key of MD5-sess depends on it.
 func (d *Digest) Next() {
 	if d.qop == "" {
 		return
 	}
 	d.count++
 	d.nc = fmt.Sprintf("%08x", d.count)
+	if d.cnonce != "" {
+		return
+	}
 	b := make([]byte, 8)
 	rand.Read(b)
 	d.cnonce = hex.EncodeToString(b)[:8]
@@ -153,8 +156,9 @@ func (d *Digest) response(verb string, body []byte) string {
 		out.WriteString(", response=\"")
 		out.WriteString(md5hex(colonnade(d.ha1, d.nonce, d.ha2)))
 	} else {
+		ha1 := d.ha1
 		if d.algorithm == "md5-sess" {
-			d.ha1 = md5hex(colonnade(d.ha1, d.nonce, d.cnonce))
+			ha1 = md5hex(colonnade(ha1, d.nonce, d.cnonce))
 		}
 		out.WriteString(", qop=\"")
 		out.WriteString(d.qop)
@@ -163,7 +167,8 @@ func (d *Digest) response(verb string, body []byte) string {
 		out.WriteString(", cnonce=\"")
 		out.WriteString(d.cnonce)
 		out.WriteString("\", response=\"")
-		out.WriteString(md5hex(colonnade(d.ha1, d.nonce, d.nc, d.cnonce, d.qop, d.ha2)))
+		out.WriteString(md5hex(colonnade(ha1, d.nonce, d.nc, d.cnonce, d.qop, d.ha2)))
+		d.Next()
 	}
 	out.WriteByte('"')
 	return out.String()
-- 
2.43.0


From f665f81fe92ae45b191de555bc197f4ab82897f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 24/47] fix: authentication challenge is parsed as RFC 2617
 writes it

---
 net/rtsp/digest.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index 3f1252f..742f640 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -44,16 +44,25 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 	d := &Digest{count: 0, uri: uri}
 	d.algorithm = "md5"
 	challenge = strings.TrimSpace(challenge)
-	if strings.HasPrefix(challenge, "Digest ") {
+	scheme := challenge
+	if i := strings.IndexAny(challenge, " \t"); i >= 0 {
+		scheme, challenge = challenge[:i], challenge[i+1:]
+	}
+	if strings.EqualFold(scheme, "Digest") {
 		d.basic = false
-		challenge = challenge[7:]
-	} else if strings.HasPrefix(challenge, "Basic ") {
+	} else if strings.EqualFold(scheme, "Basic") {
 		d.basic = true
-		challenge = challenge[6:]
 	} else {
 		return nil, ErrAuthMalformedChallenge
 	}
-	parts := strings.Split(challenge, ",")
+	// Commas within quoted values do not separate directives.
+	quoted := false
+	parts := strings.FieldsFunc(challenge, func(r rune) bool {
+		if r == '"' {
+			quoted = !quoted
+		}
+		return r == ',' && !quoted
+	})
 	for i := 0; i < len(parts); i++ {
 		parts[i] = strings.TrimSpace(parts[i])
 		if len(parts[i]) == 0 {
@@ -62,7 +71,7 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 
 		attr, val := parts[i], ""
 		if j := strings.Index(attr, "="); j > 0 {
-			attr, val = strings.ToLower(attr[:j]), attr[j+1:]
+			attr, val = strings.ToLower(strings.TrimSpace(attr[:j])), strings.TrimSpace(attr[j+1:])
 			val = strings.Trim(val, "\"")
 			switch attr {
 			case "realm":
@@ -79,15 +88,16 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 				d.algorithm = strings.ToLower(val)
 			case "qop":
 				vals := strings.Split(val, ",")
-				if len(vals) > 0 {
-					d.qop = strings.ToLower(vals[0])
+				for k := 0; k < len(vals) && d.qop == ""; k++ {
+					switch v := strings.ToLower(strings.TrimSpace(vals[k])); v {
+					case "auth", "auth-int":
+						d.qop = v
+					}
 				}
-			default:
-				return nil, ErrAuthMalformedChallenge
 			}
 		}
 	}
-	if d.nonce != "" {
+	if !d.basic {
 		if d.algorithm != "md5" && d.algorithm != "md5-sess" {
 			return nil, ErrAuthNotImpemented
 		}
-- 
2.43.0


From 114bd0447ebaef02d8b149be7c5e75d79b00df01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 25/47] fix: Transport.Parse remembers that interleaved
 channels were given

---
 net/rtsp/transport.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/net/rtsp/transport.go b/net/rtsp/transport.go
index 64a736e..46b5806 100644
--- a/net/rtsp/transport.go
+++ b/net/rtsp/transport.go
@@ -184,6 +184,7 @@ func (t *Transport) Parse(value string) (err error) {
 			}
 		case "interleaved":
 			t.IsMulticast = false
+			t.IsInterleaved = true
 			if len(keyval) > 1 {
 				t.Interleave, err = ParsePair(keyval[1])
 			} else {
-- 
2.43.0


From 43ef1abfe902c65c0416f712e9992ec82ec1cd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 26/47] fix: Transport.Parse skips white space, slashes in
 parameters are not the lower transport

---
 net/rtsp/transport.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/net/rtsp/transport.go b/net/rtsp/transport.go
index 46b5806..6cd8e49 100644
--- a/net/rtsp/transport.go
+++ b/net/rtsp/transport.go
@@ -158,9 +158,10 @@ func (t Transport) String() string {
 // Parse transport header into constituent parts.
 func (t *Transport) Parse(value string) (err error) {
 	fields := strings.Split(value, ";")
-	for _, field := range fields {
+	for i, field := range fields {
+		field = strings.TrimSpace(field)
 		keyval := strings.Split(field, "/")
-		if len(keyval) == 3 {
+		if i == 0 && len(keyval) == 3 {
 			// Third part is lower protocol TCP/UDP
 			t.IsTCP = strings.ToUpper(keyval[2]) == "TCP"
 		}
-- 
2.43.0


From 0b8412e7219126a251cf960928e931185935035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 27/47] fix: Conn.ReadBytes returns its own copy of any number
 of bytes

---
 net/rtsp/connection.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 2b296d7..378216e 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -2,9 +2,11 @@ package rtsp
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/base64"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"math/rand"
 	"net"
 	"net/url"
@@ -167,11 +169,12 @@ func (c *Conn) ReadByte() (byte, error) {
 
 // ReadBytes reads requested number of bytes, returning a slice containing the data.
 func (c *Conn) ReadBytes(n int) ([]byte, error) {
-	b, err := c.Peek(n)
-	if err == nil {
-		c.rdr.Discard(n)
+	if c.Timeout > 0 {
+		c.conn.SetReadDeadline(time.Now().Add(c.Timeout))
 	}
-	return b, err
+	buf := &bytes.Buffer{}
+	_, err := io.CopyN(buf, c.rdr, int64(n))
+	return buf.Bytes(), err
 }
 
 // AddSink creates a listener on UDP port for RTP data or control channel.
-- 
2.43.0


From 46db2953da8c43bfb3887f687d97c9839b621898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 28/47] fix: Response.Pack adds nothing to the body

---
 net/rtsp/message.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index 168021b..a6d1656 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -185,7 +185,6 @@ func (r Response) Pack() []byte {
 	buf.Write(crnl)
 	if r.ContentLength > 0 {
 		buf.Write(r.Body)
-		buf.Write(crnl)
 	}
 	return buf.Bytes()
 }
-- 
2.43.0


From e727b9127a74d94b1bb42de29b79d665422d0d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 29/47] fix: a challenged request is repeated with its own CSeq

---
 net/rtsp/session.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 5384c06..73c4405 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -70,8 +70,6 @@ func (s *Session) authorize(challenge string) error {
 func (s *Session) enqueue(req *Request) {
 	s.Lock()
 	defer s.Unlock()
-	req.Cseq = s.cseq
-	req.Session = s.session
 	s.queue[req.Cseq] = req
 }
 
@@ -97,6 +95,8 @@ func (s *Session) command(verb, uri string, headers Headers) error {
 		req.Auth = s.auth(req.Verb, nil)
 	}
 	s.cseq++
+	req.Cseq = s.cseq
+	req.Session = s.session
 	s.enqueue(req)
 	buf := req.Pack()
 
-- 
2.43.0


From e9728f152ac2cd9888d82124357aa0f8c218aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 30/47] fix: nonce count goes on when several requests get the
 same challenge

---
 net/rtsp/session.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 73c4405..c8c9a86 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -21,6 +21,7 @@ type (
 		stage   int        // Current stage.
 		State   chan int   // Stage signaller.
 		auth    DigestAuth // Callback function to calculate digest authentication for a given verb/method.
+		digest  *Digest    // Challenge that auth answers.
 		queue   Queue      // RTSP requests that we are waiting responses for
 		done    chan struct{}
 		session string
@@ -61,9 +62,14 @@ func (s *Session) authorize(challenge string) error {
 	if s.URL.User == nil {
 		return errNoCredentials
 	}
+	if d := s.digest; d != nil && !d.basic && !digest.basic && d.nonce == digest.nonce && d.realm == digest.realm && d.qop == digest.qop {
+		// The same challenge to another outstanding request, nonce count goes on.
+		return nil
+	}
 	username := s.URL.User.Username()
 	password, _ := s.URL.User.Password()
 	s.auth = digest.Authenticate(username, password)
+	s.digest = digest
 	return nil
 }
 
-- 
2.43.0


From 1890af44db4c1b446fb4c84a3a605d86d85459cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 31/47] fix: a request is repeated with credentials once, not
 as long as it is challenged

---
 net/rtsp/definitions.go | 1 +
 net/rtsp/message.go     | 1 +
 net/rtsp/session.go     | 4 ++++
 3 files changed, 6 insertions(+)

diff --git a/net/rtsp/definitions.go b/net/rtsp/definitions.go
index eb5322c..e93d4ef 100644
--- a/net/rtsp/definitions.go
+++ b/net/rtsp/definitions.go
@@ -129,6 +129,7 @@ var (
 	errInvalidStatus     = errors.New("Missing or malformed status code")
 	errNotSupported      = errors.New("Unsupported protocol version")
 	errNoCredentials     = errors.New("Resource URI has no credentials to perform authorization")
+	errRejected          = errors.New("Credentials are rejected")
 	errOutOfMemory       = errors.New("Out of memory")
 	errBadResponse       = errors.New("Bad or unexpected response")
 	errNoConnection      = errors.New("Connection to RTSP source is required")
diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index a6d1656..49d3423 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -22,6 +22,7 @@ type (
 		Auth    string
 		Session string
 		Header  MessageHeader
+		retry   bool // Already repeated with credentials.
 	}
 
 	// Response encapsulates RTSP response.  It is modeled by http.Response but includes only what is needed to handle RTSP.
diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index c8c9a86..adeb9ab 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -238,6 +238,10 @@ func (s *Session) handleRtsp() (err error) {
 	}
 
 	if rsp.StatusCode == RtspUnauthorized {
+		if req.retry {
+			return errRejected
+		}
+		req.retry = true
 		if err = s.authorize(rsp.Header.Get(HeaderAuthenticate)); err != nil {
 			return err
 		}
-- 
2.43.0


From d14cf8681fc7d133ed6bc8114c31e74c893981eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 32/47] fix: RTSP over HTTP opens the POST connection instead
 of dereferencing nil

---
 net/rtsp/connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 378216e..3fc8d0f 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -100,6 +100,10 @@ func Dial(uri string, proto int) (*Conn, error) {
 		if err := ReceiveHTTP(c); err != nil {
 			return nil, err
 		}
+		// Requests go over the second connection.
+		if c.post, err = net.DialTCP("tcp", nil, addr); err != nil {
+			return nil, err
+		}
 	}
 
 	return c, nil
-- 
2.43.0


From 112afcf4178ca043ce425651b46ac59f74d67e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 33/47] fix: RTSP over HTTP does not go on when GET is refused

---
 net/rtsp/http.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/http.go b/net/rtsp/http.go
index 3588425..b0972e4 100644
--- a/net/rtsp/http.go
+++ b/net/rtsp/http.go
@@ -70,7 +70,9 @@ func ReceiveHTTP(rdr *Conn) error {
 	if err != nil || statusCode < 0 {
 		return errInvalidStatus
 	}
-	// TODO: Verify expected 200 status.
+	if statusCode != RtspOK {
+		return errBadResponse
+	}
 
 	// Parse the response headers.
 	for {
-- 
2.43.0


From 0406e588e76d2d58419122b4a13ca19b88bc4188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 34/47] fix: a response nobody waits for is dropped instead of
 ending the session

---
 net/rtsp/session.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index adeb9ab..e0c28f6 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -233,8 +233,8 @@ func (s *Session) handleRtsp() (err error) {
 
 	req, ok := s.dequeue(rsp.Cseq)
 	if !ok {
-		// FIXME: Did not find matching request.  Maybe just drop response.
-		return errBadResponse
+		// Did not find matching request.  Just drop response.
+		return nil
 	}
 
 	if rsp.StatusCode == RtspUnauthorized {
-- 
2.43.0


From 3c6f5a924bfa6f6f6090d2f1ba01da8000ebaf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 35/47] fix: commands issued concurrently do not share CSeq,
 nonce count or mix on the wire

---
 net/rtsp/session.go | 47 ++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index e0c28f6..a38c376 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -73,10 +73,15 @@ func (s *Session) authorize(challenge string) error {
 	return nil
 }
 
-func (s *Session) enqueue(req *Request) {
-	s.Lock()
-	defer s.Unlock()
+// Registers request as waiting for response and writes it.  Session has to be locked.
+func (s *Session) enqueue(req *Request) error {
 	s.queue[req.Cseq] = req
+	buf := req.Pack()
+
+	log.Println(string(buf))
+
+	_, err := s.Write(buf)
+	return err
 }
 
 func (s *Session) dequeue(seq int) (req *Request, ok bool) {
@@ -90,28 +95,28 @@ func (s *Session) dequeue(seq int) (req *Request, ok bool) {
 }
 
 func (s *Session) command(verb, uri string, headers Headers) error {
+	_, err := s.issue(verb, uri, headers)
+	return err
+}
+
+// Sends a command and returns its sequence number.
+func (s *Session) issue(verb, uri string, headers Headers) (int, error) {
 	if s.Conn == nil {
-		return errNoConnection
+		return 0, errNoConnection
 	}
 	req := &Request{Verb: verb, URI: uri, Header: make(MessageHeader)}
 	for key, value := range headers {
 		req.Header.Set(key, value)
 	}
+	s.Lock()
+	defer s.Unlock()
 	if s.auth != nil {
 		req.Auth = s.auth(req.Verb, nil)
 	}
 	s.cseq++
 	req.Cseq = s.cseq
 	req.Session = s.session
-	s.enqueue(req)
-	buf := req.Pack()
-
-	log.Println(string(buf))
-
-	if _, err := s.Write(buf); err != nil {
-		return err
-	}
-	return nil
+	return req.Cseq, s.enqueue(req)
 }
 
 // Options handles client OPTIONS request in RTSP.
@@ -132,11 +137,11 @@ func (s *Session) Setup() error {
 		if !strings.HasPrefix(uri, "rtsp://") {
 			uri = s.BaseURI + "/" + uri
 		}
-		err := s.command(VerbSetup, uri, Headers{HeaderTransport: s.feeds[i].TransportHeader()})
+		cseq, err := s.issue(VerbSetup, uri, Headers{HeaderTransport: s.feeds[i].TransportHeader()})
 		if err != nil {
 			return err
 		}
-		s.feeds[i].cseq = s.cseq
+		s.feeds[i].cseq = cseq
 	}
 	return nil
 }
@@ -242,6 +247,8 @@ func (s *Session) handleRtsp() (err error) {
 			return errRejected
 		}
 		req.retry = true
+		s.Lock()
+		defer s.Unlock()
 		if err = s.authorize(rsp.Header.Get(HeaderAuthenticate)); err != nil {
 			return err
 		}
@@ -249,18 +256,14 @@ func (s *Session) handleRtsp() (err error) {
 		// Treat this as retransmit of the same message.
 		// If the following line is uncommented, it will break matching responses to transport setup commands based on checking CSeq.
 		// s.cseq++
-		s.enqueue(req)
-		buf := req.Pack()
-
-		log.Println(string(buf))
-
-		_, err = s.Write(buf)
-		return err
+		return s.enqueue(req)
 	}
 
 	if sess := rsp.Header.Get(HeaderSession); sess != "" {
 		if fields := strings.Split(sess, ";"); len(fields) > 0 {
+			s.Lock()
 			s.session = fields[0]
+			s.Unlock()
 		}
 	}
 
-- 
2.43.0


From 471cb22fcb06814dda4bdcc90b8596ac58ba22b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 36/47] fix: resume an interleaved frame after a time-out,
 never continue inside a response

---
 net/rtsp/connection.go |  2 +-
 net/rtsp/session.go    | 25 +++++++++++++------------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 3fc8d0f..be64a4d 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -80,7 +80,7 @@ func Dial(uri string, proto int) (*Conn, error) {
 
 	c := &Conn{
 		conn:      conn,
-		rdr:       bufio.NewReaderSize(conn, 2048),
+		rdr:       bufio.NewReaderSize(conn, 4+65535), // Fits the largest interleaved frame
 		connected: false,
 		Data:      make(chan RawPacket, 20),
 		guid:      fmt.Sprintf("%016x", rand.Uint64()),
diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index a38c376..210767f 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -176,29 +176,26 @@ func (s *Session) KeepAlive() error {
 }
 
 func (s *Session) receive() error {
-	var ch byte
-	var buf []byte
 	b, err := s.Peek(1)
 	if err != nil {
 		return err
 	}
 	if b[0] == '$' {
-		s.Discard(1)
 		// RTSP allows for up to 8 transports so valid ch values are limited.
-		if ch, err = s.ReadByte(); err != nil {
+		// Nothing is consumed until the whole frame is there, time-out in the middle of it is harmless.
+		if b, err = s.Peek(4); err != nil {
 			return err
 		}
-		length, err := s.ReadUint16()
-		if err != nil {
+		n := 4 + int(be.Uint16(b[2:]))
+		if b, err = s.Peek(n); err != nil {
 			return err
 		}
-		buf, err = s.ReadBytes(int(length))
-		if err == nil {
-			select {
-			case s.Data <- RawPacket{Channel: ch, Payload: append([]byte{}, buf...)}:
-			}
+		pkt := RawPacket{Channel: b[1], Payload: append([]byte{}, b[4:]...)}
+		s.Discard(n)
+		select {
+		case s.Data <- pkt:
 		}
-		return err
+		return nil
 	}
 	return s.handleRtsp()
 }
@@ -231,6 +228,10 @@ func (s *Session) notify(stage int) {
 func (s *Session) handleRtsp() (err error) {
 	var rsp *Response
 	if rsp, err = Unpack(s.Conn); err != nil {
+		if isTimeoutOrTemp(err) {
+			// Part of the response is consumed already, there is no way to pick it up.
+			return errMalformedResponse
+		}
 		return err
 	}
 
-- 
2.43.0


From d468dc42007ef42b63756ecf7b8a60af9172e1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 37/47] fix: listen on negotiated client ports, number UDP
 channels in stream order

---
 net/rtsp/session.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 210767f..659b6b4 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -304,18 +304,22 @@ func (s *Session) handleRtsp() (err error) {
 
 func (s *Session) handleSetup(rsp *Response) (err error) {
 	if rsp.StatusCode == RtspOK {
-		for _, f := range s.feeds {
+		for i, f := range s.feeds {
 			if f.cseq == rsp.Cseq {
 				s.feedidx++
 				if err = f.TransportSetup(rsp.Header.Get(HeaderTransport)); err != nil {
 					return err
 				}
 				if !f.transp.IsTCP {
-					ch := byte(s.feedidx) * 2
-					if err := s.AddSink(ch, f.transp.Port.One); err != nil {
+					ch := byte(i) * 2
+					port := f.transp.ClientPort
+					if f.transp.IsMulticast {
+						port = f.transp.Port
+					}
+					if err := s.AddSink(ch, port.One); err != nil {
 						return err
 					}
-					if err := s.AddSink(ch+1, f.transp.Port.Two); err != nil {
+					if err := s.AddSink(ch+1, port.Two); err != nil {
 						return err
 					}
 				}
-- 
2.43.0


From c29095436c6e3aa86545ce2dbda9f6ff82aabc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 38/47] fix: receive datagrams on the local address of the
 session

---
 net/rtsp/connection.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index be64a4d..b6694f0 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -184,13 +184,12 @@ func (c *Conn) ReadBytes(n int) ([]byte, error) {
 // AddSink creates a listener on UDP port for RTP data or control channel.
 func (c *Conn) AddSink(ch byte, port int) error {
 	if c.addr == nil {
-		var err error
-		if c.addr, err = net.ResolveIPAddr("ip", "127.0.0.1"); err != nil {
-			return err
-		}
+		// The server sends to the address it sees the session coming from.
+		local := c.conn.LocalAddr().(*net.TCPAddr)
+		c.addr = &net.IPAddr{IP: local.IP, Zone: local.Zone}
 	}
 
-	conn, err := net.ListenUDP("udp", &net.UDPAddr{IP: c.addr.IP, Port: port, Zone: ""})
+	conn, err := net.ListenUDP("udp", &net.UDPAddr{IP: c.addr.IP, Port: port, Zone: c.addr.Zone})
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From c3b85aa9431406c183e53d4d6c0c9e83cb1719ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:23 +0000
Subject: [PATCH 39/47] fix: UDP listeners read datagrams until stopped

---
 net/rtsp/connection.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index b6694f0..768068c 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -207,22 +207,20 @@ func (c *Conn) Start() {
 	for _, s := range c.sinks {
 		fmt.Printf("Reading from UDP sink %d", s.ch)
 		go func(sink udpsink) {
+			defer sink.Close()
 			var buf [2048]byte
 			for {
-				select {
-				case <-sink.done:
-					break
-				}
 				n, _, err := sink.ReadFromUDP(buf[:])
 				if err == nil {
 					select {
 					case c.Data <- RawPacket{Channel: sink.ch, Payload: append([]byte{}, buf[:n]...)}:
+					case <-sink.done:
+						return
 					}
 				} else if !isTimeoutOrTemp(err) {
-					break
+					return
 				}
 			}
-			sink.Close()
 			// TODO: Notify caller about closed connection.
 		}(s)
 	}
@@ -231,9 +229,8 @@ func (c *Conn) Start() {
 // Stop tells all UDP listeners to suspend processing and close.  The list of listerners is reset.
 func (c *Conn) Stop() {
 	for _, sink := range c.sinks {
-		select {
-		case sink.done <- 1:
-		}
+		close(sink.done)
+		sink.Close() // Interrupts pending read.
 	}
 	c.sinks = c.sinks[:0]
 }
-- 
2.43.0


From 750f725b67ab3f62c01514daf553e9f03e727f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 40/47] fix: RTP packet without payload does not end the
 program

---
 cmd/ouro/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ouro/main.go b/cmd/ouro/main.go
index 6f6afa7..20cea8d 100644
--- a/cmd/ouro/main.go
+++ b/cmd/ouro/main.go
@@ -65,7 +65,7 @@ func handleStates(s *rtsp.Session) {
 				log.Printf("RTP [%d] PT=%d, CC=%d, M=%t, SN=%d\r\n", pkt.Channel, p.PT(), p.CC(), p.M(), p.SN)
 			
 				buf := p.PL
-				if buf != nil {
+				if len(buf) > 0 {
 					err := nalsink.Push(buf, p.TS)
 					if err != nil {
 						log.Println(err)
-- 
2.43.0


From 3ae846253a222cfd2e4663a1ace2add74a45d085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 41/47] fix: every stream has a NAL sink of its own

---
 cmd/ouro/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/ouro/main.go b/cmd/ouro/main.go
index 20cea8d..5e92b93 100644
--- a/cmd/ouro/main.go
+++ b/cmd/ouro/main.go
@@ -15,7 +15,7 @@ import (
 
 func handleStates(s *rtsp.Session) {
 	state := rtsp.StageInit
-	nalsink := h264.NewNALSink()
+	nalsinks := make(map[byte]*h264.NALSink) // Streams are independent of each other.
 	tmr := time.NewTimer(time.Minute)
 	tmr.Stop()
 	for {
@@ -66,6 +66,11 @@ func handleStates(s *rtsp.Session) {
 			
 				buf := p.PL
 				if len(buf) > 0 {
+					nalsink := nalsinks[pkt.Channel]
+					if nalsink == nil {
+						nalsink = h264.NewNALSink()
+						nalsinks[pkt.Channel] = nalsink
+					}
 					err := nalsink.Push(buf, p.TS)
 					if err != nil {
 						log.Println(err)
-- 
2.43.0


From 5c3b8b951263b6c2599f4427ac2b896722974b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 42/47] fix: commands of a session that is not open return an
 error

---
 net/rtsp/session.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 659b6b4..37fa9a9 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -94,16 +94,17 @@ func (s *Session) dequeue(seq int) (req *Request, ok bool) {
 	return
 }
 
-func (s *Session) command(verb, uri string, headers Headers) error {
-	_, err := s.issue(verb, uri, headers)
+// Sends a command addressed to the whole presentation.
+func (s *Session) command(verb string, headers Headers) error {
+	if s.Conn == nil {
+		return errNoConnection
+	}
+	_, err := s.issue(verb, s.BaseURI, headers)
 	return err
 }
 
 // Sends a command and returns its sequence number.
 func (s *Session) issue(verb, uri string, headers Headers) (int, error) {
-	if s.Conn == nil {
-		return 0, errNoConnection
-	}
 	req := &Request{Verb: verb, URI: uri, Header: make(MessageHeader)}
 	for key, value := range headers {
 		req.Header.Set(key, value)
@@ -121,12 +122,12 @@ func (s *Session) issue(verb, uri string, headers Headers) (int, error) {
 
 // Options handles client OPTIONS request in RTSP.
 func (s *Session) Options() error {
-	return s.command(VerbOptions, s.BaseURI, nil)
+	return s.command(VerbOptions, nil)
 }
 
 // Describe handles DESCRIBE request in RTSP and parses SDP data in response.
 func (s *Session) Describe() error {
-	return s.command(VerbDescribe, s.BaseURI, Headers{HeaderAccept: "application/sdp"})
+	return s.command(VerbDescribe, Headers{HeaderAccept: "application/sdp"})
 }
 
 // Setup issues SETUP command for all playable media.
@@ -148,28 +149,31 @@ func (s *Session) Setup() error {
 
 // Play handles client PLAY request in RTSP.
 func (s *Session) Play() error {
-	return s.command(VerbPlay, s.BaseURI, nil)
+	return s.command(VerbPlay, nil)
 }
 
 // Pause handles client PAUSE request in RTSP.
 func (s *Session) Pause() error {
-	return s.command(VerbPause, s.BaseURI, nil)
+	return s.command(VerbPause, nil)
 }
 
 // Teardown handles client TEARDOWN request in RTSP.
 func (s *Session) Teardown() error {
 	// s.notify(StageDone)
-	return s.command(VerbTeardown, s.BaseURI, nil)
+	return s.command(VerbTeardown, nil)
 }
 
 // KeepAlive executes OPTIONS on a regular basis to keep connection alive.
 // RTP over TCP does not need keep-alive messages according to RFC.
 func (s *Session) KeepAlive() error {
+	if s.Conn == nil {
+		return errNoConnection
+	}
 	if s.Proto != ProtoHTTP && s.Proto != ProtoTCP && s.stage > StageInit && s.stage < StageDone {
 		if s.last.IsZero() || time.Now().Sub(s.last) >= keepAliveTimeout {
 			s.last = time.Now()
 			// OPTIONS without session might not keep session alive.  GET_PARAMETER may be unsupported by the server.  Check verbs.
-			return s.command(VerbOptions, s.BaseURI, Headers{HeaderSession: s.session})
+			return s.command(VerbOptions, Headers{HeaderSession: s.session})
 		}
 	}
 	return nil
-- 
2.43.0


From 6c8da3b1dff972b1b8178e6feb3c84030137492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 43/47] fix: time-out of a connection applies to each operation

---
 net/rtsp/connection.go | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 768068c..765e562 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -109,11 +109,17 @@ func Dial(uri string, proto int) (*Conn, error) {
 	return c, nil
 }
 
+// deadline of an operation that starts now.  Without time-out there is none, whatever an earlier operation has set.
+func (c *Conn) deadline() (t time.Time) {
+	if c.Timeout > 0 {
+		t = time.Now().Add(c.Timeout)
+	}
+	return
+}
+
 func (c *Conn) Write(p []byte) (n int, err error) {
 	if c.Proto == ProtoHTTP {
-		if c.Timeout > 0 {
-			c.post.SetWriteDeadline(time.Now().Add(c.Timeout))
-		}
+		c.post.SetWriteDeadline(c.deadline())
 		// Issue POST for RTSP over HTTP.  Before first command or after temporary disconnect (after sending PLAY, for instance).
 		if !c.connected {
 			cmd := ConnectHTTP("POST", c.BaseURI, c.guid)
@@ -126,56 +132,45 @@ func (c *Conn) Write(p []byte) (n int, err error) {
 		defer w.Close()
 		return w.Write(p)
 	}
-	if c.Timeout > 0 {
-		c.conn.SetWriteDeadline(time.Now().Add(c.Timeout))
-	}
+	c.conn.SetWriteDeadline(c.deadline())
 	return c.conn.Write(p)
 }
 
 // Peek returns the next n bytes without advancing the reader.
 func (c *Conn) Peek(n int) ([]byte, error) {
-	if c.Timeout > 0 {
-		c.conn.SetReadDeadline(time.Now().Add(c.Timeout))
-	}
+	c.conn.SetReadDeadline(c.deadline())
 	return c.rdr.Peek(n)
 }
 
 // ReadLine reads until the first occurrence of newline,
 // returning a string containing the data up to and including newline.
 func (c *Conn) ReadLine() (string, error) {
-	if c.Timeout > 0 {
-		c.conn.SetReadDeadline(time.Now().Add(c.Timeout))
-	}
+	c.conn.SetReadDeadline(c.deadline())
 	return c.rdr.ReadString('\n')
 }
 
 // ReadUint16 reads and returns an unsigned 2-byte integer.
 func (c *Conn) ReadUint16() (data uint16, err error) {
-	if c.Timeout > 0 {
-		c.conn.SetReadDeadline(time.Now().Add(c.Timeout))
-	}
+	c.conn.SetReadDeadline(c.deadline())
 	err = binary.Read(c.rdr, be, &data)
 	return
 }
 
 // Discard skips the next n bytes, returning the number of bytes discarded.
 func (c *Conn) Discard(n int) (discarded int, err error) {
+	c.conn.SetReadDeadline(c.deadline())
 	return c.rdr.Discard(n)
 }
 
 // ReadByte reads and returns a single byte.
 func (c *Conn) ReadByte() (byte, error) {
-	if c.Timeout > 0 {
-		c.conn.SetReadDeadline(time.Now().Add(c.Timeout))
-	}
+	c.conn.SetReadDeadline(c.deadline())
 	return c.rdr.ReadByte()
 }
 
 // ReadBytes reads requested number of bytes, returning a slice containing the data.
 func (c *Conn) ReadBytes(n int) ([]byte, error) {
-	if c.Timeout > 0 {
-		c.conn.SetReadDeadline(time.Now().Add(c.Timeout))
-	}
+	c.conn.SetReadDeadline(c.deadline())
 	buf := &bytes.Buffer{}
 	_, err := io.CopyN(buf, c.rdr, int64(n))
 	return buf.Bytes(), err
-- 
2.43.0


From 4890be29317c529376028ce6e71daad990403194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:06 +0000
Subject: [PATCH 44/47] fix: reading of an integer does not lose half of it to
 a time-out

---
 net/rtsp/connection.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 765e562..1456ce4 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -151,8 +151,13 @@ func (c *Conn) ReadLine() (string, error) {
 
 // ReadUint16 reads and returns an unsigned 2-byte integer.
 func (c *Conn) ReadUint16() (data uint16, err error) {
-	c.conn.SetReadDeadline(c.deadline())
-	err = binary.Read(c.rdr, be, &data)
+	// Nothing is consumed until both bytes are there.
+	b, err := c.Peek(2)
+	if err != nil {
+		return
+	}
+	data = be.Uint16(b)
+	c.rdr.Discard(2)
 	return
 }
 
-- 
2.43.0


From ea7ae881772a53c1920541f3d445814e7454cda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 45/47] fix: a refused tunnel does not leave its connection
 open

---
 net/rtsp/connection.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 1456ce4..d60e87c 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -94,14 +94,17 @@ func Dial(uri string, proto int) (*Conn, error) {
 		// Issue GET and read response.  Afterwards we'll be getting incoming RTSP/RTP/RTCP responses in a stream.
 		cmd := ConnectHTTP("GET", c.BaseURI, c.guid)
 		if _, err := c.conn.Write(cmd); err != nil {
+			conn.Close()
 			return nil, err
 		}
 		// Read response but only headers and prepare to receive content stream of unknown length.
 		if err := ReceiveHTTP(c); err != nil {
+			conn.Close()
 			return nil, err
 		}
 		// Requests go over the second connection.
 		if c.post, err = net.DialTCP("tcp", nil, addr); err != nil {
+			conn.Close()
 			return nil, err
 		}
 	}
-- 
2.43.0


From 92e2fb38623aa1d079fee52d3ef0854cc3c46316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 46/47] fix: datagrams of more than 2048 bytes are delivered
 whole

---
 net/rtsp/connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index d60e87c..e7dd97f 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -211,7 +211,7 @@ func (c *Conn) Start() {
 		fmt.Printf("Reading from UDP sink %d", s.ch)
 		go func(sink udpsink) {
 			defer sink.Close()
-			var buf [2048]byte
+			var buf [65535]byte // Fits the largest datagram
 			for {
 				n, _, err := sink.ReadFromUDP(buf[:])
 				if err == nil {
-- 
2.43.0


From 024ee5f2ab68edb11e3af9ccbb9b9c539edd1d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 47/47] fix: control of a stream was put after two slashes
 under a base URI that ends in one

---
 net/rtsp/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 37fa9a9..272d9ee 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -136,7 +136,7 @@ func (s *Session) Setup() error {
 		// Setup is done on a different URI that accounts for Control in media.
 		uri := s.feeds[i].Control
 		if !strings.HasPrefix(uri, "rtsp://") {
-			uri = s.BaseURI + "/" + uri
+			uri = strings.TrimSuffix(s.BaseURI, "/") + "/" + uri
 		}
 		cseq, err := s.issue(VerbSetup, uri, Headers{HeaderTransport: s.feeds[i].TransportHeader()})
 		if err != nil {
-- 
2.43.0

