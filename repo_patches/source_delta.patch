From 8996d9968dc73d5fa8d296db603c70fe04b1dbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 01/30] fix: StereoToMono overflowed int16 when averaging loud
 samples

---
 pcm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcm.go b/pcm.go
index 7e374ab..635862f 100644
--- a/pcm.go
+++ b/pcm.go
@@ -228,6 +228,6 @@ func StereoToMono(dst, src PCM16Sample) {
 	}
 	// average stereo samples to mono
 	for i := range n {
-		dst[i] = (src[i*2+0] + src[i*2+1]) / 2
+		dst[i] = int16((int32(src[i*2+0]) + int32(src[i*2+1])) / 2)
 	}
 }
-- 
2.43.0


From b25643971b67b7b4a3f00ddb4bdba72e31e3c311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 02/30] fix: payload type 255 panicked in CodecByPayloadType

---
 rtp/codecs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/codecs.go b/rtp/codecs.go
index 7b0db70..e0adf85 100644
--- a/rtp/codecs.go
+++ b/rtp/codecs.go
@@ -28,7 +28,7 @@ var (
 )
 
 var (
-	codecByType [0xff]media.Codec
+	codecByType [0x100]media.Codec
 )
 
 func init() {
-- 
2.43.0


From cf7b5135890c3c116294b67589e21023b0c12d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 03/30] fix: dtmf.Write crashed without an event stream

---
 dtmf/dtmf.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtmf/dtmf.go b/dtmf/dtmf.go
index b9d0e86..2b7849e 100644
--- a/dtmf/dtmf.go
+++ b/dtmf/dtmf.go
@@ -223,7 +223,9 @@ func Write(ctx context.Context, audio media.Writer[media.PCM16Sample], events *r
 		}
 	}
 
-	events.ResetTimestamp(startTs)
+	if events != nil {
+		events.ResetTimestamp(startTs)
+	}
 
 	for {
 		select {
-- 
2.43.0


From fc12f70f133b4acc614bf806ef17aba16ca2b2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 04/30] fix: rtp.Buffer kept the caller's CSRC and extension
 slices

---
 rtp/rtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 9e8de21..ad2ab41 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -100,7 +100,7 @@ func (b *Buffer) String() string {
 
 func (b *Buffer) WriteRTP(h *rtp.Header, payload []byte) (int, error) {
 	*b = append(*b, &rtp.Packet{
-		Header:  *h,
+		Header:  h.Clone(),
 		Payload: slices.Clone(payload),
 	})
 	return len(payload), nil
-- 
2.43.0


From 83057d92a975a0bc8a3f4f61b47fed9f0f9cb562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 05/30] fix: WebM timestamps drifted for frame durations with a
 fractional millisecond

---
 webm/writer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/webm/writer.go b/webm/writer.go
index e07cc03..32835ee 100644
--- a/webm/writer.go
+++ b/webm/writer.go
@@ -57,7 +57,7 @@ type writer[T media.Frame] struct {
 	channels   int
 	sampleRate int
 	dur        time.Duration
-	ts         int64
+	ts         time.Duration
 	buf        []byte
 }
 
@@ -79,8 +79,8 @@ func (w *writer[T]) WriteSample(sample T) error {
 	if err != nil {
 		return err
 	}
-	_, err = w.ws.Write(true, w.ts, slices.Clone(w.buf[:n]))
-	w.ts += w.dur.Milliseconds()
+	_, err = w.ws.Write(true, w.ts.Milliseconds(), slices.Clone(w.buf[:n]))
+	w.ts += w.dur
 	return err
 }
 
-- 
2.43.0


From ea8c36b44b3527637774c62e75899c2207ca119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 06/30] fix: stereo audio resources were split into 10 ms
 frames

---
 res/embed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/res/embed.go b/res/embed.go
index 7701362..2d2b03d 100644
--- a/res/embed.go
+++ b/res/embed.go
@@ -37,7 +37,7 @@ var WrongPinOgg []byte
 const SampleRate = 48000
 
 func ReadOggAudioFile(data []byte, sampleRate int, channels int) []media.PCM16Sample {
-	perFrame := sampleRate / media.DefFramesPerSec
+	perFrame := sampleRate / media.DefFramesPerSec * channels
 	r, err := oggvorbis.NewReader(bytes.NewReader(data))
 	if err != nil {
 		panic(err)
-- 
2.43.0


From fd50305c540a4b678136737680d425d5d6331a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 07/30] fix: RTP sessions returned header extensions that later
 datagrams overwrite

---
 rtp/session.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rtp/session.go b/rtp/session.go
index 9cfcbee..568e153 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -168,6 +168,8 @@ type readStream struct {
 }
 
 func (r *readStream) write(p *rtp.Packet) {
+	// Header extensions reference the receive buffer.
+	p.Header = p.Header.Clone()
 	if enableZeroCopy {
 		r.mu.Lock()
 		h, payload := r.hdr, r.payload
-- 
2.43.0


From fa545eefad5771cef5cb0c6292b0a950d8979571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 08/30] fix: RTP session reads could lose or corrupt packets,
 and block the receive loop and Close

A packet arriving while a reader was waiting could be copied into the
reader's buffers although the reader was about to take (or had taken) a
packet from the queue, losing or overwriting one of them and leaving the
receive loop blocked.
---
 rtp/session.go | 62 +++++++++++++++++++++++---------------------------
 1 file changed, 29 insertions(+), 33 deletions(-)

diff --git a/rtp/session.go b/rtp/session.go
index 568e153..ac01f6a 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -106,7 +106,7 @@ func (s *session) AcceptStream() (ReadStream, uint32, error) {
 			r = &readStream{
 				ssrc:   p.SSRC,
 				closed: closed,
-				copied: make(chan int),
+				copied: make(chan int, 1),
 				recv:   make(chan *rtp.Packet, 10),
 			}
 			s.bySSRC[p.SSRC] = r
@@ -159,32 +159,28 @@ func (w *writeStream) WriteRTP(h *rtp.Header, payload []byte) (int, error) {
 type readStream struct {
 	ssrc uint32
 
-	closed  <-chan struct{}
-	recv    chan *rtp.Packet
-	copied  chan int
+	closed <-chan struct{}
+	recv   chan *rtp.Packet
+
 	mu      sync.Mutex
+	direct  bool // a reader is waiting for a direct write
 	hdr     *rtp.Header
 	payload []byte
+	copied  chan int // buffered; result of a direct write
 }
 
 func (r *readStream) write(p *rtp.Packet) {
 	// Header extensions reference the receive buffer.
 	p.Header = p.Header.Clone()
-	if enableZeroCopy {
-		r.mu.Lock()
-		h, payload := r.hdr, r.payload
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if h := r.hdr; h != nil {
+		// zero copy
+		*h = p.Header
+		n := copy(r.payload, p.Payload)
 		r.hdr, r.payload = nil, nil
-		r.mu.Unlock()
-		if h != nil {
-			// zero copy
-			*h = p.Header
-			n := copy(payload, p.Payload)
-			select {
-			case <-r.closed:
-			case r.copied <- n:
-			}
-			return
-		}
+		r.copied <- n
+		return
 	}
 	p.Payload = slices.Clone(p.Payload)
 	select {
@@ -197,10 +193,10 @@ func (r *readStream) ReadRTP(h *rtp.Header, payload []byte) (int, error) {
 	direct := false
 	if enableZeroCopy {
 		r.mu.Lock()
-		if r.hdr == nil {
-			r.hdr = h
-			r.payload = payload
-			direct = true
+		// Packets that are already queued must be read first.
+		if !r.direct && len(r.recv) == 0 {
+			r.direct, direct = true, true
+			r.hdr, r.payload = h, payload
 		}
 		r.mu.Unlock()
 	}
@@ -214,21 +210,21 @@ func (r *readStream) ReadRTP(h *rtp.Header, payload []byte) (int, error) {
 		}
 		return 0, io.EOF
 	}
-	defer func() {
-		r.mu.Lock()
-		defer r.mu.Unlock()
-		if r.hdr == h {
-			r.hdr, r.payload = nil, nil
-		}
-	}()
 	select {
 	case n := <-r.copied:
-		return n, nil
-	case p := <-r.recv:
-		*h = p.Header
-		n := copy(payload, p.Payload)
+		r.mu.Lock()
+		defer r.mu.Unlock()
+		r.direct = false
 		return n, nil
 	case <-r.closed:
 	}
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	r.direct = false
+	if r.hdr == nil {
+		// written in the meantime
+		return <-r.copied, nil
+	}
+	r.hdr, r.payload = nil, nil
 	return 0, io.EOF
 }
-- 
2.43.0


From ec9f7e374f4b531dfbf8e3873842c959efe86544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 09/30] fix: ListenUDPPortRangeWithConfig failed for every IPv6
 address

---
 rtp/listen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtp/listen.go b/rtp/listen.go
index 3c0084a..fb617b7 100644
--- a/rtp/listen.go
+++ b/rtp/listen.go
@@ -17,10 +17,10 @@ package rtp
 import (
 	"context"
 	"errors"
-	"fmt"
 	"math/rand"
 	"net"
 	"net/netip"
+	"strconv"
 	"syscall"
 )
 
@@ -73,7 +73,7 @@ func ListenUDPPortRangeWithConfig(portMin, portMax int, ip netip.Addr, lc *net.L
 	ctx := context.Background() // ctx is only used to resolve domain names, which we don't use here.
 	ipStr := ip.String()
 	return bindRange(portMin, portMax, ip, func(port int, ip netip.Addr) (*net.UDPConn, error) {
-		conn, err := lc.ListenPacket(ctx, "udp", fmt.Sprintf("%s:%d", ipStr, port))
+		conn, err := lc.ListenPacket(ctx, "udp", net.JoinHostPort(ipStr, strconv.Itoa(port)))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From b22ded5bfa38e19e507fc99c45e0f3fd192d040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 10/30] fix: jitter buffer delivered duplicate packets and
 counted them as 65535 lost ones

A duplicate of a packet that is still held was added to the buffer. It
could break up the sample it belongs to, or was delivered again after the
latency, with 65535 packets counted as lost.
---
 jitter/buffer.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index ee0de74..0720ab1 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -203,12 +203,12 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 
 	if b.initialized && before(pkt.SequenceNumber, b.prevSN) {
 		// packet expired
-		if !pkt.Padding {
-			b.stats.PacketsDropped++
-			if b.onPacketLoss != nil {
-				b.onPacketLoss(b.stats.PacketsLost, b.stats.PacketsDropped)
-			}
-		}
+		b.dropPushed(pkt)
+		return
+	}
+	if b.holds(pkt.SequenceNumber) {
+		// duplicate
+		b.dropPushed(pkt)
 		return
 	}
 
@@ -280,6 +280,27 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 	}
 }
 
+// dropPushed accounts for a pushed packet that isn't added to the buffer
+func (b *Buffer) dropPushed(pkt *rtp.Packet) {
+	if pkt.Padding {
+		return
+	}
+	b.stats.PacketsDropped++
+	if b.onPacketLoss != nil {
+		b.onPacketLoss(b.stats.PacketsLost, b.stats.PacketsDropped)
+	}
+}
+
+// holds checks if the buffer contains a packet with a given sequence number
+func (b *Buffer) holds(sn uint16) bool {
+	for c := b.tail; c != nil; c = c.prev {
+		if c.extPacket.SequenceNumber == sn {
+			return true
+		}
+	}
+	return false
+}
+
 // popReady pushes all ready samples to the out channel
 func (b *Buffer) popReady() {
 	expiry := time.Now().Add(-b.latency)
-- 
2.43.0


From 8fb913b07ae9e514f7d70e791f85614c1b02627f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 11/30] fix: jitter buffer skipped gaps without waiting because
 of stale discontinuity marks

Packets from the pool kept the mark of their previous use, and a packet
that was the first one of a stream kept it when an earlier packet was
inserted before it.
---
 jitter/buffer.go | 3 +++
 jitter/packet.go | 1 +
 2 files changed, 4 insertions(+)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index 0720ab1..b935d53 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -232,6 +232,7 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 	case beforeHead && withinHeadRange:
 		// prepend
 		p.discont = discont && p.start
+		b.head.discont = false
 		b.head.prev = p
 		p.next = b.head
 		b.head = p
@@ -251,6 +252,7 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 				p.discont = discont && p.start
 				p.prev = c
 				p.next = c.next
+				c.next.discont = false
 				c.next.prev = p
 				c.next = p
 				return
@@ -263,6 +265,7 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 			discont = !withinRange(pkt.SequenceNumber, c.extPacket.SequenceNumber)
 			if before(pkt.SequenceNumber, c.extPacket.SequenceNumber) || discont {
 				// insert before c
+				c.discont = c.discont && discont
 				p.prev = c.prev
 				p.next = c
 				c.prev.next = p
diff --git a/jitter/packet.go b/jitter/packet.go
index 31e3181..60aee32 100644
--- a/jitter/packet.go
+++ b/jitter/packet.go
@@ -38,6 +38,7 @@ func (b *Buffer) newPacket(pkt *rtp.Packet, receivedAt time.Time) *packet {
 
 	p.prev = nil
 	p.next = nil
+	p.discont = false
 	p.start = b.depacketizer.IsPartitionHead(pkt.Payload)
 	p.end = b.depacketizer.IsPartitionTail(pkt.Marker, pkt.Payload)
 	p.extPacket = ExtPacket{receivedAt, pkt}
-- 
2.43.0


From 2dc289c53159d3b7f75284ea4ce919f46affddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:35 +0000
Subject: [PATCH 12/30] fix: jitter buffer dropped all packets after a jump to
 a much lower sequence number

A packet far behind the last one is a discontinuity just like one far
ahead. It was considered expired, which silenced a restarted stream until
its sequence numbers caught up.
---
 jitter/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index b935d53..3f5080f 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -201,7 +201,7 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 		}
 	}
 
-	if b.initialized && before(pkt.SequenceNumber, b.prevSN) {
+	if b.initialized && before(pkt.SequenceNumber, b.prevSN) && withinRange(pkt.SequenceNumber, b.prevSN) {
 		// packet expired
 		b.dropPushed(pkt)
 		return
-- 
2.43.0


From 46ed17e02580b08cd8905898b7bdcee87fad3770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:03 +0000
Subject: [PATCH 13/30] fix: jitter buffer held up and dropped padding packets
 of video streams

A depacketizer does not recognise an empty padding payload as the start of
a sample, so padding in sequence blocked the packets after it until the
latency had passed and was then counted as dropped.
---
 jitter/buffer.go | 2 +-
 jitter/packet.go | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index 3f5080f..6c492bf 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -403,7 +403,7 @@ func (b *Buffer) popSample() []ExtPacket {
 	end := false
 	for !end {
 		c := b.popHead()
-		end = c.end
+		end = c.end || (c.extPacket.Padding && len(sample) == 0)
 
 		if !c.extPacket.Padding {
 			sample = append(sample, c.extPacket)
diff --git a/jitter/packet.go b/jitter/packet.go
index 60aee32..d372eaa 100644
--- a/jitter/packet.go
+++ b/jitter/packet.go
@@ -39,7 +39,7 @@ func (b *Buffer) newPacket(pkt *rtp.Packet, receivedAt time.Time) *packet {
 	p.prev = nil
 	p.next = nil
 	p.discont = false
-	p.start = b.depacketizer.IsPartitionHead(pkt.Payload)
+	p.start = pkt.Padding || b.depacketizer.IsPartitionHead(pkt.Payload)
 	p.end = b.depacketizer.IsPartitionTail(pkt.Marker, pkt.Payload)
 	p.extPacket = ExtPacket{receivedAt, pkt}
 
@@ -51,7 +51,8 @@ func (p *packet) isComplete() bool {
 	if !p.start {
 		return false
 	}
-	if p.end {
+	if p.end || p.extPacket.Padding {
+		// padding between samples is complete on its own
 		return true
 	}
 
-- 
2.43.0


From d7c9aa19b32894dab60b7fcf33f6ad3c010f3a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:54 +0000
Subject: [PATCH 14/30] fix: SDP with a connection line without an address
 crashed the parser

---
 sdp/helpers.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdp/helpers.go b/sdp/helpers.go
index dc00686..f199b48 100644
--- a/sdp/helpers.go
+++ b/sdp/helpers.go
@@ -45,7 +45,9 @@ func GetAudioDest(s *sdp.SessionDescription, audio *sdp.MediaDescription) (netip
 	}
 	var addr string
 	if ci != nil && ci.NetworkType == "IN" {
-		addr = ci.Address.Address
+		if ci.Address != nil {
+			addr = ci.Address.Address
+		}
 	} else if s.Origin.NetworkType == "IN" {
 		addr = s.Origin.UnicastAddress
 	}
-- 
2.43.0


From c06fb6305eaef43e861a42bf395a60bb1327bc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 15/30] fix: SDP crypto attribute with a short key crashed the
 parser

---
 sdp/offer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdp/offer.go b/sdp/offer.go
index 3bb1809..f4c792d 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -498,6 +498,9 @@ func parseSRTPProfile(val string) (*srtp.Profile, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(keys) < keyLen {
+			return nil, fmt.Errorf("crypto key is too short for %s: %d bytes", prof, len(keys))
+		}
 		keys, salt = keys[:keyLen], keys[keyLen:]
 	}
 	return &srtp.Profile{
-- 
2.43.0


From c4e98c916fca6594a94de82db9498b7e02a0124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 16/30] fix: SRTP key identifiers of 8 bytes were rejected

---
 sdp/offer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index f4c792d..b0b1ed3 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -434,8 +434,7 @@ func parseMKI(s string) ([]byte, error) {
 	if length == 0 || length > 8 {
 		return nil, fmt.Errorf("supported MKI length between 1 and 8 bytes, got %d", length)
 	}
-	maxValue := uint64(1) << (length * 8)
-	if value >= maxValue {
+	if length < 8 && value >= uint64(1)<<(length*8) {
 		return nil, fmt.Errorf("value %d is too large for %d bytes", value, length)
 	}
 
-- 
2.43.0


From 1d7c3e4e76ad1654adb70d6cff60494f404467e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 17/30] fix: SRTP key identifiers without a lifetime were
 rejected

---
 sdp/offer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdp/offer.go b/sdp/offer.go
index b0b1ed3..644482f 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -464,6 +464,10 @@ func parseSRTPProfile(val string) (*srtp.Profile, error) {
 
 	// Split by '|' per RFC 4568 6.1
 	parts := strings.Split(skey, "|")
+	if len(parts) == 2 && strings.Contains(parts[1], ":") {
+		// Lifetime is optional, and only MKI contains a colon
+		parts = []string{parts[0], "", parts[1]}
+	}
 	keyMaterial := parts[0] // First part is always the base64-encoded key+salt
 
 	keys, err := base64.RawStdEncoding.DecodeString(keyMaterial)
-- 
2.43.0


From 13dba46d23d2f59a042a8b02d0f75a7dd9d65728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 18/30] fix: SDP payload types above 255 were taken for other
 types

---
 sdp/offer.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index 644482f..8ee21b6 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -516,6 +516,12 @@ func parseSRTPProfile(val string) (*srtp.Profile, error) {
 	}, nil
 }
 
+// Returns RTP payload type, which is a 7 bit number.
+func parsePayloadType(s string) (byte, error) {
+	typ, err := strconv.ParseUint(s, 10, 7)
+	return byte(typ), err
+}
+
 func ParseMedia(d *sdp.MediaDescription) (*MediaDesc, error) {
 	var out MediaDesc
 	for _, m := range d.Attributes {
@@ -525,18 +531,18 @@ func ParseMedia(d *sdp.MediaDescription) (*MediaDesc, error) {
 			if len(sub) != 2 {
 				continue
 			}
-			typ, err := strconv.Atoi(sub[0])
+			typ, err := parsePayloadType(sub[0])
 			if err != nil {
 				continue
 			}
 			name := sub[1]
 			if name == dtmf.SDPName || name == dtmf.SDPName+"/1" {
-				out.DTMFType = byte(typ)
+				out.DTMFType = typ
 				continue
 			}
 			codec, _ := CodecByName(name).(rtp.AudioCodec)
 			out.Codecs = append(out.Codecs, CodecInfo{
-				Type:  byte(typ),
+				Type:  typ,
 				Codec: codec,
 			})
 		case "crypto":
@@ -550,16 +556,16 @@ func ParseMedia(d *sdp.MediaDescription) (*MediaDesc, error) {
 		}
 	}
 	for _, f := range d.MediaName.Formats {
-		typ, err := strconv.Atoi(f)
+		typ, err := parsePayloadType(f)
 		if err != nil {
 			continue
 		}
-		codec, _ := rtp.CodecByPayloadType(byte(typ)).(rtp.AudioCodec)
+		codec, _ := rtp.CodecByPayloadType(typ).(rtp.AudioCodec)
 		if !media.CodecEnabled(codec) {
 			codec = nil
 		}
 		out.Codecs = append(out.Codecs, CodecInfo{
-			Type:  byte(typ),
+			Type:  typ,
 			Codec: codec,
 		})
 	}
-- 
2.43.0


From 0a8159aa2364739c47882ea3c60ef9082025334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 19/30] fix: telephone events were only recognized in lower
 case in SDP

---
 sdp/offer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index 8ee21b6..f06eee6 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -536,7 +536,7 @@ func ParseMedia(d *sdp.MediaDescription) (*MediaDesc, error) {
 				continue
 			}
 			name := sub[1]
-			if name == dtmf.SDPName || name == dtmf.SDPName+"/1" {
+			if strings.EqualFold(name, dtmf.SDPName) || strings.EqualFold(name, dtmf.SDPName+"/1") {
 				out.DTMFType = typ
 				continue
 			}
-- 
2.43.0


From c77fcb13ef303044ba509eb65ab3e8a3d106492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:54 +0000
Subject: [PATCH 20/30] fix: SRTP reads returned header extensions overwritten
 by the payload

---
 srtp/srtp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srtp/srtp.go b/srtp/srtp.go
index 09de8e6..86e85fa 100644
--- a/srtp/srtp.go
+++ b/srtp/srtp.go
@@ -166,7 +166,8 @@ func (r readStream) ReadRTP(h *prtp.Header, payload []byte) (int, error) {
 	if err = p.Unmarshal(buf[:n]); err != nil {
 		return 0, err
 	}
-	*h = p.Header
+	// Header extensions refer to the same buffer that we copy the payload to.
+	*h = p.Header.Clone()
 	n = copy(payload, p.Payload)
 	return n, nil
 }
-- 
2.43.0


From 388375c43c58dd226b3f0fc08706d2734a7cc685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:15 +0000
Subject: [PATCH 21/30] fix: SDP answers did not carry the crypto profile they
 negotiated

---
 sdp/offer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index f06eee6..962c4bc 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -303,6 +303,10 @@ func (d *Offer) Answer(publicIp netip.Addr, rtpListenerPort int, enc Encryption)
 		},
 		MediaDescriptions: []*sdp.MediaDescription{mediaDesc},
 	}
+	var profiles []srtp.Profile
+	if sprof != nil {
+		profiles = []srtp.Profile{*sprof}
+	}
 	src := netip.AddrPortFrom(publicIp, uint16(rtpListenerPort))
 	return &Answer{
 			SDP:  answer,
@@ -311,7 +315,8 @@ func (d *Offer) Answer(publicIp netip.Addr, rtpListenerPort int, enc Encryption)
 				Codecs: []CodecInfo{
 					{Type: audio.Type, Codec: audio.Codec},
 				},
-				DTMFType: audio.DTMFType,
+				DTMFType:       audio.DTMFType,
+				CryptoProfiles: profiles,
 			},
 		}, &MediaConfig{
 			Local:  src,
-- 
2.43.0


From fc70ed72ee95395f9b3734852ca2f651c8d9efe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 22/30] fix: resampler drops input that does not fit into the
 output buffer

---
 resample_soxr.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resample_soxr.go b/resample_soxr.go
index c290992..0cc4f57 100644
--- a/resample_soxr.go
+++ b/resample_soxr.go
@@ -162,6 +162,7 @@ type soxrResampler struct {
 	srcRate int
 	dstRate int
 	maxIn   int
+	rest    PCM16Sample // input not consumed yet, less than one output sample
 	done    *atomic.Bool
 }
 
@@ -221,6 +222,11 @@ func (r *soxrResampler) Resample(out PCM16Sample, in PCM16Sample) (PCM16Sample,
 	if r.ptr == nil || r.done.Load() {
 		return out, 0, errors.New("resampler is closed")
 	}
+	if len(in) != 0 && len(r.rest) != 0 {
+		// Input that was left from the previous call goes first.
+		r.rest = append(r.rest, in...)
+		in = r.rest
+	}
 	r.maxIn = max(r.maxIn, len(in))
 	dstN := (len(in) * r.dstRate) / r.srcRate
 	if dstN == 0 {
@@ -257,6 +263,8 @@ func (r *soxrResampler) Resample(out PCM16Sample, in PCM16Sample) (PCM16Sample,
 			break
 		}
 	}
+	// Output is full, keep the input that was not consumed for the next call.
+	r.rest = append(r.rest[:0], in...)
 	// Finally adjust the length to cover written data.
 	out = out[:len(out)+total]
 	return out, total, nil
-- 
2.43.0


From 93744fd5b925016c212927e4ceb3d1b24b551769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 23/30] fix: resampler loses the end of the stream when it does
 not fit into one buffer

---
 resample_soxr.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/resample_soxr.go b/resample_soxr.go
index 0cc4f57..a03b617 100644
--- a/resample_soxr.go
+++ b/resample_soxr.go
@@ -97,11 +97,17 @@ func (w *resampleWriter) SampleRate() int {
 func (w *resampleWriter) Close() error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
-	// Flush soxr buffer to our buffer.
+	// Flush soxr buffer to our buffer. It might not fit in one call.
 	var err error
-	w.buf, _, err = w.r.Resample(w.buf, nil)
-	if err != nil {
-		return err
+	for {
+		var n int
+		w.buf, n, err = w.r.Resample(w.buf, nil)
+		if err != nil {
+			return err
+		}
+		if n == 0 {
+			break
+		}
 	}
 	// Close soxr resampler.
 	_ = w.r.Close()
-- 
2.43.0


From 353ee95f219661fa9f44c9c1dce2950d68dbeb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 24/30] fix: resampler frees static error strings

---
 resample_soxr.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resample_soxr.go b/resample_soxr.go
index a03b617..fec19d1 100644
--- a/resample_soxr.go
+++ b/resample_soxr.go
@@ -18,7 +18,6 @@ package media
 
 /*
 #cgo pkg-config: soxr
-#include <stdlib.h>
 #include <soxr.h>
 */
 import "C"
@@ -176,7 +175,7 @@ func soxrErr(e C.soxr_error_t) error {
 	if e == nil {
 		return nil
 	}
-	defer C.free(unsafe.Pointer(e))
+	// Errors are static strings and must not be freed.
 	estr := C.GoString(e)
 	switch estr {
 	case "", "0":
-- 
2.43.0


From 1fd01bc5665c73e9e6412500ee7252aa958a7396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 25/30] fix: G722 encoder panics on frames with an odd number
 of samples

---
 g722/g722.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/g722/g722.go b/g722/g722.go
index 0030fc7..16f6d5d 100644
--- a/g722/g722.go
+++ b/g722/g722.go
@@ -18,6 +18,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"slices"
 	"sync/atomic"
 
 	"github.com/gotranspile/g722"
@@ -152,6 +153,10 @@ func (e *Encoder) Close() error {
 }
 
 func (e *Encoder) WriteSample(in media.PCM16Sample) error {
+	if e.f&g722.FlagSampleRate8000 == 0 && len(in)%2 != 0 {
+		// Samples are encoded in pairs, repeat the last one to complete it.
+		in = append(slices.Clip(in), in[len(in)-1])
+	}
 	sz := encodeSize(e.f, len(in))
 	if cap(e.buf) < sz {
 		e.buf = make(Sample, sz)
-- 
2.43.0


From a81212d1ae1611ea51fda70973200ddee454cb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:47 +0000
Subject: [PATCH 26/30] fix: Mux.String reads the handlers without holding the
 lock

---
 rtp/mux.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rtp/mux.go b/rtp/mux.go
index feaf724..893c55a 100644
--- a/rtp/mux.go
+++ b/rtp/mux.go
@@ -38,6 +38,8 @@ type Mux struct {
 }
 
 func (m *Mux) String() string {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	var buf strings.Builder
 	buf.WriteString("Mux")
 	for t, h := range m.static {
-- 
2.43.0


From 7920d21f7cb0d60d92fecf970d056cf38d02ab5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:47 +0000
Subject: [PATCH 27/30] fix: stopped mixer with an output channel never ends
 its mixing goroutine

---
 mixer/mixer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mixer/mixer.go b/mixer/mixer.go
index 9ed82e8..b104730 100644
--- a/mixer/mixer.go
+++ b/mixer/mixer.go
@@ -226,7 +226,10 @@ func (m *Mixer) mixOnce() {
 			m.stats.BlockedMixes.Add(1)
 			// Blocking, mimics behavior witohut channel
 			// TODO: Consider, carefully, dropping when blocked
-			m.outchan <- out
+			select {
+			case m.outchan <- out:
+			case <-m.stopped.Watch(): // writer is gone
+			}
 		}
 	}
 }
-- 
2.43.0


From 2446949aafcfe0562d9e2486ce40bc937fe84fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:47 +0000
Subject: [PATCH 28/30] fix: Mixer.String reads the inputs without holding the
 lock

---
 mixer/mixer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mixer/mixer.go b/mixer/mixer.go
index b104730..626a8e7 100644
--- a/mixer/mixer.go
+++ b/mixer/mixer.go
@@ -346,6 +346,8 @@ func (m *Mixer) RemoveInput(inp *Input) {
 }
 
 func (m *Mixer) String() string {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	return fmt.Sprintf("Mixer(%d) -> %s", len(m.inputs), m.out.String())
 }
 
-- 
2.43.0


From c3303edc1dc3934e86672301324392a18a8eb35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:25 +0000
Subject: [PATCH 29/30] fix: sdp: IPv6 addresses are described with address
 type IP6

NewOffer and Answer wrote "IN IP4" in front of IPv6 addresses in the origin
and connection lines.
---
 sdp/offer.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index 962c4bc..82c6e85 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -212,6 +212,14 @@ type Offer Description
 
 type Answer Description
 
+// addressType returns the SDP address type of an IP (RFC 8866, section 5.7).
+func addressType(ip netip.Addr) string {
+	if ip.Is6() {
+		return "IP6"
+	}
+	return "IP4"
+}
+
 func NewOffer(publicIp netip.Addr, rtpListenerPort int, encrypted Encryption) (*Offer, error) {
 	sessId := rand.Uint64() // TODO: do we need to track these?
 
@@ -226,13 +234,13 @@ func NewOffer(publicIp netip.Addr, rtpListenerPort int, encrypted Encryption) (*
 			SessionID:      sessId,
 			SessionVersion: sessId,
 			NetworkType:    "IN",
-			AddressType:    "IP4",
+			AddressType:    addressType(publicIp),
 			UnicastAddress: publicIp.String(),
 		},
 		SessionName: "LiveKit",
 		ConnectionInformation: &sdp.ConnectionInformation{
 			NetworkType: "IN",
-			AddressType: "IP4",
+			AddressType: addressType(publicIp),
 			Address:     &sdp.Address{Address: publicIp.String()},
 		},
 		TimeDescriptions: []sdp.TimeDescription{
@@ -284,13 +292,13 @@ func (d *Offer) Answer(publicIp netip.Addr, rtpListenerPort int, enc Encryption)
 			SessionID:      d.SDP.Origin.SessionID,
 			SessionVersion: d.SDP.Origin.SessionID + 2,
 			NetworkType:    "IN",
-			AddressType:    "IP4",
+			AddressType:    addressType(publicIp),
 			UnicastAddress: publicIp.String(),
 		},
 		SessionName: "LiveKit",
 		ConnectionInformation: &sdp.ConnectionInformation{
 			NetworkType: "IN",
-			AddressType: "IP4",
+			AddressType: addressType(publicIp),
 			Address:     &sdp.Address{Address: publicIp.String()},
 		},
 		TimeDescriptions: []sdp.TimeDescription{
-- 
2.43.0


From 7c79fbaaa4f9042f0494ff70804aa6650adcd77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:15 +0000
Subject: [PATCH 30/30] fix: jitter handler keeps its own copy of the packets
 it holds back

---
 rtp/jitter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtp/jitter.go b/rtp/jitter.go
index a081891..bdd44f1 100644
--- a/rtp/jitter.go
+++ b/rtp/jitter.go
@@ -15,6 +15,7 @@
 package rtp
 
 import (
+	"slices"
 	"time"
 
 	"github.com/pion/rtp"
@@ -64,7 +65,8 @@ func (r *jitterHandler) handleRTP(p *rtp.Packet) {
 
 func (r *jitterHandler) HandleRTP(h *rtp.Header, payload []byte) error {
 	// This may call handleRTP, possibly multiple times.
-	r.buf.Push(&rtp.Packet{Header: *h, Payload: payload})
+	// The packet may be held back, while the caller is free to reuse the header and the payload.
+	r.buf.Push(&rtp.Packet{Header: h.Clone(), Payload: slices.Clone(payload)})
 	select {
 	case err := <-r.err:
 		return err
-- 
2.43.0

