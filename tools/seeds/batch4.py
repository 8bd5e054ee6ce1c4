JB='''package jitter

import (
	"testing"
	"time"
	"github.com/pion/rtp"
)

type zzD struct{}

func (zzD) Unmarshal(p []byte) ([]byte, error)          { return p, nil }
func (zzD) IsPartitionHead(p []byte) bool                { return p[0]&1 != 0 }
func (zzD) IsPartitionTail(m bool, p []byte) bool        { return p[0]&2 != 0 }

func zzP(sn uint16, fl byte) *rtp.Packet {
	return &rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: sn}, Payload: []byte{fl}}
}

var zzGot []uint16

func zzB(lat time.Duration) *Buffer {
	zzGot = nil
	return NewBuffer(zzD{}, lat, func(p []ExtPacket) {
		for _, q := range p { zzGot = append(zzGot, q.SequenceNumber) }
	})
}
'''
SEEDS=[
dict(id='webm-dur-trunc', property='W01', pkg='webm',
 edits=[('webm/writer.go','dur: sampleDur}','dur: sampleDur.Truncate(time.Millisecond)}')],
 needs='a frame duration which is not a whole number of milliseconds, and several frames',
 breaks='block times drift away from the media time',
 demo='''package webm

import (
	"testing"
	"time"
	"github.com/at-wat/ebml-go/webm"
)

type zzBlk struct{ ts []int64 }

func (b *zzBlk) Write(k bool, ts int64, p []byte) (int, error) { b.ts = append(b.ts, ts); return len(p), nil }
func (b *zzBlk) Close() error                                     { return nil }

type zzNop struct{}

func (zzNop) Write(p []byte) (int, error) { return len(p), nil }
func (zzNop) Close() error                { return nil }

func TestZZDemo(t *testing.T) {
	w := NewPCM16Writer(zzNop{}, 8000, 1, 2500*time.Microsecond).(*writer[media_])
	b := &zzBlk{}
	var _ webm.BlockWriteCloser = b
	w.ws = b
	for i := 0; i < 5; i++ {
		if err := w.WriteSample(make(media_, 20)); err != nil { t.Fatal(err) }
	}
	if b.ts[4] != 10 { t.Fatal(b.ts) }
}
'''.replace('"testing"','"testing"\n\tmsdk "github.com/livekit/media-sdk"').replace('type zzBlk','type media_ = msdk.PCM16Sample\n\ntype zzBlk')),
dict(id='g711-lowest-code', property='G02', pkg='g711',
 edits=[('g711/g711.go','\ttable[0] = table[1]\n','')],
 needs='one of the four lowest sample values encoded to A-law',
 breaks='the most negative samples are encoded as a much quieter value',
 demo='''package g711

import "testing"

func TestZZDemo(t *testing.T) {
	var s ALawSample
	s.Encode([]int16{-32768, -32765, -32764})
	d := s.Decode()
	if d[0] > -31000 || d[1] > -31000 || d[2] > -31000 { t.Fatal(d) }
}
'''),
dict(id='g711-last-code', property='G01', pkg='g711',
 edits=[('g711/g711.go','''	for i := range table {
		table[i] = int16(log2lin(byte(i)))
	}''','''	for v := byte(0); v < 0xff; v++ {
		table[v] = int16(log2lin(v))
	}''')],
 needs='the byte 0xff decoded from A-law',
 breaks='one A-law code decodes to silence',
 demo='''package g711

import "testing"

func TestZZDemo(t *testing.T) {
	d := ALawSample{0xff, 0xfe}.Decode()
	if d[0] != 848 { t.Fatal(d) }
}
'''),
dict(id='res-tail-drop', property='E01', pkg='res',
 edits=[('res/embed.go','''	for len(samples) > 0 {
		cur := samples
		if len(cur) > perFrame {
			cur = cur[:perFrame]
		}
''','''	for len(samples) >= perFrame {
		cur := samples[:perFrame]
''')],
 needs='a resource whose length is not a multiple of 20 ms',
 breaks='the last samples of the resource are lost',
 demo='''package res

import (
	"bytes"
	"io"
	"testing"

	"github.com/jfreymuth/oggvorbis"
)

func TestZZDemo(t *testing.T) {
	for _, data := range [][]byte{EnterPinOgg, RoomJoinOgg, WrongPinOgg} {
		all, _, err := oggvorbis.ReadAll(bytes.NewReader(data))
		if err != nil && err != io.EOF { t.Fatal(err) }
		n := 0
		for _, f := range ReadOggAudioFile(data, SampleRate, 1) { n += len(f) }
		if n != len(all) { t.Fatal(n, len(all)) }
	}
}
'''),
dict(id='session-mtu-exact', property='R05', pkg='rtp',
 edits=[('rtp/session.go','make([]byte, MTUSize+1), // larger buffer to detect overflow','make([]byte, MTUSize),')],
 needs='a datagram larger than the MTU',
 breaks='oversized datagrams are delivered truncated instead of being ignored',
 demo='''package rtp

import (
	"io"
	"net"
	"testing"
	"time"

	prtp "github.com/pion/rtp"
)

type zzConn struct {
	net.Conn
	q [][]byte
}

func (c *zzConn) Read(b []byte) (int, error) {
	if len(c.q) == 0 { return 0, io.EOF }
	n := copy(b, c.q[0])
	c.q = c.q[1:]
	return n, nil
}
func (c *zzConn) Close() error { return nil }

func TestZZDemo(t *testing.T) {
	mk := func(ssrc uint32, n int) []byte {
		p := prtp.Packet{Header: prtp.Header{Version: 2, SSRC: ssrc}, Payload: make([]byte, n)}
		b, _ := p.Marshal()
		return b
	}
	s := NewSession(nil, &zzConn{q: [][]byte{mk(1, MTUSize+100), mk(2, 10)}})
	_, ssrc, err := s.AcceptStream()
	if err != nil || ssrc != 2 { t.Fatal(ssrc, err) }
	_ = time.Now
}
'''),
dict(id='srtp-read-padding', property='S08', pkg='srtp',
 edits=[('srtp/srtp.go','''	if err = p.Unmarshal(buf[:n]); err != nil {
		return 0, err
	}
''','''	hsz, err := p.Header.Unmarshal(buf[:n])
	if err != nil {
		return 0, err
	}
	p.Payload = buf[hsz:n]
''')],
 needs='a packet with RTP padding',
 breaks='the padding is handed over as part of the payload',
 demo='''package srtp

import (
	"bytes"
	"net"
	"testing"

	prtp "github.com/pion/rtp"
	"github.com/pion/srtp/v3"
	"github.com/livekit/media-sdk/rtp"
)

func TestZZDemo(t *testing.T) {
	l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil { t.Fatal(err) }
	a, err := net.DialUDP("udp", nil, l.LocalAddr().(*net.UDPAddr))
	if err != nil { t.Fatal(err) }
	key, salt := bytes.Repeat([]byte{1}, 16), bytes.Repeat([]byte{2}, 14)
	conf := &Config{Profile: srtp.ProtectionProfileAes128CmHmacSha1_80, Keys: SessionKeys{LocalMasterKey: key, LocalMasterSalt: salt, RemoteMasterKey: key, RemoteMasterSalt: salt}}
	rx, err := NewSession(nil, l2{l}, conf)
	if err != nil { t.Fatal(err) }
	ctx, err := srtp.CreateContext(key, salt, conf.Profile)
	if err != nil { t.Fatal(err) }
	p := prtp.Packet{Header: prtp.Header{Version: 2, SSRC: 7, Padding: true}, Payload: []byte("abc"), PaddingSize: 5}
	raw, err := p.Marshal()
	if err != nil { t.Fatal(err) }
	enc, err := ctx.EncryptRTP(nil, raw, nil)
	if err != nil { t.Fatal(err) }
	a.Write(enc)
	r, _, err := rx.AcceptStream()
	if err != nil { t.Fatal(err) }
	var h rtp.Header
	buf := make([]byte, 1500)
	n, err := r.ReadRTP(&h, buf)
	if err != nil || string(buf[:n]) != "abc" { t.Fatal(err, buf[:n]) }
}

type l2 struct{ *net.UDPConn }

func (c l2) Write(b []byte) (int, error) { return len(b), nil }
'''),
dict(id='jit-complete-wrap', property='J03', pkg='jitter',
 edits=[('jitter/packet.go','c.next.extPacket.SequenceNumber != c.extPacket.SequenceNumber+1','int(c.next.extPacket.SequenceNumber)-int(c.extPacket.SequenceNumber) != 1')],
 needs='a sample of several packets whose sequence numbers wrap around inside it',
 breaks='the sample is never complete and is dropped',
 demo=JB+'''
func TestZZDemo(t *testing.T) {
	b := zzB(time.Minute)
	defer b.Close()
	b.Push(zzP(65535, 1))
	b.Push(zzP(0, 2))
	if len(zzGot) != 2 { t.Fatal(zzGot) }
}
'''),
dict(id='jit-range-behind', property='J07', pkg='jitter',
 edits=[('jitter/buffer.go','	return a-b < 3000 || b-a < 3000','	return a-b < 3000 || b-a < 6000')],
 needs='a restart of the stream with a sequence number a few thousand behind',
 breaks='the new stream is dropped as late packets',
 demo=JB+'''
func TestZZDemo(t *testing.T) {
	b := zzB(time.Minute)
	defer b.Close()
	b.Push(zzP(10000, 3))
	b.Push(zzP(6000, 3))
	b.Push(zzP(6001, 3))
	if len(zzGot) != 3 { t.Fatal(zzGot) }
}
'''),
dict(id='srtp-shared-key', property='S03', pkg='srtp',
 edits=[('srtp/srtp.go','''	out := make([]Profile, 0, len(defaultProfiles))
''','''	out := make([]Profile, 0, len(defaultProfiles))
	var key, salt []byte
'''),('srtp/srtp.go','''		key := make([]byte, keyLen)
		salt := make([]byte, saltLen)
''','''		if cap(key) < keyLen {
			key = make([]byte, keyLen)
		}
		if cap(salt) < saltLen {
			salt = make([]byte, saltLen)
		}
		key, salt = key[:keyLen], salt[:saltLen]
''')],
 needs='two generated profiles with equal key lengths',
 breaks='generated profiles share their key and salt',
 demo='''package srtp

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	p, err := DefaultProfiles()
	if err != nil { t.Fatal(err) }
	for i := range p {
		for j := range i {
			if bytes.Equal(p[i].Key, p[j].Key) || bytes.Equal(p[i].Salt, p[j].Salt) { t.Fatal(i, j) }
		}
	}
}
'''),
dict(id='srtp-mki-signed', property='S04', pkg='sdp',
 edits=[('sdp/offer.go','''	value, err := strconv.ParseUint(parts[0], 10, 64)
''','''	signed, err := strconv.ParseInt(parts[0], 10, 64)
	value := uint64(signed)
''')],
 needs='an eight byte key identifier in the upper half of its range, or a negative one',
 breaks='valid key identifiers are rejected and negative ones accepted',
 demo='''package sdp

import "testing"

func TestZZDemo(t *testing.T) {
	m, err := parseMKI("18446744073709551614:8")
	if err != nil || m[7] != 0xfe || m[0] != 0xff { t.Fatal(m, err) }
	if _, err := parseMKI("-1:8"); err == nil { t.Fatal("accepted") }
}
'''),
dict(id='dtmf-unknown-zero', property='D02', pkg='dtmf',
 edits=[('dtmf/dtmf.go','if events != nil && len(freq) != 0 {','if events != nil && code != 0xff {')],
 needs='a character which is not a digit in the sequence',
 breaks='an event for the digit 0 is sent for it',
 demo='''package dtmf

import (
	"context"
	"testing"

	"github.com/livekit/media-sdk/rtp"
)

func TestZZDemo(t *testing.T) {
	var b rtp.Buffer
	s := rtp.NewSeqWriter(&b).NewStream(101, SampleRate)
	if err := Write(context.Background(), nil, s, 0, "x"); err != nil { t.Fatal(err) }
	if len(b) != 0 { t.Fatal(len(b)) }
}
'''),
dict(id='rtp-in-dedup', property='R08', pkg='rtp',
 edits=[('rtp/rtp.go','''	Writer media.Writer[T]
}
''','''	Writer media.Writer[T]
	last   uint16
}
'''),('rtp/rtp.go','''HandleRTP(_ *rtp.Header, payload []byte) error {
	return s.Writer''','''HandleRTP(h *rtp.Header, payload []byte) error {
	if h.SequenceNumber == s.last {
		return nil // duplicate
	}
	s.last = h.SequenceNumber
	return s.Writer''')],
 needs='a stream starting with sequence number 0',
 breaks='the first packet is taken for a duplicate and lost',
 demo='''package rtp

import (
	"testing"

	msdk "github.com/livekit/media-sdk"
)

type zzF = msdk.PCM16Sample
type zzB []byte

func (s zzB) Size() int { return len(s) }
func (s zzB) CopyTo(d []byte) (int, error) { return copy(d, s), nil }

type zzW struct{ n int }

func (w *zzW) String() string            { return "" }
func (w *zzW) SampleRate() int           { return 8000 }
func (w *zzW) WriteSample(s zzB) error   { w.n++; return nil }

func TestZZDemo(t *testing.T) {
	w := &zzW{}
	in := NewMediaStreamIn[zzB](w)
	var b Buffer
	out := NewMediaStreamOut[zzB](NewSeqWriter(&b).NewStream(0, 8000), 8000)
	for i := 0; i < 3; i++ { out.WriteSample(zzB{1}) }
	for _, p := range b { in.HandleRTP(&p.Header, p.Payload) }
	if w.n != 3 { t.Fatal(w.n) }
}
'''),
dict(id='stereo-reslice', property='C04', pkg='.',
 edits=[('pcm.go','''	if len(dst) < len(src)*2 {
		panic("dst too small")
	}
	// duplicate''','''	dst = dst[:len(src)*2] // panics if it's too small
	// duplicate'''),('pcm.go','''	if len(dst) < n {
		panic("dst too small")
	}
''','''	dst = dst[:n] // panics if it's too small
''')],
 needs='a destination slice which is too short but has spare capacity',
 breaks='samples are written behind the end of the destination instead of panicking',
 demo='''package media

import "testing"

func TestZZDemo(t *testing.T) {
	back := make(PCM16Sample, 8)
	func() {
		defer func() { recover() }()
		MonoToStereo(back[:2], PCM16Sample{1, 2})
		t.Error("no panic")
	}()
	if back[2] != 0 { t.Error(back) }
}
'''),
dict(id='mix-out-reuse', property='C05', pkg='mixer',
 edits=[('mixer/mixer.go','''	out := make(msdk.PCM16Sample, len(m.mixBuf)) // Can be buffered by either channel or m.out
''','''	var out msdk.PCM16Sample
	if m.outchan == nil {
		out = m.mixTmp[:len(m.mixBuf)] // not needed until the next mix
	} else {
		out = make(msdk.PCM16Sample, len(m.mixBuf)) // buffered by the channel
	}
''')],
 needs='an output which keeps the frames, and a mixer without an output channel',
 breaks='frames that were handed over change with the next mix',
 demo='''package mixer

import (
	"testing"
	"time"

	msdk "github.com/livekit/media-sdk"
)

type zzW struct{ got []msdk.PCM16Sample }

func (w *zzW) String() string  { return "" }
func (w *zzW) SampleRate() int { return 500 }
func (w *zzW) WriteSample(s msdk.PCM16Sample) error { w.got = append(w.got, s); return nil }

func TestZZDemo(t *testing.T) {
	w := &zzW{}
	m, err := NewMixer(w, time.Hour, 1, WithInputBufferFrames(2))
	if err != nil { t.Fatal(err) }
	m.mixBuf, m.mixTmp = m.mixBuf[:2], m.mixTmp[:2]
	in := m.NewInput()
	in.WriteSample(msdk.PCM16Sample{1, 2, 3, 4})
	m.mixOnce()
	m.mixOnce()
	m.Stop()
	if w.got[0][0] != 1 { t.Fatal(w.got) }
}
'''),
]
