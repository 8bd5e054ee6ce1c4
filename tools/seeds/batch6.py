SEEDS=[
dict(id='nopcloser-passthrough', property='C14', pkg='.',
 edits=[('media.go','''	return &writeCloser[T]{w}
''','''	if wc, ok := w.(WriteCloser[T]); ok {
		return wc
	}
	return &writeCloser[T]{w}
''')],
 needs='wrapping a writer that can be closed itself',
 breaks='closing the no-op closer closes the writer behind it',
 demo='''package media

import "testing"

type zzW struct{ closed int }

func (w *zzW) String() string                  { return "" }
func (w *zzW) SampleRate() int                 { return 8000 }
func (w *zzW) WriteSample(s PCM16Sample) error { return nil }
func (w *zzW) Close() error                    { w.closed++; return nil }

func TestZZDemo(t *testing.T) {
	w := &zzW{}
	_ = NopCloser[PCM16Sample](w).Close()
	if w.closed != 0 { t.Fatal("closed") }
}
'''),
dict(id='g722-dump-shared', property='C13', pkg='g722',
 edits=[('g722/g722.go','''		id := g722ID.Add(1)
		pref := fmt.Sprintf("sip_g722_enc_%d", id)''','''		id := g722ID.Load()
		pref := fmt.Sprintf("sip_g722_enc_%d", id)''')],
 needs='two encoders in a row while dumping is on',
 breaks='the dumps of two streams end up in one file',
 demo='''package g722

import (
	"os"
	"testing"

	"github.com/livekit/media-sdk"
)

type zzW struct{}

func (w *zzW) String() string             { return "" }
func (w *zzW) SampleRate() int            { return 16000 }
func (w *zzW) WriteSample(s Sample) error { return nil }
func (w *zzW) Close() error               { return nil }

func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	old, _ := os.Getwd()
	if err := os.Chdir(d); err != nil { t.Fatal(err) }
	defer os.Chdir(old)
	dumpToFile = true
	a, b := Encode(&zzW{}), Encode(&zzW{})
	_ = a.WriteSample(make(media.PCM16Sample, 320))
	_ = a.Close()
	_ = b.Close()
	l, _ := os.ReadDir(d)
	if len(l) != 4 { t.Fatal("files", len(l)) }
}
'''),
dict(id='sdp-answer-unmap', property='S09', pkg='sdp',
 edits=[('sdp/offer.go','''			SessionID:      d.SDP.Origin.SessionID,
			SessionVersion: d.SDP.Origin.SessionID + 2,
			NetworkType:    "IN",
			AddressType:    addressType(publicIp),
			UnicastAddress: publicIp.String(),''','''			SessionID:      d.SDP.Origin.SessionID,
			SessionVersion: d.SDP.Origin.SessionID + 2,
			NetworkType:    "IN",
			AddressType:    addressType(publicIp),
			UnicastAddress: publicIp.Unmap().String(),''')],
 needs='answering with an IPv4-mapped IPv6 address',
 breaks='the origin line of the answer has an IPv4 address of type IP6',
 demo='''package sdp

import (
	"net/netip"
	"testing"

	_ "github.com/livekit/media-sdk/g711"
)

func TestZZDemo(t *testing.T) {
	o, err := NewOffer(netip.MustParseAddr("1.2.3.4"), 4000, EncryptionNone)
	if err != nil { t.Fatal(err) }
	ip := netip.MustParseAddr("::ffff:1.2.3.4")
	a, _, err := o.Answer(ip, 4002, EncryptionNone)
	if err != nil { t.Fatal(err) }
	if or := a.SDP.Origin; or.UnicastAddress != ip.String() { t.Fatal(or) }
}
'''),
dict(id='session-queue-short', property='P01', pkg='rtp',
 edits=[('rtp/session.go','make(chan *rtp.Packet, 10)','make(chan *rtp.Packet, 1)')],
 needs='packets that arrive faster than they are read',
 breaks='frames of a burst are lost although the network delivered them',
 demo='''package rtp

import (
	"errors"
	"net"
	"testing"

	"github.com/pion/rtp"
)

type zzC struct {
	net.Conn
	in [][]byte
}

func (c *zzC) Read(p []byte) (int, error) {
	if len(c.in) == 0 { return 0, errors.New("idle") }
	b := c.in[0]
	c.in = c.in[1:]
	return copy(p, b), nil
}

func TestZZDemo(t *testing.T) {
	c := &zzC{}
	for i := 0; i < 4; i++ {
		b, _ := (&rtp.Packet{Header: rtp.Header{Version: 2, SSRC: 1, SequenceNumber: uint16(i)}, Payload: []byte{byte(i)}}).Marshal()
		c.in = append(c.in, b)
	}
	s := NewSession(nil, c)
	r, _, err := s.AcceptStream()
	if err != nil { t.Fatal(err) }
	_, _, _ = s.AcceptStream()
	for i := 0; i < 4; i++ {
		if len(r.(*readStream).recv) == 0 { t.Fatal("packet", i, "is lost") }
		var h rtp.Header
		_, _ = r.ReadRTP(&h, make([]byte, 10))
	}
}
'''),
dict(id='mix-tmp-shrunk', property='X01', pkg='mixer',
 edits=[('mixer/mixer.go','inp.readSample(bufMin, m.mixTmp[:len(m.mixBuf)])','inp.readSample(bufMin, m.mixTmp)')],
 needs='an input that delivers less than a frame before another input is mixed',
 breaks='the other inputs of that and later mixes are cut to the short length',
 demo='''package mixer

import (
	"testing"

	msdk "github.com/livekit/media-sdk"
)

type zzW struct{ got []msdk.PCM16Sample }

func (w *zzW) String() string  { return "" }
func (w *zzW) SampleRate() int { return 8000 }
func (w *zzW) WriteSample(s msdk.PCM16Sample) error {
	w.got = append(w.got, append(msdk.PCM16Sample{}, s...))
	return nil
}

func TestZZDemo(t *testing.T) {
	w := &zzW{}
	m := newMixer(w, 4, WithInputBufferFrames(1))
	a, b := m.NewInput(), m.NewInput()
	four := msdk.PCM16Sample{1, 1, 1, 1}
	_ = a.WriteSample(four)
	_ = b.WriteSample(four)
	m.mixOnce()
	_ = a.WriteSample(four[:2])
	_ = b.WriteSample(four)
	m.mixOnce()
	if g := w.got[1]; g[0] != 2 || g[3] != 1 { t.Fatal(g) }
}
'''),
dict(id='pipe-empty-write', property='C09', pkg='.',
 edits=[('pipe.go','for once := true; once || len(b) > 0; once = false {','for len(b) > 0 {')],
 needs='writing an empty sample',
 breaks='an empty write does not reach the reader',
 demo='''package media

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	r, w := Pipe[PCM16Sample, int16](8000)
	done := make(chan int, 1)
	go func() {
		n, _ := r.ReadSample(make(PCM16Sample, 4))
		done <- n
	}()
	go w.WriteSample(nil)
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("the reader waits")
	}
}
'''),
dict(id='jitter-incomplete-exact', property='J03', pkg='jitter',
 edits=[('jitter/packet.go','''		if c.next.extPacket.SequenceNumber != c.extPacket.SequenceNumber+1 {
			return false
		}''','''		if c.next.extPacket.SequenceNumber > c.extPacket.SequenceNumber+1 {
			return false
		}''')],
 needs='a sample of several packets with one missing, right where the sequence number wraps',
 breaks='a sample with a missing packet is delivered as complete',
 demo='''package jitter

import (
	"testing"
	"time"

	"github.com/pion/rtp"
)

type zzD struct{}

func (zzD) Unmarshal(p []byte) ([]byte, error)   { return p, nil }
func (zzD) IsPartitionHead(p []byte) bool         { return p[0] == 1 }
func (zzD) IsPartitionTail(m bool, p []byte) bool { return m }

func TestZZDemo(t *testing.T) {
	n := 0
	b := NewBuffer(zzD{}, time.Hour, func(p []ExtPacket) { n += len(p) })
	defer b.Close()
	for i, sn := range []uint16{65533, 65534, 0} {
		p := &rtp.Packet{Header: rtp.Header{SequenceNumber: sn, Marker: i == 2}, Payload: []byte{2}}
		if i == 0 { p.Payload[0] = 1 }
		b.Push(p)
	}
	if n != 0 { t.Fatal("incomplete sample delivered") }
}
'''),
]
