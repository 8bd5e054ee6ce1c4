package main

import (
	"context"
	"errors"
	"net"
	"net/netip"
	"time"

	prtp "github.com/pion/rtp"

	"github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vg722"
	"github.com/livekit/media-sdk/zzverif/vtime"
)

var errIdle = errors.New("nothing to read")

// wire is one end of a connection: written packets are kept, and packets put
// into in are read.
type wire struct {
	out [][]byte
	in  [][]byte
}

func (c *wire) Read(p []byte) (int, error) {
	if len(c.in) == 0 {
		return 0, errIdle
	}
	b := c.in[0]
	c.in = c.in[1:]
	return copy(p, b), nil
}
func (c *wire) Write(p []byte) (int, error) {
	c.out = append(c.out, append([]byte(nil), p...))
	return len(p), nil
}
func (c *wire) Close() error                       { return nil }
func (c *wire) LocalAddr() net.Addr                { return nil }
func (c *wire) RemoteAddr() net.Addr               { return nil }
func (c *wire) SetDeadline(t time.Time) error      { return nil }
func (c *wire) SetReadDeadline(t time.Time) error  { return nil }
func (c *wire) SetWriteDeadline(t time.Time) error { return nil }

var names = []string{g711.ULawSDPName, g711.ALawSDPName, g722.SDPName}

// enable enables the codecs of a set (bits 0-2) and telephone events (bit 3).
func enable(set int) {
	for i, n := range names {
		media.CodecSetEnabled(n, set>>i&1 == 1)
	}
	media.CodecSetEnabled(dtmf.SDPName, set>>3&1 == 1)
}

// negotiate exchanges an offer and an answer as text.
func negotiate(a, b int) (ca, cb *sdp.MediaConfig) {
	enable(a)
	offer, err := sdp.NewOffer(netip.MustParseAddr("10.0.0.1"), 5004, sdp.EncryptionNone)
	sym.Assert(err == nil, "offering failed")
	text, err := offer.SDP.Marshal()
	sym.Assert(err == nil, "the offer has no text")
	enable(b)
	got, err := sdp.ParseOffer(text)
	sym.Assert(err == nil, "the offer is not understood")
	answer, cb, err := got.Answer(netip.MustParseAddr("10.0.0.2"), 5006, sdp.EncryptionNone)
	sym.Assert(err == nil, "no answer")
	text, err = answer.SDP.Marshal()
	sym.Assert(err == nil, "the answer has no text")
	enable(a)
	back, err := sdp.ParseAnswer(text)
	sym.Assert(err == nil, "the answer is not understood")
	ca, err = back.Apply(offer, sdp.EncryptionNone)
	sym.Assert(err == nil, "the answer is not accepted")
	return ca, cb
}

// sink receives the audio of a call.
type sink struct {
	rate int
	got  []media.PCM16Sample
}

func (s *sink) String() string  { return "sink" }
func (s *sink) SampleRate() int { return s.rate }
func (s *sink) WriteSample(d media.PCM16Sample) error {
	s.got = append(s.got, append(media.PCM16Sample{}, d...))
	return nil
}

// model is what a frame sounds like after it went through the codec.
type model struct {
	name string
	enc  *vg722.Encoder
	dec  *vg722.Decoder
}

func newModel(name string) *model {
	return &model{name, vg722.NewEncoder(vg722.Rate64000, 0), vg722.NewDecoder(vg722.Rate64000, 0)}
}

func (m *model) encode(f media.PCM16Sample) []byte {
	out := make([]byte, len(f))
	switch m.name {
	case g711.ULawSDPName:
		g711.EncodeULawTo(out, f)
	case g711.ALawSDPName:
		g711.EncodeALawTo(out, f)
	default:
		out = out[:m.enc.Encode(out, f)]
	}
	return out
}

func (m *model) decode(b []byte) media.PCM16Sample {
	out := make(media.PCM16Sample, 2*len(b))
	switch m.name {
	case g711.ULawSDPName:
		g711.DecodeULawTo(out[:len(b)], b)
		return out[:len(b)]
	case g711.ALawSDPName:
		g711.DecodeALawTo(out[:len(b)], b)
		return out[:len(b)]
	default:
		return out[:m.dec.Decode(out, b)]
	}
}

// call is a call in one direction.
type call struct {
	name        string
	wa, wb      *wire
	seq         *rtp.SeqWriter
	audio       media.PCM16Writer
	events      *rtp.Stream
	frame       int // samples in 20 ms
	sess        rtp.Session
	rs          rtp.ReadStream
	mux         *rtp.Mux
	in          rtp.HandlerCloser
	out         *sink
	digits      []dtmf.Event
	sent        []byte // one letter per packet: audio or event
	frames      []media.PCM16Sample
	now         time.Duration
	undelivered int
	rh          prtp.Header
	rbuf        []byte
}

// open sets up a call from the offerer to the answerer, or back.
func open(ca, cb *sdp.MediaConfig) *call {
	c := &call{wa: &wire{}, wb: &wire{}}
	codec := ca.Audio.Codec
	c.name = codec.Info().SDPName
	rate := codec.Info().SampleRate
	c.frame = rate / rtp.DefFramesPerSec
	tx := rtp.NewSession(nil, c.wa)
	ws, err := tx.OpenWriteStream()
	sym.Assert(err == nil, "the stream cannot be opened")
	c.seq = rtp.NewSeqWriter(ws)
	c.audio = codec.EncodeRTP(c.seq.NewStream(ca.Audio.Type, codec.Info().RTPClockRate))
	sym.Assert(c.audio.SampleRate() == rate, "the audio is not taken at the codec's rate")
	if t := ca.Audio.DTMFType; t != 0 {
		c.events = c.seq.NewStream(t, dtmf.SampleRate)
	}

	c.sess = rtp.NewSession(nil, c.wb)
	c.out = &sink{rate: rate}
	c.mux = rtp.NewMux(nil)
	c.mux.Register(cb.Audio.Type, cb.Audio.Codec.DecodeRTP(c.out, cb.Audio.Type))
	if t := cb.Audio.DTMFType; t != 0 {
		c.mux.Register(t, rtp.HandlerFunc(func(h *prtp.Header, p []byte) error {
			if ev, ok := dtmf.DecodeRTP(h, p); ok {
				c.digits = append(c.digits, ev)
			}
			return nil
		}))
	}
	c.in = rtp.HandleJitter(rtp.NewNopCloser(c.mux))
	return c
}

func (c *call) speak(f media.PCM16Sample) {
	n := len(c.wa.out)
	keep := append(media.PCM16Sample{}, f...)
	sym.Assert(c.audio.WriteSample(f) == nil, "a frame cannot be sent")
	sym.Assert(len(c.wa.out) == n+1, "a frame is not one packet")
	c.frames = append(c.frames, keep)
	c.sent = append(c.sent, 'a')
}

// arrive delivers datagram i and lets the receiver handle it.
func (c *call) arrive(i int) {
	c.wb.in = append(c.wb.in, c.wa.out[i])
	c.undelivered++
	c.receive()
}

// receive reads everything that has arrived.
func (c *call) receive() {
	rs, _, err := c.sess.AcceptStream()
	if c.rs == nil {
		sym.Assert(err == nil, "the stream is not accepted")
		c.rs = rs
		if len(c.wb.in) > 0 {
			_, _, err = c.sess.AcceptStream()
			sym.Assert(err == errIdle, "another stream is accepted")
		}
	} else {
		sym.Assert(err == errIdle, "another stream is accepted")
	}
	for ; c.undelivered > 0; c.undelivered-- {
		// every packet is read into the same header and buffer
		if c.rbuf == nil {
			c.rbuf = make([]byte, rtp.MTUSize)
		}
		n, err := c.rs.ReadRTP(&c.rh, c.rbuf)
		sym.Assert(err == nil, "a packet cannot be read")
		sym.Assert(c.in.HandleRTP(&c.rh, c.rbuf[:n]) == nil, "a packet is not handled")
	}
}

// wait advances the clock.
func (c *call) wait(d time.Duration) {
	c.now += d
	vtime.Set(c.now)
	for i := 0; i < 4; i++ {
		for _, t := range vtime.Timers {
			if t.Active() && t.When() <= c.now {
				t.Fire()
			}
		}
		sym.WaitIdle()
	}
}

// heard checks that the audio frames among the first n packets except lost
// have been heard, in order.
func (c *call) heard(m *model, n int, lost int) {
	k, want := 0, []media.PCM16Sample(nil)
	for i := 0; i < n; i++ {
		if c.sent[i] != 'a' {
			continue
		}
		b := m.encode(c.frames[k])
		if i != lost {
			want = append(want, m.decode(b))
		}
		k++
	}
	sym.Assert(len(c.out.got) == len(want), "the frames sent are not the frames heard")
	for i := range want {
		sym.Assert(len(c.out.got[i]) == len(want[i]), "a frame has another length")
		for j := range want[i] {
			sym.Assert(c.out.got[i][j] == want[i][j], "a frame sounds different")
		}
	}
}

// sets are the codecs of both sides; the number is the codec they agree on.
var sets = [][3]int{{7, 7, 2}, {7, 1, 0}, {2, 3, 1}, {3, 3, 0}, {4, 6, 2}}

func agreed() *call {
	s := sets[sym.Choose("codecs", len(sets))]
	ev := sym.Choose("events", 3)
	a, b := s[0]|8, s[1]|8
	if ev == 1 {
		a &^= 8
	} else if ev == 2 {
		b &^= 8
	}
	ca, cb := negotiate(a, b)
	name := names[s[2]]
	sym.Assert(ca.Audio.Codec.Info().SDPName == name && cb.Audio.Codec.Info().SDPName == name, "the sides do not agree on the best codec")
	if ev == 0 && sym.Choose("direction", 2) == 1 {
		ca, cb = cb, ca
	}
	c := open(ca, cb)
	sym.Assert((ca.Audio.DTMFType != 0) == (cb.Audio.DTMFType != 0), "one side only uses telephone events")
	sym.Assert(c.events != nil || ev != 0, "telephone events are not agreed on when both sides have them")
	sym.Assert(c.events == nil || ev != 1, "telephone events are agreed on that were not offered")
	return c
}

// talk sends n frames and possibly an event of one packet among them.
func (c *call) talk(n int) (digit byte) {
	at := -1
	if c.events != nil {
		at = sym.Choose("event at", n+1)
		if at == 0 {
			at = -1
		}
	}
	for i := 0; i < n; i++ {
		if i == at {
			var b [4]byte
			digit = "0123456789*#abcd"[sym.Range("digit", 0, 15)]
			k, err := dtmf.Encode(b[:], dtmf.Event{Digit: digit, Volume: 10, Dur: 160})
			sym.Assert(err == nil && k == 4, "an event cannot be encoded")
			sym.Assert(c.events.WritePayload(b[:], true) == nil, "an event cannot be sent")
			c.sent = append(c.sent, 'e')
			continue
		}
		c.speak(media.PCM16Sample(sym.I16s[int16]("frame", 2)))
	}
	return digit
}

func (c *call) pressed(digit byte, n, lost int) {
	want := 0
	for i := 0; i < n; i++ {
		if c.sent[i] == 'e' && i != lost {
			want++
		}
	}
	sym.Assert(len(c.digits) == want, "the digits pressed are not the digits received")
	if want > 0 {
		sym.Assert(c.digits[0].Digit == digit, "another digit is received")
	}
}

// HCall: a short call with packets in any order.
func HCall() {
	c := agreed()
	n := sym.Bound(3, 4)
	digit := c.talk(n)
	seen := make([]bool, n)
	due := 0
	for k := 0; k < n+1 && due < n; k++ {
		i := 0
		if k > 0 {
			i = sym.Choose("which", n)
		}
		c.arrive(i)
		seen[i] = true
		for due < n && seen[due] {
			due++
		}
		c.pressed(digit, due, -1)
	}
	c.heard(newModel(c.name), due, -1)
	c.in.Close()
	sym.Assert(c.sess.Close() == nil, "the session does not close")
	sym.Reach("end")
}

// HLost: one packet is lost.
func HLost() {
	c := agreed()
	n := sym.Bound(3, 4)
	digit := c.talk(n)
	lost := sym.Choose("lost", n-1) + 1
	for i := 0; i < n; i++ {
		if i != lost {
			c.arrive(i)
		}
	}
	c.pressed(digit, lost, -1)
	c.wait(59 * time.Millisecond)
	c.pressed(digit, lost, -1)
	sym.Assert(len(c.out.got) <= lost, "a frame behind a gap was heard too early")
	c.wait(2 * time.Millisecond)
	c.pressed(digit, n, lost)
	c.heard(newModel(c.name), n, lost)
	sym.Reach("end")
}

// HLong: a call of many frames, during which digits are pressed.
func HLong() {
	n := sym.Bound(60, 300)
	s := sets[sym.Choose("codecs", 3)]
	ca, cb := negotiate(s[0]|8, s[1]|8)
	c := open(ca, cb)
	order := sym.Choose("order", 3)
	// the receiver joins late: the sequence numbers are about to wrap
	skip := 0
	if order == 1 {
		skip = 65500
	}
	for i := 0; i < skip; i++ {
		sym.Assert(c.seq.WriteEvent(&rtp.Event{Type: 99}) == nil, "sending fails")
	}
	c.wa.out = nil
	digits := []string{"", "7", "2d"}[sym.Choose("digits", 3)]
	res := make(chan error, 1)
	running := digits != ""
	if running {
		go func() { res <- dtmf.Write(context.Background(), nil, c.events, 0, digits) }()
		sym.WaitIdle()
	}
	sample := 0
	next := 0
	for i := 0; i < n; i++ {
		f := make(media.PCM16Sample, c.frame)
		for j := range f {
			f[j] = int16(sample*sample*7 + sample*13)
			sample++
		}
		if i == n/2 {
			f[0], f[c.frame-1] = sym.I16("first"), sym.I16("last")
		}
		c.speak(f)
		if running {
			k := len(c.wa.out)
			vtime.Tickers[vtime.NTickers()-1].Tick()
			sym.WaitIdle()
			for ; k < len(c.wa.out); k++ {
				c.sent = append(c.sent, 'e')
			}
			select {
			case err := <-res:
				sym.Assert(err == nil, "writing digits fails")
				running = false
			default:
			}
		}
		m := len(c.wa.out)
		switch {
		case order == 0 || i == 0 || i == n-1:
			for ; next < m; next++ {
				c.arrive(next)
			}
		case order == 1: // three frames at once, the other way round
			if i%3 == 0 {
				for k := m - 1; k >= next; k-- {
					c.arrive(k)
				}
				next = m
			}
		case order == 2: // repeated packets, several in one go
			if i%2 == 0 {
				for k := next - 1; k < m; k++ {
					c.wb.in = append(c.wb.in, c.wa.out[k])
					c.undelivered++
				}
				c.receive()
				next = m
			}
		}
		c.wait(20 * time.Millisecond)
	}
	c.heard(newModel(c.name), len(c.wa.out), -1)
	sym.Assert(!running, "pressing digits takes too long")
	sym.Assert(len(c.digits) == len(digits), "the digits pressed are not the digits received")
	for i := range c.digits {
		sym.Assert(c.digits[i].Digit == digits[i], "another digit is received")
	}
	sym.Reach("end")
}
