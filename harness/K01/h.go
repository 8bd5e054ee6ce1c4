package main

import (
	"errors"
	"net"
	"sync"
	"sync/atomic"
	"time"

	prtp "github.com/pion/rtp"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/jitter"
	"github.com/livekit/media-sdk/mixer"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vsoxr"
	"github.com/livekit/media-sdk/zzverif/vtime"
)

type op struct {
	name string
	f    func()
}

// together runs operations of every choice at the same time.
func together(ops []op) {
	sym.Preempt(sym.Bound(1, 2), false)
	sym.Races()
	n := sym.Bound(2, 3)
	var sel []int
	last := 0
	for k := 0; k < n; k++ {
		i := last + sym.Choose("op", len(ops)-last)
		sel = append(sel, i)
		last = i
	}
	var wg sync.WaitGroup
	for _, i := range sel {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ops[i].f()
		}()
	}
	wg.Wait()
	sym.Reach("together")
}

// sink is a destination that is safe for concurrent use.
type sink struct {
	rate int
	mu   sync.Mutex
	n    int
}

func (s *sink) String() string  { return "sink" }
func (s *sink) SampleRate() int { return s.rate }
func (s *sink) Close() error    { return nil }
func (s *sink) WriteSample(d media.PCM16Sample) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, v := range d {
		s.n += int(v)
	}
	return nil
}

func HSwitch() {
	s := media.NewSwitchWriter(48000)
	if sym.Choose("attached", 2) == 1 {
		s.Swap(&sink{rate: 48000})
	}
	d := media.PCM16Sample{sym.I16("d"), 2}
	together([]op{
		{"write", func() { s.WriteSample(media.PCM16Sample{1, 2}) }},
		{"write shared", func() { s.WriteSample(d) }},
		{"swap", func() { s.Swap(&sink{rate: 48000}) }},
		{"swap nil", func() { s.Swap(nil) }},
		{"enable", s.Enable},
		{"disable", s.Disable},
		{"get", func() { s.Get() }},
		{"close", func() { s.Close() }},
		{"string", func() { _ = s.String() }},
		{"rate", func() { s.SampleRate() }},
	})
}

// setting the rate late, while others ask for it
func HSwitchRate() {
	s := media.NewSwitchWriter(-1)
	try := func(f func()) func() {
		return func() {
			defer func() { recover() }()
			f()
		}
	}
	together([]op{
		{"set rate", try(func() { s.SetSampleRate(48000) })},
		{"rate", try(func() { s.SampleRate() })},
		{"swap", try(func() { s.Swap(&sink{rate: 48000}) })},
		{"write", try(func() { s.WriteSample(media.PCM16Sample{1, 2}) })},
		{"string", try(func() { _ = s.String() })},
	})
}

// frame buffers, sample buffers and resamplers
func HBuffers() {
	var w media.PCM16Writer
	switch sym.Choose("kind", 4) {
	case 0:
		w = media.FullFrames[media.PCM16Sample](&sink{rate: 48000}, 3)
	case 1:
		var buf media.PCM16Sample
		w = media.NewPCM16BufferWriter(&buf, 48000)
	case 2:
		w = media.ResampleWriter(&sink{rate: 16000}, 48000)
	case 3:
		w = media.ResampleWriter(&sink{rate: 48000}, 16000)
	}
	vsoxr.Eager = true
	for k := sym.Choose("warm", 2); k > 0; k-- {
		w.WriteSample(media.PCM16Sample{1, 2, 3, 4})
	}
	once := sync.OnceFunc(func() { w.Close() })
	together([]op{
		{"write", func() { w.WriteSample(media.PCM16Sample{1, 2, 3, 4, 5, 6}) }},
		{"write", func() { w.WriteSample(media.PCM16Sample{1}) }},
		{"close", once},
		{"string", func() { _ = w.String() }},
		{"rate", func() { w.SampleRate() }},
	})
}

func HPipe() {
	r, w := media.Pipe[media.PCM16Sample](48000)
	d := make(media.PCM16Sample, 3)
	errX := errors.New("x")
	done := make(chan struct{})
	go func() {
		defer close(done)
		d := make(media.PCM16Sample, 2)
		for {
			if _, err := r.ReadSample(d); err != nil {
				return
			}
		}
	}()
	together([]op{
		{"write", func() { w.WriteSample(media.PCM16Sample{1, 2, 3}) }},
		{"write", func() { w.WriteSample(media.PCM16Sample{4}) }},
		{"close reader", func() { r.Close() }},
		{"close reader with error", func() { r.CloseWithError(errX) }},
		{"close writer", func() { w.Close() }},
		{"close writer with error", func() { w.CloseWithError(errX) }},
		{"string", func() { _ = w.String(); w.SampleRate() }},
	})
	w.Close()
	r.Close()
	<-done
	_, _ = r.ReadSample(d)
}

func HMixer() {
	o := &sink{rate: 100}
	var opts []mixer.MixerOptions
	if sym.Choose("channel", 2) == 1 {
		opts = append(opts, mixer.WithOutputChannel())
	}
	m, err := mixer.NewMixer(o, frame, 1, opts...)
	sym.Assert(err == nil, "the mixer does not start")
	a, b := m.NewInput(), m.NewInput()
	a.WriteSample(media.PCM16Sample{1, 2, 3, 4})
	tick := func(at time.Duration) {
		vtime.Set(at)
		for i := 0; i < vtime.NTickers(); i++ {
			vtime.Tickers[i].Tick()
		}
	}
	sym.WaitIdle()
	if sym.Choose("ticked", 2) == 1 {
		tick(frame)
		sym.WaitIdle()
	}
	together([]op{
		{"tick", func() { tick(3 * frame) }},
		{"write", func() { a.WriteSample(media.PCM16Sample{sym.I16("s"), 2}) }},
		{"write other", func() { b.WriteSample(media.PCM16Sample{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}) }},
		{"new input", func() {
			if in := m.NewInput(); in != nil {
				in.WriteSample(media.PCM16Sample{1, 2})
			}
		}},
		{"close input", func() { a.Close() }},
		{"remove", func() { m.RemoveInput(b) }},
		{"stop", m.Stop},
		{"string", func() { _ = m.String(); _ = a.String(); m.SampleRate() }},
	})
	m.Stop()
	sym.WaitIdle()
}

type video struct{}

func (video) Unmarshal(p []byte) ([]byte, error)         { return p, nil }
func (video) IsPartitionHead(payload []byte) bool        { return payload[0] == 1 }
func (video) IsPartitionTail(marker bool, p []byte) bool { return marker }

func HJitter() {
	got, lost := 0, 0
	var mu sync.Mutex
	b := jitter.NewBuffer(video{}, frame, func(p []jitter.ExtPacket) {
		mu.Lock()
		for _, q := range p {
			got += int(q.Payload[0]) + int(q.SequenceNumber)
		}
		mu.Unlock()
	}, jitter.WithPacketLossHandler(func(l, d uint64) {
		mu.Lock()
		lost++
		mu.Unlock()
	}))
	base := sym.U16("base")
	pkt := func(seq uint16, start byte, end bool) *prtp.Packet {
		return &prtp.Packet{Header: prtp.Header{Version: 2, SequenceNumber: base + seq, Marker: end}, Payload: []byte{start}}
	}
	for k, n := 0, sym.Choose("before", 3); k < n; k++ {
		b.PushAt(pkt(uint16(10+2*k), 1, true), vtime.At(0))
	}
	ops := []op{
		{"push next", func() { b.PushAt(pkt(11, 1, true), vtime.At(0)) }},
		{"push gap", func() { b.PushAt(pkt(14, 1, false), vtime.At(0)) }},
		{"push ext", func() { b.PushExtPacket(jitter.ExtPacket{Packet: pkt(13, 1, true), ReceivedAt: vtime.At(0)}) }},
		{"push batch", func() {
			b.PushExtPacketBatch([]jitter.ExtPacket{{Packet: pkt(15, 1, false), ReceivedAt: vtime.At(0)}, {Packet: pkt(16, 0, true), ReceivedAt: vtime.At(0)}})
		}},
		{"expire", func() {
			vtime.Set(3 * frame)
			for i := 0; i < vtime.NTimers(); i++ {
				if t := vtime.Timers[i]; t.Active() {
					t.Fire()
				}
			}
		}},
		{"latency", func() { b.UpdateLatency(2 * frame) }},
		{"flush", b.Flush},
		{"size", func() { b.Size() }},
		{"stats", func() { st := b.Stats(); _ = st.PacketsPushed + st.PacketsLost + st.PacketsPopped }},
		{"close", b.Close},
	}
	together(ops)
	b.Close()
	sym.WaitIdle()
}

const frame = 20 * time.Millisecond

// rtpSink is a connection-like writer that reads all it is given.
type rtpSink struct {
	mu sync.Mutex
	n  int
}

func (r *rtpSink) String() string { return "rtp" }
func (r *rtpSink) WriteRTP(h *prtp.Header, payload []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.n += int(h.SequenceNumber) + int(h.Timestamp) + int(h.PayloadType)
	if h.Marker {
		r.n++
	}
	for _, p := range payload {
		r.n += int(p)
	}
	return len(payload), nil
}

func HStreams() {
	out := &rtpSink{}
	s := rtp.NewSeqWriter(out)
	a, b := s.NewStream(0, 8000), s.NewStreamWithDur(101, 160)
	m := rtp.NewMediaStreamOut[g](a, 8000)
	if sym.Choose("warm", 2) == 1 {
		a.WritePayload([]byte{1}, true)
		b.WritePayloadAtCurrent([]byte{2}, true)
	}
	together([]op{
		{"event", func() { s.WriteEvent(&rtp.Event{Type: 3, Payload: []byte{1}}) }},
		{"write a", func() { a.WritePayload([]byte{1}, true) }},
		{"write b", func() { b.WritePayload([]byte{1}, true) }},
		{"write b at current", func() { b.WritePayloadAtCurrent([]byte{1}, true) }},
		{"delay b", func() { b.Delay(sym.U32("delay")) }},
		{"delay a", func() { a.DelayN(2) }},
		{"reset a", func() { a.ResetTimestamp(sym.U32("ts")) }},
		{"timestamp a", func() { a.GetCurrentTimestamp() }},
		{"timestamp b", func() { b.GetCurrentTimestamp() }},
		{"new stream", func() { s.NewStream(9, 8000).WritePayload([]byte{1}, false) }},
		{"media", func() { m.WriteSample(g{1, 2}) }},
		{"string", func() { _ = s.String(); _ = m.String() }},
		{"cur", func() { s.CurTS(sym.U32("cur"), 160) }},
	})
}

type g []byte

func (s g) Size() int                     { return len(s) }
func (s g) CopyTo(d []byte) (int, error) { return copy(d, s), nil }

type handler struct{ n int }

func (h *handler) String() string                            { return "h" }
func (h *handler) HandleRTP(_ *prtp.Header, _ []byte) error { return nil }

func HMux() {
	m := rtp.NewMux(&handler{})
	if sym.Choose("warm", 2) == 1 {
		m.Register(0, &handler{})
		m.Register(101, &handler{})
	}
	together([]op{
		{"handle static", func() { m.HandleRTP(&prtp.Header{PayloadType: 0}, []byte{1}) }},
		{"handle dynamic", func() { m.HandleRTP(&prtp.Header{PayloadType: 101}, []byte{1}) }},
		{"register static", func() { m.Register(0, &handler{}) }},
		{"register dynamic", func() { m.Register(101, &handler{}) }},
		{"unregister static", func() { m.Register(0, nil) }},
		{"unregister dynamic", func() { m.Register(101, nil) }},
		{"default", func() { m.SetDefault(&handler{}) }},
		{"no default", func() { m.SetDefault(nil) }},
		{"string", func() { _ = m.String() }},
	})
}

var errConnClosed = errors.New("closed")

type conn struct {
	in     chan []byte
	closed chan struct{}
	once   sync.Once
	mu     sync.Mutex
	n      int
}

func (c *conn) Read(p []byte) (int, error) {
	select {
	case <-c.closed:
		return 0, errConnClosed
	default:
	}
	select {
	case b := <-c.in:
		return copy(p, b), nil
	case <-c.closed:
		return 0, errConnClosed
	}
}

func (c *conn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, b := range p {
		c.n += int(b)
	}
	return len(p), nil
}
func (c *conn) Close() error                       { c.once.Do(func() { close(c.closed) }); return nil }
func (c *conn) LocalAddr() net.Addr                { return nil }
func (c *conn) RemoteAddr() net.Addr               { return &net.UDPAddr{} }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

func dgram(ssrc byte, seq byte) []byte {
	return []byte{0x80, 0, 0, seq, 0, 0, 0, 0, 0, 0, 0, ssrc, 7, seq}
}

// sessions: one reader per stream
func HSession() {
	c := &conn{in: make(chan []byte, 16), closed: make(chan struct{})}
	s := rtp.NewSession(nil, c)
	c.in <- dgram(1, 1)
	r, _, err := s.AcceptStream()
	sym.Assert(err == nil, "a stream is not accepted")
	if sym.Choose("read", 2) == 1 {
		var h prtp.Header
		r.ReadRTP(&h, make([]byte, 10))
	}
	w, _ := s.OpenWriteStream()
	hdr := prtp.Header{Version: 2, SequenceNumber: sym.U16("seq"), Timestamp: sym.U32("ts"), Marker: sym.Bool("marker")}
	var ssrc atomic.Int32
	ssrc.Store(1)
	readOnce := sync.OnceFunc(func() {
		var h prtp.Header
		p := make([]byte, 10)
		for k := 0; k < 2; k++ {
			n, err := r.ReadRTP(&h, p)
			if err != nil {
				return
			}
			_ = h.SequenceNumber + uint16(p[n-1])
		}
	})
	together([]op{
		{"accept", func() {
			c.in <- dgram(1, 2)
			c.in <- dgram(1, 3)
			c.in <- dgram(byte(ssrc.Add(1)), 1)
			s.AcceptStream()
		}},
		{"accept other", func() {
			c.in <- dgram(1, 4)
			c.in <- dgram(byte(ssrc.Add(1)), 1)
			s.AcceptStream()
		}},
		{"read", func() { go readOnce() }},
		{"write", func() {
			w2, _ := s.OpenWriteStream()
			w2.WriteRTP(&hdr, []byte{1, 2, 3})
		}},
		{"write", func() { w.WriteRTP(&prtp.Header{Version: 2, SequenceNumber: 4}, []byte{4, 5, 6, 7, 8}) }},
		{"string", func() { _ = w.String() }},
		{"close", func() { s.Close() }},
	})
	s.Close()
	sym.WaitIdle()
}
