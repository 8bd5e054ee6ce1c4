SEEDS=[
dict(id='jitter-close-late', property='L01', pkg='jitter',
 edits=[('jitter/buffer.go','''	b.timer.Stop()
	b.closed.Break()''','''	if b.timer.Stop() {
		b.closed.Break()
	}''')],
 needs='closing the buffer when its timer has already expired',
 breaks='the goroutine of the closed buffer never ends',
 demo='''package jitter

import (
	"testing"
	"time"

	"github.com/pion/rtp"
)

type zzD struct{}

func (zzD) Unmarshal(p []byte) ([]byte, error)   { return p, nil }
func (zzD) IsPartitionHead(p []byte) bool         { return true }
func (zzD) IsPartitionTail(m bool, p []byte) bool { return true }

func TestZZDemo(t *testing.T) {
	b := NewBuffer(zzD{}, 5*time.Millisecond, func(p []ExtPacket) {})
	b.Push(&rtp.Packet{Payload: []byte{1}})
	time.Sleep(100 * time.Millisecond)
	b.Close()
	if !b.closed.IsBroken() { t.Fatal("still running") }
}
'''),
dict(id='mixer-ticker-left', property='L01', pkg='mixer',
 edits=[('mixer/mixer.go','''	defer m.ticker.Stop()
	for {
		select {
		case <-m.ticker.C:''','''	for {
		select {
		case <-m.stopped.Watch():
			m.ticker.Stop()
			return
		default:
		}
		select {
		case <-m.ticker.C:''')],
 needs='stopping the mixer while it waits for its ticker',
 breaks='the ticker of a stopped mixer keeps running',
 demo='''package mixer

import (
	"testing"
	"time"

	msdk "github.com/livekit/media-sdk"
)

type zzW struct{}

func (zzW) String() string                       { return "" }
func (zzW) SampleRate() int                      { return 8000 }
func (zzW) WriteSample(s msdk.PCM16Sample) error { return nil }

func TestZZDemo(t *testing.T) {
	m, err := NewMixer(zzW{}, 200*time.Millisecond, 1)
	if err != nil { t.Fatal(err) }
	time.Sleep(20 * time.Millisecond)
	m.Stop()
	time.Sleep(500 * time.Millisecond)
	select {
	case <-m.ticker.C:
	default:
	}
	select {
	case <-m.ticker.C:
		t.Fatal("ticker is running")
	case <-time.After(500 * time.Millisecond):
	}
}
'''),
dict(id='mux-register-shared', property='K01', pkg='rtp',
 edits=[('rtp/mux.go','''func (m *Mux) Register(typ byte, h Handler) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if typ < byte(len(m.static)) {
		m.static[typ] = h
	} else {''','''func (m *Mux) Register(typ byte, h Handler) {
	if typ < byte(len(m.static)) {
		m.mu.Lock()
		defer m.mu.Unlock()
		m.static[typ] = h
	} else {
		m.mu.RLock()
		defer m.mu.RUnlock()''')],
 needs='registering dynamic payload types while packets arrive or other types are registered',
 breaks='the handler map is written under a shared lock',
 demo='''package rtp

import (
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	m := NewMux(nil)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300000; i++ {
				m.Register(byte(100+i%20), HandlerFunc(func(h *Header, p []byte) error { return nil }))
			}
		}()
	}
	wg.Wait()
}
'''),
dict(id='mux-dispatch-locked', property='R03', pkg='rtp',
 edits=[('rtp/mux.go','''	var r Handler
	m.mu.RLock()
''','''	var r Handler
	m.mu.RLock()
	defer m.mu.RUnlock()
'''),('rtp/mux.go','''		r = m.def
	}
	m.mu.RUnlock()
''','''		r = m.def
	}
''')],
 needs='a handler which registers or removes a handler of the same mux',
 breaks='the mux deadlocks',
 demo='''package rtp

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	m := NewMux(nil)
	m.Register(8, HandlerFunc(func(h *Header, p []byte) error {
		m.Register(8, nil)
		return nil
	}))
	done := make(chan bool)
	go func() { m.HandleRTP(&Header{PayloadType: 8}, nil); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("deadlock")
	}
}
'''),
dict(id='codec-register-enables', property='C12', pkg='.',
 edits=[('codecs.go','''	if info := c.Info(); info.Disabled {
		CodecSetEnabled(info.SDPName, false)
	}
''','''	info := c.Info()
	CodecSetEnabled(info.SDPName, !info.Disabled)
''')],
 needs='a codec disabled by name before it is registered',
 breaks='registering a codec enables a codec that was disabled',
 demo='''package media

import "testing"

func TestZZDemo(t *testing.T) {
	CodecSetEnabled("zz/8000", false)
	RegisterCodec(NewCodec(CodecInfo{SDPName: "ZZ/8000", SampleRate: 8000}))
	if CodecEnabledByName("ZZ/8000") { t.Fatal("enabled") }
}
'''),
dict(id='switch-close-late', property='C06', pkg='.',
 edits=[('media.go','''	ptr := s.ptr.Swap(nil)
	if ptr == nil {
		return nil
	}
	return (*ptr).Close()
}

func (s *SwitchWriter) WriteSample''','''	ptr := s.ptr.Load()
	if ptr == nil {
		return nil
	}
	err := (*ptr).Close()
	s.ptr.Store(nil)
	return err
}

func (s *SwitchWriter) WriteSample''')],
 needs='attaching another writer while the switch is being closed',
 breaks='a writer which was attached during close is detached without being closed or returned',
 demo='''package media

import "testing"

type zzW struct {
	onClose func()
	closed  int
}

func (w *zzW) String() string                  { return "" }
func (w *zzW) SampleRate() int                 { return 8000 }
func (w *zzW) WriteSample(s PCM16Sample) error { return nil }
func (w *zzW) Close() error {
	w.closed++
	if w.onClose != nil { w.onClose() }
	return nil
}

func TestZZDemo(t *testing.T) {
	s := NewSwitchWriter(8000)
	b := &zzW{}
	a := &zzW{onClose: func() { s.Swap(b) }}
	s.Swap(a)
	s.Close()
	if s.Get() != PCM16Writer(b) && b.closed == 0 { t.Fatal("writer lost") }
}
'''),
dict(id='switch-rate-twice', property='C06', pkg='.',
 edits=[('media.go','''	if !s.sampleRate.CompareAndSwap(-1, int32(rate)) {
		panic("sample rate can only be changed once")
	}''','''	if s.sampleRate.Load() >= 0 {
		panic("sample rate can only be changed once")
	}
	s.sampleRate.Store(int32(rate))''')],
 needs='two goroutines setting the sample rate at the same time',
 breaks='the sample rate is changed after it was set',
 demo='''package media

import (
	"sync"
	"sync/atomic"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for i := 0; i < 400000; i++ {
		s := NewSwitchWriter(-1)
		var ok atomic.Int32
		var start atomic.Int32
		var wg sync.WaitGroup
		for g := 1; g <= 2; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { recover() }()
				start.Add(1)
				for start.Load() < 2 {
				}
				s.SetSampleRate(8000 * g)
				ok.Add(1)
			}()
		}
		wg.Wait()
		if ok.Load() != 1 { t.Fatal("set twice") }
	}
}
'''),
dict(id='listen-err-wrapped', property='R06', pkg='rtp',
 edits=[('rtp/listen.go','''		} else if !errors.Is(err, syscall.EADDRINUSE) {
			return c, err
		}
''','''		} else if operr := (*net.OpError)(nil); !errors.As(err, &operr) || operr.Err != error(syscall.EADDRINUSE) {
			return c, err
		}
''')],
 needs='a port of the range that is in use, the error being wrapped as the net package does',
 breaks='listening fails although other ports of the range are free',
 demo='''package rtp

import (
	"net/netip"
	"testing"
)

func TestZZDemo(t *testing.T) {
	ip := netip.MustParseAddr("127.0.0.1")
	for i := 0; i < 8; i++ {
		c, err := ListenUDPPortRange(47310, 47317, ip)
		if err != nil { t.Fatal(i, err) }
		defer c.Close()
	}
}
'''),
dict(id='opus-layout-early', property='O01', pkg='opus',
 edits=[('opus/opus.go','''	if d.dec == nil || d.lastChannels != channels {
		dec, err''','''	if d.dec == nil || d.lastChannels != channels {
		d.lastChannels = channels
		dec, err'''),('opus/opus.go','''*channels)
		d.lastChannels = channels
''','''*channels)
''')],
 needs='the inner decoder cannot be created when the channel count of the packets changes, and more packets arrive',
 breaks='the following packets are decoded by the decoder of the old channel count',
 demo='''package opus

import (
	"testing"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/protocol/logger"
)

type zzW struct {
	rate int
	n    []int
}

func (w *zzW) String() string                        { return "" }
func (w *zzW) SampleRate() int                       { return w.rate }
func (w *zzW) Close() error                          { return nil }
func (w *zzW) WriteSample(s media.PCM16Sample) error { w.n = append(w.n, len(s)); return nil }

type zzS struct{ out []Sample }

func (w *zzS) String() string             { return "" }
func (w *zzS) SampleRate() int            { return 48000 }
func (w *zzS) Close() error               { return nil }
func (w *zzS) WriteSample(s Sample) error { w.out = append(w.out, append(Sample{}, s...)); return nil }

func TestZZDemo(t *testing.T) {
	s := &zzS{}
	for c := 1; c <= 2; c++ {
		e, err := Encode(s, c, logger.GetLogger())
		if err != nil { t.Fatal(err) }
		in := make(media.PCM16Sample, 960*c)
		for i := range in { in[i] = int16(i*i*37) / 2 }
		for k := 0; k < 8; k++ {
			if err := e.WriteSample(in); err != nil { t.Fatal(err) }
		}
	}
	w := &zzW{rate: 48000}
	d, err := Decode(w, 2, logger.GetLogger())
	if err != nil { t.Fatal(err) }
	if err := d.WriteSample(s.out[0]); err != nil { t.Fatal(err) }
	st := s.out[len(s.out)-1]
	if st[0]&4 == 0 { t.Fatal("not stereo") }
	w.rate = 44100
	if d.WriteSample(st) == nil { t.Fatal("no error") }
	w.rate = 48000
	w.n = nil
	err = d.WriteSample(st)
	if err != nil || len(w.n) != 1 || w.n[0] != 1920 { t.Fatal(err, w.n) }
}
'''),
dict(id='opus-corrupt-delivered', property='O02', pkg='opus',
 edits=[('opus/opus.go','''	d.successiveErrorCount = 0

''',''),('opus/opus.go','''	return d.w.WriteSample(returnData)
}

func (d *decoder) resetForSample''','''	if err := d.w.WriteSample(returnData); err != nil {
		return err
	}
	d.successiveErrorCount = 0
	return nil
}

func (d *decoder) resetForSample''')],
 needs='corrupt packets around a packet that was decoded but which the destination rejected',
 breaks='packets are counted as corrupt in a row although one between them was decoded',
 demo='''package opus

import (
	"errors"
	"testing"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/protocol/logger"
)

type zzW struct{ err error }

func (w *zzW) String() string                        { return "" }
func (w *zzW) SampleRate() int                       { return 48000 }
func (w *zzW) Close() error                          { return nil }
func (w *zzW) WriteSample(s media.PCM16Sample) error { return w.err }

type zzS struct{ out []Sample }

func (w *zzS) String() string             { return "" }
func (w *zzS) SampleRate() int            { return 48000 }
func (w *zzS) Close() error               { return nil }
func (w *zzS) WriteSample(s Sample) error { w.out = append(w.out, append(Sample{}, s...)); return nil }

func TestZZDemo(t *testing.T) {
	s := &zzS{}
	e, err := Encode(s, 1, logger.GetLogger())
	if err != nil { t.Fatal(err) }
	if err := e.WriteSample(make(media.PCM16Sample, 960)); err != nil { t.Fatal(err) }
	w := &zzW{}
	d, err := Decode(w, 1, logger.GetLogger())
	if err != nil { t.Fatal(err) }
	bad := Sample{0x03} // a packet of several frames without their count
	for i := 0; i < 3; i++ {
		if err := d.WriteSample(bad); err != nil { t.Fatal(err) }
	}
	w.err = errors.New("full")
	if err := d.WriteSample(s.out[0]); err == nil { t.Fatal("no error") }
	for i := 0; i < 5; i++ {
		if err := d.WriteSample(bad); err != nil { t.Fatal(i, err) }
	}
}
'''),
dict(id='opus-empty-frame', property='O03', pkg='opus',
 edits=[('opus/opus.go','''	n, err := e.enc.Encode(in, e.buf)
''','''	if len(in) == 0 {
		return nil
	}
	n, err := e.enc.Encode(in, e.buf)
''')],
 needs='an empty frame',
 breaks='the failure to encode a frame is not reported',
 demo='''package opus

import (
	"testing"

	"github.com/livekit/protocol/logger"
)

type zzS struct{ out []Sample }

func (w *zzS) String() string             { return "" }
func (w *zzS) SampleRate() int            { return 48000 }
func (w *zzS) Close() error               { return nil }
func (w *zzS) WriteSample(s Sample) error { w.out = append(w.out, append(Sample{}, s...)); return nil }

func TestZZDemo(t *testing.T) {
	s := &zzS{}
	e, err := Encode(s, 1, logger.GetLogger())
	if err != nil { t.Fatal(err) }
	if e.WriteSample(nil) == nil { t.Fatal("no error") }
}
'''),
dict(id='jit-timer-far', property='J02', pkg='jitter',
 edits=[('jitter/buffer.go','''	if loss && b.onPacketLoss != nil {
		b.onPacketLoss(b.stats.PacketsLost, b.stats.PacketsDropped)
	}

	if b.head != nil {
		b.timer.Reset(time.Until(b.head.extPacket.ReceivedAt.Add(b.latency)))
	}
}''','''	if loss && b.onPacketLoss != nil {
		b.onPacketLoss(b.stats.PacketsLost, b.stats.PacketsDropped)
	}

	if b.head != nil {
		since := b.head.extPacket.ReceivedAt
		if last := b.tail.extPacket.ReceivedAt; last.Sub(since) > 20*time.Millisecond && last.Sub(since) < b.latency/2 {
			since = last // more to come: wait for it as well
		}
		b.timer.Reset(time.Until(since.Add(b.latency)))
	}
}''')],
 needs='a lost packet and several packets behind it that arrive at different times, then silence',
 breaks='packets wait for longer than the latency',
 demo='''package jitter

import (
	"sync"
	"testing"
	"time"

	"github.com/pion/rtp"
)

type zzD struct{}

func (zzD) Unmarshal(p []byte) ([]byte, error)   { return p, nil }
func (zzD) IsPartitionHead(p []byte) bool         { return true }
func (zzD) IsPartitionTail(m bool, p []byte) bool { return true }

func TestZZDemo(t *testing.T) {
	var mu sync.Mutex
	at := map[uint16]time.Time{}
	b := NewBuffer(zzD{}, 400*time.Millisecond, func(p []ExtPacket) {
		mu.Lock()
		defer mu.Unlock()
		for _, q := range p { at[q.SequenceNumber] = time.Now() }
	})
	defer b.Close()
	start := time.Now()
	b.Push(&rtp.Packet{Header: rtp.Header{SequenceNumber: 1}, Payload: []byte{1}})
	b.Push(&rtp.Packet{Header: rtp.Header{SequenceNumber: 3}, Payload: []byte{1}})
	time.Sleep(150 * time.Millisecond)
	b.Push(&rtp.Packet{Header: rtp.Header{SequenceNumber: 5}, Payload: []byte{1}})
	time.Sleep(600 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	if d := at[3].Sub(start); d > 480*time.Millisecond { t.Fatal(d) }
}
'''),
]
