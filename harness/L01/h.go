package main

import (
	"context"
	"errors"
	"time"

	prtp "github.com/pion/rtp"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/jitter"
	"github.com/livekit/media-sdk/mixer"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/tones"
	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vtime"
)

const frame = 20 * time.Millisecond

var errOut = errors.New("output failed")

// gate is an output that can be made to block.
type gate struct {
	rate   int
	n      int
	closed bool
	open   chan struct{}
	fail   int
	failed bool
}

func (g *gate) String() string  { return "gate" }
func (g *gate) SampleRate() int { return g.rate }
func (g *gate) Close() error    { return nil }
func (g *gate) WriteSample(s media.PCM16Sample) error {
	if g.closed {
		<-g.open
	}
	g.n++
	if g.failed || g.n == g.fail {
		return errOut
	}
	return nil
}

func (g *gate) resume() {
	if g.closed {
		g.closed = false
		close(g.open)
	}
}

func released() {
	for i := 0; i < vtime.NTickers(); i++ {
		sym.Assert(vtime.Tickers[i].Stopped(), "a ticker is left running")
	}
	for i := 0; i < vtime.NTimers(); i++ {
		sym.Assert(!vtime.Timers[i].Active(), "a timer is left running")
	}
	sym.Assert(sym.Alive() == 0, "a goroutine is left running")
}

func ticks() {
	for i := 0; i < vtime.NTickers(); i++ {
		vtime.Tickers[i].Tick()
	}
}

func options() (opts []mixer.MixerOptions, channel bool) {
	switch sym.Choose("channel", 3) {
	case 1:
		return append(opts, mixer.WithOutputChannel()), true
	case 2:
		return append(opts, mixer.WithOutputChannelSize(3)), true
	}
	return nil, false
}

// A mixer stopped at any moment.
func HMixer() {
	o := &gate{rate: 100}
	opts, channel := options()
	m, err := mixer.NewMixer(o, frame, 1, opts...)
	sym.Assert(err == nil, "the mixer does not start")
	in := m.NewInput()
	sym.WaitIdle()
	var now time.Duration
	stopped := false
	stop := func() {
		m.Stop()
		stopped = true
		sym.WaitIdle()
		o.resume()
		sym.WaitIdle()
		released()
	}
	for k := 0; k < sym.Bound(4, 5) && !stopped; k++ {
		switch sym.Choose("event", 6) {
		case 0:
			now += frame
			vtime.Set(now)
			ticks()
		case 1:
			now += 4 * frame
			vtime.Set(now)
			ticks()
		case 2:
			if channel && !o.closed {
				o.closed, o.open = true, make(chan struct{})
			} else {
				o.resume()
			}
		case 3:
			o.failed = !o.failed
		case 4:
			sym.Assert(in.WriteSample(media.PCM16Sample{sym.I16("s"), 1}) == nil, "writing to an input fails")
		case 5:
			stop()
			sym.Reach("stopped early")
		}
		sym.WaitIdle()
	}
	if !stopped {
		stop()
	}
	n := o.n
	for k := 0; k < 2; k++ {
		now += frame
		vtime.Set(now)
		ticks()
		sym.WaitIdle()
	}
	sym.Assert(in.WriteSample(media.PCM16Sample{1, 2}) == nil, "writing to an input of a stopped mixer fails")
	sym.Assert(in.Close() == nil, "closing an input of a stopped mixer fails")
	m.Stop()
	sym.WaitIdle()
	sym.Assert(o.n == n, "a stopped mixer writes a frame")
	released()
	sym.Reach("end")
}

// Stop races with a late tick.
func HMixerRace() {
	sym.Preempt(sym.Bound(1, 2), false)
	o := &gate{rate: 100}
	opts, _ := options()
	m, err := mixer.NewMixer(o, frame, 1, opts...)
	sym.Assert(err == nil, "the mixer does not start")
	m.NewInput()
	vtime.Set(frame)
	ticks()
	sym.WaitIdle()
	vtime.Set(5 * frame)
	ticks()
	m.Stop()
	sym.WaitIdle()
	released()
	sym.Reach("end")
}

type video struct{}

func (video) Unmarshal(p []byte) ([]byte, error)         { return p, nil }
func (video) IsPartitionHead(payload []byte) bool        { return payload[0] == 1 }
func (video) IsPartitionTail(marker bool, p []byte) bool { return marker }

// A jitter buffer closed at any moment.
func HJitter() {
	got := 0
	b := jitter.NewBuffer(video{}, frame, func(p []jitter.ExtPacket) { got += len(p) })
	sym.WaitIdle()
	base := sym.U16("base")
	var now time.Duration
	for k := 0; k < sym.Bound(3, 4); k++ {
		switch sym.Choose("event", 3) {
		case 0:
			h := prtp.Header{Version: 2, SequenceNumber: base + uint16(sym.Choose("off", 4)), Marker: sym.Bool("end")}
			b.PushAt(&prtp.Packet{Header: h, Payload: []byte{sym.U8("start") & 1}}, vtime.At(now))
		case 1:
			now += frame + 1
			vtime.Set(now)
			for i := 0; i < vtime.NTimers(); i++ {
				if t := vtime.Timers[i]; t.Active() && t.When() <= now {
					t.Fire()
					sym.WaitIdle()
				}
			}
		case 2:
			b.UpdateLatency(time.Duration(1+sym.Choose("lat", 2)) * frame)
		}
		sym.WaitIdle()
	}
	b.Close()
	sym.WaitIdle()
	released()
	n := got
	vtime.Set(now + 10*frame)
	for i := 0; i < vtime.NTimers(); i++ {
		if t := vtime.Timers[i]; t.Active() {
			t.Fire()
		}
	}
	b.Close()
	sym.WaitIdle()
	sym.Assert(got == n, "a closed jitter buffer delivers packets by itself")
	released()
	sym.Reach("end")
}

// Close races with an expired timer.
func HJitterRace() {
	sym.Preempt(sym.Bound(1, 2), false)
	got := 0
	b := jitter.NewBuffer(video{}, frame, func(p []jitter.ExtPacket) { got += len(p) })
	b.PushAt(&prtp.Packet{Header: prtp.Header{Version: 2, SequenceNumber: 10, Marker: true}, Payload: []byte{1}}, vtime.At(0))
	b.PushAt(&prtp.Packet{Header: prtp.Header{Version: 2, SequenceNumber: 12, Marker: true}, Payload: []byte{1}}, vtime.At(0))
	sym.WaitIdle()
	sym.Assert(got == 1, "a complete sample is not delivered")
	vtime.Set(2 * frame)
	for i := 0; i < vtime.NTimers(); i++ {
		if t := vtime.Timers[i]; t.Active() {
			t.Fire()
		}
	}
	b.Close()
	sym.WaitIdle()
	sym.Assert(sym.Alive() == 0, "a goroutine is left running")
	sym.Reach("end")
}

type hc struct{ n, closed int }

func (h *hc) String() string                            { return "h" }
func (h *hc) HandleRTP(_ *prtp.Header, _ []byte) error { h.n++; return nil }
func (h *hc) Close()                                    { h.closed++ }

// The jitter handler of an RTP receive loop.
func HJitterHandler() {
	h := &hc{}
	j := rtp.HandleJitter(h)
	n := sym.Choose("packets", 3)
	for k := 0; k < n; k++ {
		j.HandleRTP(&prtp.Header{Version: 2, SequenceNumber: uint16(k * sym.Choose("step", 3))}, []byte{1})
	}
	j.Close()
	sym.WaitIdle()
	sym.Assert(h.closed == 1, "the handler was not closed exactly once")
	released()
	sym.Reach("end")
}

// Playback, tones and DTMF, ended in every way.
func HPlay() {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	o := &gate{rate: 100, fail: sym.Choose("fail", 4)}
	at := sym.Choose("cancel", 4)
	kind := sym.Choose("kind", 4)
	res := make(chan error, 1)
	go func() {
		switch kind {
		case 0:
			res <- media.PlayAudio[media.PCM16Sample](ctx, o, frame, []media.PCM16Sample{{1}, {2}})
		case 1:
			res <- tones.Play(ctx, o, 100, tones.ETSIBusy)
		case 2:
			res <- dtmf.Write(ctx, o, nil, 0, "1")
		case 3:
			res <- dtmf.Write(ctx, nil, rtp.NewSeqWriter(new(rtp.Buffer)).NewStream(101, 8000), 0, "")
		}
	}()
	sym.WaitIdle()
	for k := 0; k < 5 && len(res) == 0; k++ {
		if k == at {
			cancel()
			sym.WaitIdle()
			sym.Assert(len(res) == 1, "a cancelled playback goes on")
			sym.Reach("cancelled")
			break
		}
		ticks()
		sym.WaitIdle()
	}
	sym.Assert(len(res) == 1, "playback did not end")
	released()
	sym.Reach("end")
}
