SEEDS=[
dict(id='ring-exact-fill', property='C01', pkg='ring',
 edits=[('ring/buffer.go','''			b.read = 0
			b.write = 0
			b.full = true''','''			b.read = b.write
			b.full = true''')],
 needs='a bulk write of exactly the capacity while the write position is not at the start',
 breaks='elements come out rotated instead of in insertion order',
 demo='''
package ring

import "testing"

func TestZZDemo(t *testing.T) {
	b := NewBuffer[int](3)
	b.Push(9)
	b.Write([]int{1, 2, 3})
	for i := 1; i <= 3; i++ {
		if v := b.Pop(); v != i {
			t.Fatalf("got %d want %d", v, i)
		}
	}
}
'''),
dict(id='framebuf-error-resend', property='C02', pkg='.',
 edits=[('buffers.go','''		frame := it[:b.frameSize]
		it = it[len(frame):]
		if err := b.w.WriteSample(frame); err != nil {
			return err
		}''','''		frame := it[:b.frameSize]
		if err := b.w.WriteSample(frame); err != nil {
			return err
		}
		it = it[len(frame):]''')],
 needs='the destination rejects a frame and the writer is used again',
 breaks='the attempted frame is delivered a second time by the next write or close',
 demo='''
package media

import (
	"errors"
	"testing"
)

type zzW struct {
	fail bool
	got  []int16
}

func (w *zzW) String() string   { return "" }
func (w *zzW) SampleRate() int  { return 8000 }
func (w *zzW) Close() error     { return nil }
func (w *zzW) WriteSample(s PCM16Sample) error {
	w.got = append(w.got, s...)
	if w.fail {
		return errors.New("rejected")
	}
	return nil
}

func TestZZDemo(t *testing.T) {
	w := &zzW{fail: true}
	f := FullFrames[PCM16Sample, int16](w, 2)
	if err := f.WriteSample(PCM16Sample{1, 2, 3}); err == nil {
		t.Fatal("error lost")
	}
	w.fail = false
	f.WriteSample(PCM16Sample{4})
	f.Close()
	if len(w.got) != 4 {
		t.Fatal(w.got)
	}
}
'''),
dict(id='codec-disabled-case', property='C12', pkg='.',
 edits=[('codecs.go','		CodecSetEnabled(info.SDPName, false)','		disabled[info.SDPName] = struct{}{}')],
 needs='a codec registered as disabled whose SDP name contains upper-case letters',
 breaks='the codec counts as enabled',
 demo='''
package media

import "testing"

func TestZZDemo(t *testing.T) {
	c := NewCodec(CodecInfo{SDPName: "ZZdemo/8000", SampleRate: 8000, Disabled: true})
	RegisterCodec(c)
	if CodecEnabled(c) {
		t.Fatal("enabled")
	}
}
'''),
dict(id='seq-consumed-on-error', property='R01', pkg='rtp',
 edits=[('rtp/rtp.go','''	if _, err := s.w.WriteRTP(&s.h, ev.Payload); err != nil {
		return err
	}
	s.h.SequenceNumber++
	return nil''','''	_, err := s.w.WriteRTP(&s.h, ev.Payload)
	s.h.SequenceNumber++
	return err''')],
 needs='the transport rejects a packet and a later one is accepted',
 breaks='the rejected packet consumes a sequence number, so the receiver sees a gap',
 demo='''
package rtp

import (
	"errors"
	"testing"

	"github.com/pion/rtp"
)

type zzW struct {
	fail bool
	seq  []uint16
}

func (w *zzW) String() string { return "" }
func (w *zzW) WriteRTP(h *rtp.Header, p []byte) (int, error) {
	if w.fail {
		return 0, errors.New("down")
	}
	w.seq = append(w.seq, h.SequenceNumber)
	return len(p), nil
}

func TestZZDemo(t *testing.T) {
	w := &zzW{}
	s := NewSeqWriter(w)
	s.WriteEvent(&Event{})
	w.fail = true
	s.WriteEvent(&Event{})
	w.fail = false
	s.WriteEvent(&Event{})
	if len(w.seq) != 2 || w.seq[1] != 1 {
		t.Fatal(w.seq)
	}
}
'''),
dict(id='followup-after-error', property='R02', pkg='rtp',
 edits=[('rtp/rtp.go','''	if err := s.s.WriteEvent(&s.ev); err != nil {
		return err
	}
	if inc {
		s.followup = false
		s.ev.Timestamp += s.packetDur
	} else {
		s.followup = true
	}
	return nil''','''	s.followup = !inc
	if err := s.s.WriteEvent(&s.ev); err != nil {
		return err
	}
	if inc {
		s.ev.Timestamp += s.packetDur
	}
	return nil''')],
 needs='a follow-up write fails, another stream of the sender moves more than 25 frames ahead, then the stream resumes',
 breaks='the resumed stream is not aligned with the most advanced stream',
 demo='''
package rtp

import (
	"errors"
	"testing"

	"github.com/pion/rtp"
)

type zzW struct {
	fail bool
	ts   []uint32
}

func (w *zzW) String() string { return "" }
func (w *zzW) WriteRTP(h *rtp.Header, p []byte) (int, error) {
	if w.fail {
		return 0, errors.New("down")
	}
	w.ts = append(w.ts, h.Timestamp)
	return len(p), nil
}

func TestZZDemo(t *testing.T) {
	w := &zzW{}
	s := NewSeqWriter(w)
	a, b := s.NewStreamWithDur(1, 10), s.NewStreamWithDur(2, 10)
	w.fail = true
	a.WritePayloadAtCurrent([]byte{1}, true)
	w.fail = false
	b.ResetTimestamp(1000)
	b.WritePayload([]byte{2}, false)
	a.WritePayloadAtCurrent([]byte{3}, true)
	if len(w.ts) != 2 || w.ts[1] < 1000 {
		t.Fatal(w.ts)
	}
}
'''),
dict(id='mux-static-default', property='R03', pkg='rtp',
 edits=[('rtp/mux.go','''	} else {
		r = m.dynamic[h.PayloadType]
	}
	if r == nil {
		r = m.def
	}
	m.mu.RUnlock()''','''	} else if d, ok := m.dynamic[h.PayloadType]; ok {
		r = d
	} else {
		r = m.def
	}
	m.mu.RUnlock()''')],
 needs='a packet of a static payload type without a registered handler while a default is set',
 breaks='the packet is dropped instead of going to the default handler',
 demo='''
package rtp

import (
	"testing"

	"github.com/pion/rtp"
)

func TestZZDemo(t *testing.T) {
	n := 0
	m := NewMux(HandlerFunc(func(h *rtp.Header, p []byte) error { n++; return nil }))
	m.HandleRTP(&rtp.Header{PayloadType: 13}, nil)
	if n != 1 {
		t.Fatal("not delivered")
	}
}
'''),
dict(id='g711-stale-tail', property='G03', pkg='g711',
 edits=[],needs='',breaks='',demo=''),
]
SEEDS=[s for s in SEEDS if s['edits']]
