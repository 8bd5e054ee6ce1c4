MIXW='''
type zzW struct{ got [][]int16; err error }

func (w *zzW) String() string  { return "" }
func (w *zzW) SampleRate() int { return 8000 }
func (w *zzW) WriteSample(s msdk.PCM16Sample) error { w.got = append(w.got, append([]int16{}, s...)); return w.err }
'''
JB='''
import (
	"testing"
	"time"
	"github.com/pion/rtp"
)

type zzD struct{}

func (zzD) Unmarshal(p []byte) ([]byte, error)          { return p, nil }
func (zzD) IsPartitionHead(p []byte) bool                { return p[0]&1 != 0 }
func (zzD) IsPartitionTail(m bool, p []byte) bool        { return p[0]&2 != 0 }

func zzP(sn uint16, fl byte) *rtp.Packet {
	return &rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: sn}, Payload: []byte{fl}}
}

var zzGot []uint16

func zzB(lat time.Duration) *Buffer {
	zzGot = nil
	return NewBuffer(zzD{}, lat, func(p []ExtPacket) {
		for _, q := range p { zzGot = append(zzGot, q.SequenceNumber) }
	})
}
'''
SEEDS=[
# X01
dict(id='mix-running-clamp', property='X01', pkg='mixer',
 edits=[('mixer/mixer.go','''			m.mixBuf[j] += int32(v)
''','''			s := m.mixBuf[j] + int32(v)
			if s > 0x7FFF {
				s = 0x7FFF
			}
			m.mixBuf[j] = s
''')],
 needs='three inputs: two that overflow together and a third of the opposite sign mixed after them',
 breaks='the sum is saturated before all inputs were added, so the output depends on the order of the inputs',
 demo='''
package mixer

import ("testing"; msdk "github.com/livekit/media-sdk")
'''+MIXW+'''
func TestZZDemo(t *testing.T) {
	z := &zzW{}
	m := newMixer(z, 2)
	for _, v := range []int16{30000, 30000, -30000} {
		in := m.NewInput()
		for i := 0; i < 3; i++ { in.WriteSample(msdk.PCM16Sample{v, v}) }
	}
	m.mixOnce()
	if z.got[0][0] != 30000 { t.Fatal(z.got) }
}
'''),
dict(id='mix-stale-reset', property='X01', pkg='mixer',
 edits=[('mixer/mixer.go','''	for i := range m.mixBuf {
		m.mixBuf[i] = 0
	}''','''	if len(m.inputs) == 0 && m.mixCnt > 1 {
		return
	}
	for i := range m.mixBuf {
		m.mixBuf[i] = 0
	}''')],
 needs='the last input is removed while the mixer keeps running',
 breaks='the last mixed frame is repeated for ever instead of silence',
 demo='''
package mixer

import ("testing"; msdk "github.com/livekit/media-sdk")
'''+MIXW+'''
func TestZZDemo(t *testing.T) {
	z := &zzW{}
	m := newMixer(z, 2)
	in := m.NewInput()
	for i := 0; i < 4; i++ { in.WriteSample(msdk.PCM16Sample{7, 7}) }
	m.mixOnce()
	in.Close()
	m.mixOnce()
	m.mixOnce()
	if z.got[2][0] != 0 { t.Fatal(z.got) }
}
'''),
# X02
dict(id='mix-short-starve', property='X02', pkg='mixer',
 edits=[('mixer/mixer.go','''	if n == 0 {
		i.buffering = true // starving''','''	if n < len(out) {
		i.buffering = true // starving''')],
 needs='an input that holds a partial frame',
 breaks='an input starts re-buffering after a partial frame instead of when it is empty',
 demo='''
package mixer

import ("testing"; msdk "github.com/livekit/media-sdk")
'''+MIXW+'''
func TestZZDemo(t *testing.T) {
	z := &zzW{}
	m := newMixer(z, 4)
	in := m.NewInput()
	for i := 0; i < 3; i++ { in.WriteSample(msdk.PCM16Sample{1, 1, 1, 1}) }
	in.WriteSample(msdk.PCM16Sample{2, 2})
	for i := 0; i < 4; i++ { m.mixOnce() }
	in.WriteSample(msdk.PCM16Sample{3, 3, 3, 3})
	m.mixOnce()
	if z.got[4][0] != 3 { t.Fatal(z.got) }
}
'''),
# X03
dict(id='mix-fuzz-drift', property='X03', pkg='mixer',
 edits=[('mixer/mixer.go','''		m.lastMixEndTs = m.lastMixEndTs.Add(time.Duration(n) * m.tickerDur)
''','''		if n > 1 {
			m.lastMixEndTs = m.lastMixEndTs.Add(time.Duration(n) * m.tickerDur)
		} else if n == 1 {
			m.lastMixEndTs = now
		}
''')],
 needs='ticks that are always a little late',
 breaks='the delay of each late tick is lost, so the mixer produces fewer frames than real time',
 demo='''
package mixer

import ("testing"; "time"; msdk "github.com/livekit/media-sdk")
'''+MIXW+'''
func TestZZDemo(t *testing.T) {
	z := &zzW{}
	m := newMixer(z, 2)
	m.tickerDur = 20 * time.Millisecond
	start := time.Now()
	for time.Since(start) < 900*time.Millisecond {
		m.mixUpdate()
		time.Sleep(27 * time.Millisecond)
	}
	if n := len(z.got); n < 40 { t.Fatal(n) }
}
'''),
# X04
dict(id='mix-remove-twice', property='X04', pkg='mixer',
 edits=[('mixer/mixer.go','''	i := slices.Index(m.inputs, inp)
	if i < 0 {
		return
	}
	m.inputs = slices.Delete(m.inputs, i, i+1)
	m.stats.Tracks.Add(-1)''','''	if n := len(m.inputs); n > 0 {
		m.inputs = slices.DeleteFunc(m.inputs, func(i *Input) bool { return i == inp })
		m.stats.Tracks.Add(-1)
	}''')],
 needs='an input is closed twice while another one is still attached',
 breaks='the track count goes wrong',
 demo='''
package mixer

import ("testing"; msdk "github.com/livekit/media-sdk")
'''+MIXW+'''
func TestZZDemo(t *testing.T) {
	m := newMixer(&zzW{}, 2)
	a := m.NewInput()
	m.NewInput()
	a.Close()
	a.Close()
	if n := m.stats.Tracks.Load(); n != 1 { t.Fatal(n) }
}
'''),
# J
dict(id='jit-prepend-link', property='J01', pkg='jitter',
 edits=[('jitter/buffer.go','''				c.next.discont = false
				c.next.prev = p
				c.next = p
				return''','''				c.next.discont = false
				c.next = p
				return''')],
 needs='a packet is inserted in the middle of the queue, then another one between it and its successor',
 breaks='a packet vanishes from the backwards chain, the next insertion unlinks or reorders packets',
 demo='''
package jitter
'''+JB+'''
func TestZZDemo(t *testing.T) {
	b := zzB(time.Hour)
	defer b.Close()
	b.Push(zzP(1, 3))
	for _, sn := range []uint16{10, 3, 6, 8, 7, 9, 5, 4, 2} {
		b.Push(zzP(sn, 3))
	}
	if len(zzGot) != 10 { t.Fatal(zzGot) }
	for i, sn := range zzGot {
		if int(sn) != i+1 { t.Fatal(zzGot) }
	}
}
'''),
dict(id='jit-incomplete-skip', property='J04', pkg='jitter',
 edits=[('jitter/buffer.go','''	for b.head != nil && !b.head.isComplete() && (force || b.head.extPacket.ReceivedAt.Before(expiry)) {
		if b.initialized && !b.head.discont {''','''	for b.head != nil && (!b.head.isComplete() || dropped && !b.head.start) && (force || b.head.extPacket.ReceivedAt.Before(expiry)) {
		if b.initialized && !b.head.discont && !dropped {''')],
 needs='two gaps in one expired incomplete run',
 breaks='the packets lost between the dropped ones are not counted',
 demo='''
package jitter
'''+JB+'''
func TestZZDemo(t *testing.T) {
	b := zzB(50 * time.Millisecond)
	defer b.Close()
	b.Push(zzP(1, 3))
	b.Push(zzP(3, 0))
	b.Push(zzP(5, 0))
	b.Flush()
	if s := b.Stats(); s.PacketsLost != 2 { t.Fatalf("%+v", s) }
}
'''),
dict(id='jit-loss-signed', property='J04', pkg='jitter',
 edits=[('jitter/buffer.go','''			// max latency reached
			loss = true
			b.stats.PacketsLost += uint64(b.head.extPacket.SequenceNumber - b.prevSN - 1)''','''			// max latency reached
			loss = true
			b.stats.PacketsLost += uint64(int(b.head.extPacket.SequenceNumber) - int(b.prevSN) - 1)''')],
 needs='a gap across the wrap of the sequence number',
 breaks='the loss counter jumps by about 2^64',
 demo='''
package jitter
'''+JB+'''
func TestZZDemo(t *testing.T) {
	b := zzB(30 * time.Millisecond)
	defer b.Close()
	b.Push(zzP(65534, 3))
	b.Push(zzP(1, 3))
	time.Sleep(120 * time.Millisecond)
	if s := b.Stats(); s.PacketsLost != 2 { t.Fatalf("%+v", s) }
}
'''),
dict(id='jit-flush-keep', property='J05', pkg='jitter',
 edits=[('jitter/buffer.go','''		if b.dropIncomplete(time.Time{}, true) {
			dropped = true
		}
	}

	if (loss''','''		if loss && b.dropIncomplete(time.Time{}, true) {
			dropped = true
		}
	}

	if (loss''')],
 needs='a complete sample directly followed by an incomplete one',
 breaks='flush leaves the incomplete sample and everything behind it in the buffer',
 demo='''
package jitter
'''+JB+'''
func TestZZDemo(t *testing.T) {
	b := zzB(time.Hour)
	defer b.Close()
	b.Push(zzP(1, 3))
	b.Push(zzP(3, 3))
	b.Push(zzP(4, 1))
	b.Push(zzP(6, 3))
	b.Flush()
	b.Push(zzP(7, 3))
	if n := len(zzGot); n != 4 || b.Size() != 0 { t.Fatal(zzGot, b.Size()) }
	b = zzB(time.Hour)
	defer b.Close()
	b.Push(zzP(2, 1))
	b.Push(zzP(4, 3))
	b.Push(zzP(5, 1))
	b.Flush()
	if b.Size() != 0 { t.Fatal(zzGot, b.Size()) }
}
'''),
dict(id='jit-pad-sample', property='J06', pkg='jitter',
 edits=[('jitter/buffer.go','''		if !c.extPacket.Padding {
			sample = append(sample, c.extPacket)
		}''','''		if !c.extPacket.Padding || len(sample) > 0 {
			sample = append(sample, c.extPacket)
		}''')],
 needs='a padding packet between the packets of one sample',
 breaks='the padding packet is delivered as media',
 demo='''
package jitter
'''+JB+'''
func TestZZDemo(t *testing.T) {
	b := zzB(time.Hour)
	defer b.Close()
	b.Push(zzP(1, 3))
	b.Push(zzP(2, 1))
	p := zzP(3, 0)
	p.Padding = true
	b.Push(p)
	b.Push(zzP(4, 2))
	if len(zzGot) != 3 { t.Fatal(zzGot) }
}
'''),
dict(id='jit-latency-update', property='J02', pkg='jitter',
 edits=[('jitter/buffer.go','''	b.latency = latency
	if b.head != nil {
		b.timer.Reset(time.Until(b.head.extPacket.ReceivedAt.Add(latency)))
	}''','''	if b.head != nil && latency < b.latency {
		b.timer.Reset(time.Until(b.head.extPacket.ReceivedAt.Add(latency)))
	}
	b.latency = latency
	if b.head != nil && latency > 0 && len(b.timer.C) == 0 {
		b.timer.Reset(latency)
	}''')],
 needs='the latency is changed while packets wait behind a gap',
 breaks='the wait starts anew, so packets behind a gap are released too late',
 demo='''
package jitter
'''+JB+'''
func TestZZDemo(t *testing.T) {
	b := zzB(200 * time.Millisecond)
	defer b.Close()
	b.Push(zzP(1, 3))
	b.Push(zzP(3, 3))
	for i := 0; i < 8; i++ {
		time.Sleep(50 * time.Millisecond)
		b.UpdateLatency(200 * time.Millisecond)
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	if len(zzGot) != 2 { t.Fatal(zzGot) }
}
'''),
# R
dict(id='ts-followup-reset', property='R02', pkg='rtp',
 edits=[('rtp/rtp.go','''	s.ev.Timestamp = s.s.CurTS(s.ev.Timestamp, s.packetDur)
	s.followup = false
}''','''	if dur > s.packetDur {
		s.ev.Timestamp = s.s.CurTS(s.ev.Timestamp, s.packetDur)
	}
	s.followup = false
}''')],
 needs='a delay of at most one frame on a stream while another stream has not caught up',
 breaks='the shared clock is not advanced by the delay; the other stream does not see the time',
 demo='''
package rtp

import "testing"

func TestZZDemo(t *testing.T) {
	var b Buffer
	s := NewSeqWriter(&b)
	a, c := s.NewStream(1, 8000), s.NewStream(2, 8000)
	for i := 0; i < 30; i++ {
		a.WritePayloadAtCurrent([]byte{1}, false)
		a.Delay(160)
	}
	// 30 frames have passed: more than the 25 that a stream may lag behind
	c.WritePayload([]byte{2}, false)
	if ts := b[len(b)-1].Timestamp; ts != 30*160 { t.Fatal(ts) }
}
'''),
dict(id='mux-upper-types', property='R03', pkg='rtp',
 edits=[('rtp/mux.go','''	if h.PayloadType < byte(len(m.static)) {
		r = m.static[h.PayloadType]
	} else {
		r = m.dynamic[h.PayloadType]
	}''','''	if t := h.PayloadType & 0x7f; t < byte(len(m.static)) {
		r = m.static[t]
	} else {
		r = m.dynamic[t]
	}''')],
 needs='a handler registered for or a header with a payload type above 127',
 breaks='packets are given to the handler of another payload type',
 demo='''
package rtp

import "testing"

func TestZZDemo(t *testing.T) {
	n := 0
	m := NewMux(nil)
	m.Register(200, HandlerFunc(func(*Header, []byte) error { n++; return nil }))
	m.Register(72, HandlerFunc(func(*Header, []byte) error { t.Fatal("wrong handler"); return nil }))
	m.HandleRTP(&Header{PayloadType: 200}, nil)
	if n != 1 { t.Fatal(n) }
}
'''),
dict(id='session-write-stale', property='R04', pkg='rtp',
 edits=[('rtp/session.go','''	w.buf = w.buf[:0]
	w.buf = slices.Grow(w.buf, sz)
	buf := w.buf[:sz]''','''	if cap(w.buf) < sz {
		w.buf = make([]byte, sz)
	}
	w.buf = slices.Grow(w.buf[:0], hsz)
	buf := w.buf[:max(sz, min(len(w.buf), cap(w.buf)))]
	if sz < 12+len(payload) || h.Padding {
		buf = buf[:cap(buf)]
	}''')],
 needs='a header with the padding flag after a longer packet',
 breaks='bytes of an earlier packet are sent behind the payload',
 demo='''
package rtp

import ("testing"; "net")

func TestZZDemo(t *testing.T) {
	a, b := net.Pipe()
	s := NewSession(nil, a)
	w, _ := s.OpenWriteStream()
	go func() {
		w.WriteRTP(&Header{Version: 2}, make([]byte, 100))
		w.WriteRTP(&Header{Version: 2, Padding: true}, []byte{1, 2, 3, 1})
	}()
	buf := make([]byte, 1500)
	b.Read(buf)
	if n, _ := b.Read(buf); n != 16 { t.Fatal(n) }
}
'''),
dict(id='port-range-wrap', property='R06', pkg='rtp',
 edits=[('rtp/listen.go','''		if portCurrent > portMax {
			portCurrent = portMin
		}''','''		if portCurrent > portMax {
			portCurrent = portMin + 1
		}''')],
 needs='all ports from the random start to the end of the range are taken and only the first one is free',
 breaks='the first port of the range is never tried after the wrap, the last but one twice',
 demo='''
package rtp

import ("testing"; "net"; "net/netip"; "syscall")

func TestZZDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		seen := map[int]bool{}
		bindRange(100, 110, netip.Addr{}, func(p int, ip netip.Addr) (*net.UDPConn, error) {
			seen[p] = true
			return nil, syscall.EADDRINUSE
		})
		if len(seen) != 11 { t.Fatal(seen) }
	}
}
'''),
dict(id='jitter-close-order', property='R07', pkg='rtp',
 edits=[('rtp/rtp.go','''	defer h.Close()

	for {
		p, _, err := r.ReadRTP()
		if err != nil {
			return err
		}
		err = h.HandleRTP(&p.Header, p.Payload)
		if err != nil {
			return err
		}
	}''','''	defer h.Close()

	var last error
	for {
		p, _, err := r.ReadRTP()
		if err != nil {
			if last != nil {
				err = last
			}
			return err
		}
		if len(p.Payload) == 0 {
			last = h.HandleRTP(&p.Header, p.Payload)
			continue
		}
		err = h.HandleRTP(&p.Header, p.Payload)
		if err != nil {
			return err
		}
	}''')],
 needs='the handler fails on a packet without payload',
 breaks='the loop goes on after an error of the handler',
 demo='''
package rtp

import ("testing"; "errors"; "github.com/pion/interceptor")

type zzR struct{ n int }

func (r *zzR) ReadRTP() (*Packet, interceptor.Attributes, error) {
	r.n++
	if r.n > 3 { return nil, nil, errors.New("eof") }
	return &Packet{}, nil, nil
}

func TestZZDemo(t *testing.T) {
	r := &zzR{}
	HandleLoop(r, NewNopCloser(HandlerFunc(func(*Header, []byte) error { return errors.New("x") })))
	if r.n != 1 { t.Fatal(r.n) }
}
'''),
# D
dict(id='dtmf-volume-mask', property='D01', pkg='dtmf',
 edits=[('dtmf/dtmf.go','''	out[1] = ev.Volume & 0x3f
	if ev.End {
		out[1] |= 1 << 7
	}''','''	out[1] = ev.Volume
	if ev.End {
		out[1] |= 1 << 7
	} else {
		out[1] &^= 1 << 7
	}''')],
 needs='a volume of 64 or more',
 breaks='the reserved bit is set on the wire',
 demo='''
package dtmf

import "testing"

func TestZZDemo(t *testing.T) {
	var b [4]byte
	Encode(b[:], Event{Digit: '1', Volume: 77})
	if b[1]&0x40 != 0 { t.Fatal(b) }
}
'''),
dict(id='dtmf-end-dur', property='D02', pkg='dtmf',
 edits=[('dtmf/dtmf.go','''				events.Delay(uint32(totalDur / (time.Second / SampleRate)))
			}''','''				events.Delay(uint32(dur / (time.Second / SampleRate)))
			}''')],
 needs='the tone length is not a multiple of the packet time, which holds for every digit; visible only at the second digit',
 breaks='the time stamps of later digits run ahead of the media',
 demo='''
package dtmf

import ("testing"; "context"; "github.com/livekit/media-sdk/rtp")

func TestZZDemo(t *testing.T) {
	var b rtp.Buffer
	s := rtp.NewSeqWriter(&b).NewStream(101, 8000)
	if err := Write(context.Background(), nil, s, 0, "12"); err != nil { t.Fatal(err) }
	first, last := b[0].Timestamp, b[len(b)-1].Timestamp
	if last-first != 4000 { t.Fatal(last - first) }
}
'''),
# T
dict(id='tone-single-silence', property='T01', pkg='tones',
 edits=[('tones/tones.go','''			if silence && t.Silence == 0 {''','''			if silence && t.Silence < frameDur {''')],
 needs='a silence shorter than one frame',
 breaks='the silence is skipped although one frame of it is due',
 demo='''
package tones

import ("testing"; "context"; "time"; "errors"; "github.com/livekit/media-sdk")

type zzW struct{ got []bool }

func (w *zzW) String() string  { return "" }
func (w *zzW) SampleRate() int { return 8000 }
func (w *zzW) WriteSample(s media.PCM16Sample) error {
	z := true
	for _, v := range s { z = z && v == 0 }
	w.got = append(w.got, z)
	if len(w.got) == 4 { return errors.New("end") }
	return nil
}

func TestZZDemo(t *testing.T) {
	w := &zzW{}
	Play(context.Background(), w, 1000, []Tone{{Freq: []Hz{400}, Dur: 20 * time.Millisecond, Silence: 10 * time.Millisecond}})
	if w.got[0] || !w.got[1] || w.got[2] || !w.got[3] { t.Fatal(w.got) }
}
'''),
dict(id='tone-amp-overflow', property='T02', pkg='tones',
 edits=[('tones/tones.go','int16(float64(amp) * sum / float64(len(freq)))','int16(float64(amp)*sum) / int16(len(freq))')],
 needs='two or more tones in phase with a high volume',
 breaks='the sum leaves the range of a sample and wraps around',
 demo='''
package tones

import ("testing"; "github.com/livekit/media-sdk"; "time")

func TestZZDemo(t *testing.T) {
	b := make(media.PCM16Sample, 160)
	Generate(b, 0, 20*time.Millisecond, 32767, []Hz{50, 50})
	for i := 1; i < len(b)/2; i++ {
		if b[i] < 0 { t.Fatal(i, b[i]) }
	}
}
'''),
# S
dict(id='sdp-answer-type', property='S01', pkg='sdp',
 edits=[('sdp/offer.go','''		if audioCodec == nil || codec.Info().Priority > priority {''','''		if audioCodec == nil || codec.Info().Priority >= priority {''')],
 needs='two offered formats of the same priority, for instance the same codec listed by rtpmap and by static type',
 breaks='the answer picks the last of the equals instead of the one the peer prefers',
 demo='''
package sdp

import ("testing"; "github.com/livekit/media-sdk/rtp"; _ "github.com/livekit/media-sdk/g711")

func TestZZDemo(t *testing.T) {
	c := rtp.CodecByPayloadType(0)
	a, err := SelectAudio(MediaDesc{Codecs: []CodecInfo{{Type: 96, Codec: c}, {Type: 97, Codec: c}}}, false)
	if err != nil || a.Type != 96 { t.Fatal(a, err) }
}
'''),
dict(id='sdp-require-apply', property='S02', pkg='sdp',
 edits=[('sdp/offer.go','''	if len(d.CryptoProfiles) != 0 && enc != EncryptionNone {
		sconf, _, err''','''	if len(d.CryptoProfiles) != 0 && len(offer.CryptoProfiles) != 0 {
		sconf, _, err''')],
 needs='encryption is disabled when the answer is applied although it was offered',
 breaks='the session is encrypted although the policy is none',
 demo='''
package sdp

import ("testing"; "net/netip"; _ "github.com/livekit/media-sdk/g711")

func TestZZDemo(t *testing.T) {
	ip := netip.MustParseAddr("1.2.3.4")
	o, _ := NewOffer(ip, 1000, EncryptionAllow)
	a, _, err := o.Answer(ip, 2000, EncryptionAllow)
	if err != nil { t.Fatal(err) }
	c, err := a.Apply(o, EncryptionNone)
	if err != nil || c.Crypto != nil { t.Fatal(c, err) }
}
'''),
dict(id='srtp-index-mirror', property='S03', pkg='sdp',
 edits=[('sdp/offer.go','''			if swap {
				localMKI, remoteMKI = remoteMKI, localMKI
			}''','''			if swap && len(remoteMKI) > 0 {
				localMKI, remoteMKI = remoteMKI, localMKI
			}''')],
 needs='only the offer carries an MKI and we are the answerer',
 breaks='packets are sent with the MKI of the peer and received ones are taken to have none',
 demo='''
package sdp

import ("testing"; "github.com/livekit/media-sdk/srtp")

func TestZZDemo(t *testing.T) {
	off, _ := srtp.DefaultProfiles()
	ans, _ := srtp.DefaultProfiles()
	off[0].MKI = []byte{1}
	c, _, err := SelectCrypto(off, ans, true)
	if err != nil || len(c.LocalOptions) != 0 || len(c.RemoteOptions) != 1 { t.Fatal(len(c.LocalOptions), len(c.RemoteOptions), err) }
}
'''),
dict(id='srtp-mki-limit', property='S04', pkg='sdp',
 edits=[('sdp/offer.go','''	if length < 8 && value >= uint64(1)<<(length*8) {''','''	if length < 8 && value > uint64(1)<<(length*8) {''')],
 needs='an MKI value of exactly 2^(8*length)',
 breaks='an MKI which does not fit is accepted and truncated to zero',
 demo='''
package sdp

import "testing"

func TestZZDemo(t *testing.T) {
	if m, err := parseMKI("256:1"); err == nil { t.Fatal(m) }
	if m, err := parseMKI("255:1"); err != nil || m[0] != 255 { t.Fatal(m, err) }
}
'''),
dict(id='sdp-dtmf-rebind', property='S05', pkg='sdp',
 edits=[('sdp/offer.go','''			name := sub[1]
''','''			name, _, _ := strings.Cut(sub[1], ";")
''')],
 needs='an rtpmap whose codec name contains a semicolon',
 breaks='an unknown encoding is taken for a known codec',
 demo='''
package sdp

import ("testing"; psdp "github.com/pion/sdp/v3"; _ "github.com/livekit/media-sdk/g711")

func TestZZDemo(t *testing.T) {
	m, err := ParseMedia(&psdp.MediaDescription{Attributes: []psdp.Attribute{{Key: "rtpmap", Value: "97 PCMU/8000;x"}}})
	if err != nil || m.Codecs[0].Codec != nil { t.Fatal(m, err) }
}
'''),
dict(id='sdp-origin-fallback', property='S06', pkg='sdp',
 edits=[('sdp/helpers.go','''	} else if s.Origin.NetworkType == "IN" {
		addr = s.Origin.UnicastAddress
	}''','''	}
	if addr == "" && s.Origin.NetworkType == "IN" {
		addr = s.Origin.UnicastAddress
	}''')],
 needs='a connection line without an address',
 breaks='media is sent to the address in the origin line although the connection line is the authority',
 demo='''
package sdp

import ("testing"; psdp "github.com/pion/sdp/v3")

func TestZZDemo(t *testing.T) {
	s := &psdp.SessionDescription{Origin: psdp.Origin{NetworkType: "IN", UnicastAddress: "9.9.9.9"},
		ConnectionInformation: &psdp.ConnectionInformation{NetworkType: "IN", Address: &psdp.Address{Address: ""}}}
	a, err := GetAudioDest(s, &psdp.MediaDescription{})
	if err == nil { t.Fatal(a) }
}
'''),
dict(id='offer-type-collision', property='S07', pkg='sdp',
 edits=[('sdp/offer.go','''			typ := nextType
			nextType++
			info.Type = typ''','''			typ := nextType
			if d := cinfo.RTPDefType; d > nextType {
				typ = d
			} else {
				nextType++
			}
			info.Type = typ''')],
 needs='a dynamic codec with a preferred type that later codecs reach by counting, or two codecs with the same preferred type',
 breaks='two codecs share a payload type in the offer',
 demo='''
package sdp

import ("testing"; "github.com/livekit/media-sdk")

func TestZZDemo(t *testing.T) {
	for _, n := range []string{"A/1", "B/1"} {
		media.RegisterCodec(media.NewCodec(media.CodecInfo{SDPName: n, SampleRate: 1, RTPDefType: 111}))
	}
	seen := map[byte]bool{}
	for _, c := range OfferCodecs() {
		if seen[c.Type] { t.Fatal(c.Type) }
		seen[c.Type] = true
	}
}
'''),
]
