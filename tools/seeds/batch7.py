W16='''
type zzW struct{ got []int16; rate int }

func (w *zzW) String() string  { return "" }
func (w *zzW) SampleRate() int { return w.rate }
func (w *zzW) Close() error    { return nil }
'''
SEEDS=[
dict(id='law-lowest-samples', property='G02', pkg='g711',
 edits=[('g711/g711.go','''	table[0] = table[1]
''','')],
 needs='samples in the lowest four units of the range (-32768..-32765)',
 breaks='the most negative samples are encoded as a code of the wrong segment',
 demo='''package g711

import "testing"

func TestZZDemo(t *testing.T) {
	var b [1]byte
	var o [1]int16
	EncodeULawTo(b[:], []int16{-32768})
	DecodeULawTo(o[:], b[:])
	if o[0] > -30000 { t.Fatal("u", o[0]) }
	EncodeALawTo(b[:], []int16{-32768})
	DecodeALawTo(o[:], b[:])
	if o[0] > -30000 { t.Fatal("a", o[0]) }
}
'''),
dict(id='law-unrolled', property='G01', pkg='g711',
 edits=[('g711/g711.go','''func DecodeALawTo(out []int16, buf []byte) {
	for i, v := range buf {
		out[i] = alaw2lin[v]
	}
''','''func DecodeALawTo(out []int16, buf []byte) {
	n := len(buf) &^ 3
	for i := 0; i < n; i += 4 {
		b, o := buf[i:i+4], out[i:i+4]
		o[0], o[1], o[2], o[3] = alaw2lin[b[0]], alaw2lin[b[1]], alaw2lin[b[2]], alaw2lin[b[3]]
	}
	for i := n + 1; i < len(buf); i++ {
		out[i] = alaw2lin[buf[i]]
	}
''')],
 needs='frames whose size is not a multiple of four',
 breaks='the first byte of the remainder is not decoded',
 demo='''package g711

import "testing"

func TestZZDemo(t *testing.T) {
	o := ALawSample{1, 2, 3, 4, 5, 6}.Decode()
	for i := range o {
		if o[i] != int16(alaw2linear(byte(i+1))) { t.Fatal(i, o[i]) }
	}
}
'''),
dict(id='ogg-eof-data', property='E01', pkg='res',
 edits=[('res/embed.go','''		if n != 0 {
			frame :=''','''		if err == io.EOF {
			break
		}
		if n != 0 {
			frame :='''),('res/embed.go','''		if err == io.EOF {
			break
		} else if err != nil {''','''		if err != nil {''')],
 needs='a decoder that returns its last samples together with the end of the stream',
 breaks='the end of the resource is cut off',
 demo='''package res

import (
	"bytes"
	"io"
	"testing"

	"github.com/jfreymuth/oggvorbis"
)

func TestZZDemo(t *testing.T) {
	for i, data := range [][]byte{EnterPinOgg, RoomJoinOgg, WrongPinOgg} {
		r, err := oggvorbis.NewReader(bytes.NewReader(data))
		if err != nil { t.Fatal(err) }
		ch := r.Channels()
		total := 0
		buf := make([]float32, 960*ch)
		for {
			n, err := r.Read(buf)
			total += n
			if err == io.EOF { break }
			if err != nil { t.Fatal(err) }
		}
		got := 0
		for _, f := range ReadOggAudioFile(data, r.SampleRate(), ch) { got += len(f) }
		if got != total { t.Fatal(i, got, total) }
	}
}
'''),
dict(id='mix-stopped-track', property='X04', pkg='mixer',
 edits=[('mixer/mixer.go','''	if m.stopped.IsBroken() {
		return nil
	}

	m.stats.Tracks.Add(1)
	m.stats.TracksTotal.Add(1)
''','''	m.stats.Tracks.Add(1)
	m.stats.TracksTotal.Add(1)
	if m.stopped.IsBroken() {
		return nil
	}
''')],
 needs='an input requested after the mixer was stopped',
 breaks='the track count includes inputs that were never added',
 demo='''package mixer

import (
	"testing"
	"time"

	msdk "github.com/livekit/media-sdk"
)

func TestZZDemo(t *testing.T) {
	var out msdk.PCM16Sample
	st := &Stats{}
	m, err := NewMixer(msdk.NewPCM16BufferWriter(&out, 8000), 20*time.Millisecond, 1, WithStats(st))
	if err != nil { t.Fatal(err) }
	m.Stop()
	if m.NewInput() != nil || st.Tracks.Load() != 0 { t.Fatal(st.Tracks.Load()) }
}
'''),
dict(id='rtp-in-empty', property='R08', pkg='rtp',
 edits=[('rtp/rtp.go','''	return s.Writer.WriteSample(T(payload))
''','''	if len(payload) == 0 {
		return nil
	}
	return s.Writer.WriteSample(T(payload))
''')],
 needs='an empty frame in the stream',
 breaks='frames without samples are not delivered',
 demo='''package rtp

import "testing"

type zzB []byte

func (b zzB) Size() int                        { return len(b) }
func (b zzB) CopyTo(d []byte) (int, error)     { return copy(d, b), nil }

type zzW struct{ n int }

func (w *zzW) String() string            { return "" }
func (w *zzW) SampleRate() int           { return 8000 }
func (w *zzW) WriteSample(s zzB) error   { w.n++; return nil }

func TestZZDemo(t *testing.T) {
	w := &zzW{}
	h := NewMediaStreamIn[zzB](w)
	_ = h.HandleRTP(&Header{}, []byte{1})
	_ = h.HandleRTP(&Header{}, nil)
	if w.n != 2 { t.Fatal(w.n) }
}
'''),
dict(id='tone-step-trunc', property='T02', pkg='tones',
 edits=[('tones/tones.go','''	phi := ts + (dur*time.Duration(i))/time.Duration(len(buf))''','''	phi := ts + dur/time.Duration(len(buf))*time.Duration(i)''')] if False else [('tones/tones.go','''		phi := ts + (dur*time.Duration(i))/time.Duration(len(buf))
''','''		phi := ts + (dur/time.Millisecond*time.Duration(i)/time.Duration(len(buf)))*time.Millisecond
''')],
 needs='frames in which samples do not lie at whole milliseconds',
 breaks='samples within a millisecond are all evaluated at the same time',
 demo='''package tones

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	a := make([]int16, 160)
	Generate(a, 0, 20*time.Millisecond, 10000, []Hz{425})
	for i := 0; i < 8; i++ {
		b := make([]int16, 1)
		Generate(b, time.Duration(i)*125*time.Microsecond, 125*time.Microsecond, 10000, []Hz{425})
		if a[i] != b[0] { t.Fatal(i, a[i], b[0]) }
	}
}
'''),
dict(id='sdp-media-conn-fallthrough', property='S06', pkg='sdp',
 edits=[('sdp/helpers.go','''	if ci == nil {
		ci = s.ConnectionInformation
	}
''','''	if ci == nil || ci.NetworkType != "IN" {
		ci = s.ConnectionInformation
	}
''')],
 needs='a media-level connection line of another network type besides a session-level one',
 breaks='the connection line that is not in force is used instead of the origin',
 demo='''package sdp

import (
	"testing"

	"github.com/pion/sdp/v3"
)

func TestZZDemo(t *testing.T) {
	ci := func(n, a string) *sdp.ConnectionInformation {
		return &sdp.ConnectionInformation{NetworkType: n, AddressType: "IP4", Address: &sdp.Address{Address: a}}
	}
	s := &sdp.SessionDescription{Origin: sdp.Origin{NetworkType: "IN", AddressType: "IP4", UnicastAddress: "10.0.0.1"}, ConnectionInformation: ci("IN", "10.0.0.2")}
	a := &sdp.MediaDescription{MediaName: sdp.MediaName{Media: "audio", Port: sdp.RangedPort{Value: 4000}}, ConnectionInformation: ci("ATM", "10.0.0.3")}
	d, err := GetAudioDest(s, a)
	if err != nil || d.Addr().String() != "10.0.0.1" { t.Fatal(d, err) }
}
'''),
dict(id='listen-last-port', property='R06', pkg='rtp',
 edits=[('rtp/listen.go','for try := 0; try < ports; try++ {','for try := 1; try < ports; try++ {')],
 needs='all ports of the range but the last one tried in use',
 breaks='listening fails although a port of the range is free',
 demo='''package rtp

import (
	"net"
	"net/netip"
	"syscall"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		tried := map[int]bool{}
		_, _ = bindRange(4000, 4002, netip.Addr{}, func(port int, ip netip.Addr) (*net.UDPConn, error) {
			tried[port] = true
			return nil, syscall.EADDRINUSE
		})
		if len(tried) != 3 { t.Fatal(tried) }
	}
}
'''),
dict(id='switch-swap-split', property='C06', pkg='.',
 edits=[('media.go','''		old = s.ptr.Swap(&w)
''','''		old = s.ptr.Load()
		s.ptr.Store(&w)
''')],
 needs='two writers attached at the same time',
 breaks='a writer that was attached is handed back to nobody and another one twice',
 demo='''package media

import (
	"sync"
	"testing"
)

type zzW struct{ back int }

func (w *zzW) String() string                  { return "" }
func (w *zzW) SampleRate() int                 { return 8000 }
func (w *zzW) WriteSample(s PCM16Sample) error { return nil }
func (w *zzW) Close() error                    { return nil }

func TestZZDemo(t *testing.T) {
	s := NewSwitchWriter(8000)
	const n = 300000
	var wg sync.WaitGroup
	all := make([][]*zzW, 4)
	got := make([][]PCM16Writer, 4)
	for g := range all {
		all[g] = make([]*zzW, n)
		for i := range all[g] { all[g][i] = &zzW{} }
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, w := range all[g] { got[g] = append(got[g], s.Swap(w)) }
		}()
	}
	wg.Wait()
	got[0] = append(got[0], s.Swap(nil))
	for _, l := range got {
		for _, w := range l {
			if w != nil { w.(*zzW).back++ }
		}
	}
	for _, l := range all {
		for _, w := range l {
			if w.back != 1 { t.Fatal("handed back", w.back) }
		}
	}
}
'''),
dict(id='jit-range-edge', property='J07', pkg='jitter',
 edits=[('jitter/buffer.go','	return a-b < 3000 || b-a < 3000','	return a-b <= 3000 || b-a <= 3000')],
 needs='a jump of exactly 3000',
 breaks='the first packets of the new stream wait for the latency and the jump counts as loss',
 demo='''package jitter

import (
	"testing"
	"time"

	"github.com/pion/rtp"
)

type zzD struct{}

func (zzD) Unmarshal(p []byte) ([]byte, error)    { return p, nil }
func (zzD) IsPartitionHead(p []byte) bool         { return true }
func (zzD) IsPartitionTail(m bool, p []byte) bool { return true }

func TestZZDemo(t *testing.T) {
	n := 0
	b := NewBuffer(zzD{}, time.Hour, func(p []ExtPacket) { n += len(p) })
	defer b.Close()
	for _, sn := range []uint16{10, 11, 3011, 3012} {
		b.Push(&rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: sn}, Payload: []byte{1}})
	}
	if n != 4 || b.Stats().PacketsLost != 0 { t.Fatal(n, b.Stats().PacketsLost) }
}
'''),
]
