SEEDS=[
# C03 -------------------------------------------------------------
dict(id='pcm-copyto-odd-check', property='C03', pkg='.',
 edits=[('pcm.go','''	if len(dst) < len(s)*2 {
		return 0, io.ErrShortBuffer
	}''','''	if len(dst)/2 < len(s)-len(s)%2 {
		return 0, io.ErrShortBuffer
	}''')],
 needs='an odd number of samples and a destination exactly one sample short',
 breaks='CopyTo panics instead of reporting a short buffer',
 demo='''
package media

import ("testing"; "io")

func TestZZDemo(t *testing.T) {
	defer func() { if e := recover(); e != nil { t.Fatal(e) } }()
	if n, err := (PCM16Sample{1, 2, 3}).CopyTo(make([]byte, 5)); err != io.ErrShortBuffer || n != 0 {
		t.Fatal(n, err)
	}
	if n, err := (PCM16Sample{1, 2}).CopyTo(make([]byte, 4)); err != nil || n != 4 {
		t.Fatal(n, err)
	}
}
'''),
# C04
dict(id='stereo-avg-shift', property='C04', pkg='.',
 edits=[('pcm.go','int16((int32(src[i*2+0]) + int32(src[i*2+1])) / 2)','int16((int32(src[i*2+0]) + int32(src[i*2+1])) >> 1)')],
 needs='a pair whose sum is odd and negative',
 breaks='the average is rounded towards minus infinity, so silence with a little noise gets a DC offset and inverted input is not inverted output',
 demo='''
package media

import "testing"

func TestZZDemo(t *testing.T) {
	a, b := make(PCM16Sample, 1), make(PCM16Sample, 1)
	StereoToMono(a, PCM16Sample{-3, 0})
	StereoToMono(b, PCM16Sample{3, 0})
	if a[0] != -b[0] || a[0] != -1 {
		t.Fatal(a, b)
	}
}
'''),
# C05
dict(id='webm-shared-block', property='C05', pkg='webm',
 edits=[('webm/writer.go','''	_, err = w.ws.Write(true, w.ts.Milliseconds(), slices.Clone(w.buf[:n]))''','''	data := w.buf[:n]
	if n < cap(w.buf) {
		data = slices.Clone(data)
	}
	_, err = w.ws.Write(true, w.ts.Milliseconds(), data)''')],
 needs='a frame exactly as large as the scratch buffer, overwritten while the block is still queued',
 breaks='queued blocks change content when the next frame is written',
 demo='''
package webm

import (
	"testing"
	"time"
	"github.com/livekit/media-sdk"
)

type zzBlocks struct{ got [][]byte }

func (z *zzBlocks) Write(k bool, ts int64, b []byte) (int, error) { z.got = append(z.got, b); return len(b), nil }
func (z *zzBlocks) Close() error                                   { return nil }

func TestZZDemo(t *testing.T) {
	z := &zzBlocks{}
	w := &writer[media.PCM16Sample]{ws: z, dur: 20 * time.Millisecond}
	for i := int16(1); i < 5; i++ {
		if err := w.WriteSample(media.PCM16Sample{i, i, i, i}); err != nil {
			t.Fatal(err)
		}
	}
	for i, b := range z.got {
		if b[0] != byte(i+1) {
			t.Fatalf("block %d has %d", i, b[0])
		}
	}
}
'''),
# C06
dict(id='switch-double-close', property='C06', pkg='.',
 edits=[('media.go','''	ptr := s.ptr.Swap(nil)
	if ptr == nil {
		return nil
	}
	return (*ptr).Close()''','''	ptr := s.ptr.Load()
	if ptr == nil {
		return nil
	}
	if err := (*ptr).Close(); err != nil {
		return err
	}
	s.ptr.CompareAndSwap(ptr, nil)
	return nil''')],
 needs='two concurrent closes, or a writer whose Close fails, or a write during Close',
 breaks='the attached writer is closed twice or still receives samples',
 demo='''
package media

import ("testing"; "errors")

type zzW struct{ closed, writes int }

func (w *zzW) String() string  { return "" }
func (w *zzW) SampleRate() int { return 8000 }
func (w *zzW) Close() error    { w.closed++; return errors.New("x") }
func (w *zzW) WriteSample(s PCM16Sample) error {
	if w.closed > 0 { w.writes++ }
	return nil
}

func TestZZDemo(t *testing.T) {
	z := &zzW{}
	s := NewSwitchWriter(8000)
	s.Swap(z)
	s.Close()
	s.Close()
	s.WriteSample(PCM16Sample{1})
	if z.closed != 1 || z.writes != 0 {
		t.Fatal(z.closed, z.writes)
	}
}
'''),
# C07
dict(id='multi-first-error', property='C07', pkg='.',
 edits=[('media.go','''		if err := w.Close(); err != nil {
			last = err
		}''','''		if err := w.Close(); err != nil {
			if last != nil {
				return err
			}
			last = err
		}''')],
 needs='two failing writers before a third one',
 breaks='writers after the second failing one are never closed',
 demo='''
package media

import ("testing"; "errors")

type zzW struct{ closed int; err error }

func (w *zzW) String() string  { return "" }
func (w *zzW) SampleRate() int { return 8000 }
func (w *zzW) Close() error    { w.closed++; return w.err }
func (w *zzW) WriteSample(s PCM16Sample) error { return nil }

func TestZZDemo(t *testing.T) {
	e := errors.New("x")
	a, b, c := &zzW{err: e}, &zzW{err: e}, &zzW{}
	m := MultiWriter[PCM16Sample]{a, b, c}
	if err := m.Close(); err == nil || c.closed != 1 {
		t.Fatal(err, c.closed)
	}
}
'''),
# C08
dict(id='file-close-flush', property='C08', pkg='.',
 edits=[('media.go','''	if err := w.bw.Flush(); err != nil {
		_ = w.w.Close()
		return err
	}
	if err := w.w.Close(); err != nil {
		return err
	}
	return nil''','''	ferr := w.bw.Flush()
	err := w.w.Close()
	if err != nil && ferr != nil {
		return ferr
	}
	return err''')],
 needs='the disk becomes full at the flush of the last buffered bytes while close itself succeeds',
 breaks='the lost tail of the file is not reported',
 demo='''
package media

import ("testing"; "errors")

type zzF struct{}

func (zzF) Write(p []byte) (int, error) { return 0, errors.New("disk full") }
func (zzF) Close() error                { return nil }

func TestZZDemo(t *testing.T) {
	w := NewFileWriter[PCM16Sample](zzF{}, 8000)
	w.WriteSample(PCM16Sample{1})
	if err := w.Close(); err == nil {
		t.Fatal("lost data is not reported")
	}
}
'''),
# C09
dict(id='pipe-done-ack', property='C09', pkg='.',
 edits=[('pipe.go','''			nw := <-p.rdCh
			b = b[nw:]
			n += nw
''','''			select {
			case nw := <-p.rdCh:
				b = b[nw:]
				n += nw
			case <-p.done:
				return n, p.writeCloseError()
			}
''')],
 needs='the pipe is closed between the hand-over of a sample and its acknowledgement',
 breaks='the reader is blocked for ever, and the writer reports failure for data which was read',
 demo='''
package media

import ("testing"; "time")

func TestZZDemo(t *testing.T) {
	src, dst := make(PCM16Sample, 1<<24), make(PCM16Sample, 1<<24)
	for i := 0; i < 200; i++ {
		r, w := Pipe[PCM16Sample, int16](8000)
		done := make(chan struct{})
		go func() { w.WriteSample(src) }()
		go func() { r.ReadSample(dst); close(done) }()
		time.Sleep(time.Duration(i%20) * 500 * time.Microsecond)
		w.Close()
		select {
		case <-done:
		case <-time.After(3 * time.Second):
			t.Fatal("reader is stuck")
		}
	}
}
'''),
# C10
dict(id='play-last-error', property='C10', pkg='.',
 edits=[('pcm.go','''		if err := w.WriteSample(samples); err != nil {
			return err
		}
		if len(frames) == 0 {
			return nil
		}''','''		err := w.WriteSample(samples)
		if len(frames) == 0 {
			return nil
		}
		if err != nil {
			return err
		}''')],
 needs='the write of the very last frame fails',
 breaks='the failure is not reported',
 demo='''
package media

import ("testing"; "errors"; "time"; "context")

type zzW struct{ n int }

func (w *zzW) String() string  { return "" }
func (w *zzW) SampleRate() int { return 8000 }
func (w *zzW) WriteSample(s PCM16Sample) error {
	w.n++
	if w.n == 2 { return errors.New("x") }
	return nil
}

func TestZZDemo(t *testing.T) {
	if err := PlayAudio[PCM16Sample](context.Background(), &zzW{}, time.Millisecond, []PCM16Sample{{1}, {2}}); err == nil {
		t.Fatal("no error")
	}
}
'''),
# C11
dict(id='resample-frame-latest', property='C11', pkg='.',
 edits=[('resample_soxr.go','''		if err := w.w.WriteSample(w.buf[:sz]); err != nil {
			last = err
		}''','''		if err := w.w.WriteSample(w.buf[:sz]); err != nil {
			last = err
			break
		}''')],
 needs='the destination rejects a frame and another write follows',
 breaks='samples of the rejected frame are delivered again',
 demo='''
package media

import ("testing"; "errors")

type zzW struct{ n int; got []int16 }

func (w *zzW) String() string  { return "" }
func (w *zzW) SampleRate() int { return 8000 }
func (w *zzW) Close() error    { return nil }
func (w *zzW) WriteSample(s PCM16Sample) error {
	w.n++
	w.got = append(w.got, s...)
	if w.n == 2 { return errors.New("x") }
	return nil
}

func TestZZDemo(t *testing.T) {
	z := &zzW{}
	w := ResampleWriter(z, 16000)
	for i := 0; i < 20; i++ {
		w.WriteSample(make(PCM16Sample, 320))
	}
	w.Close()
	if len(z.got) > 3200 {
		t.Fatal("more samples than in the input", len(z.got))
	}
}
'''),
# C12
dict(id='codec-clone', property='C12', pkg='.',
 edits=[('codecs.go','''	out := make([]Codec, 0, len(codecs))
	for _, c := range codecs {
		name''','''	out := codecs
	if len(disabled) != 0 {
		out = make([]Codec, 0, len(codecs))
	}
	if len(disabled) == 0 {
		return out
	}
	for _, c := range codecs {
		name''')],
 needs='no codec is disabled and the caller sorts or overwrites the returned list',
 breaks='the caller changes the registry itself',
 demo='''
package media

import "testing"

func TestZZDemo(t *testing.T) {
	RegisterCodec(NewCodec(CodecInfo{SDPName: "A/1", SampleRate: 1}))
	RegisterCodec(NewCodec(CodecInfo{SDPName: "B/1", SampleRate: 1}))
	c := EnabledCodecs()
	c[0], c[1] = c[1], c[0]
	if n := Codecs()[0].Info().SDPName; n != "A/1" {
		t.Fatal(n)
	}
}
'''),
# G01/G02/G03
dict(id='alaw-buf-shrink', property='G03', pkg='g711',
 edits=[('g711/alaw.go','''	if len(in) >= cap(d.buf) {
		d.buf = make(media.PCM16Sample, len(in))
	} else {
		d.buf = d.buf[:len(in)]
	}''','''	if len(in) > cap(d.buf) {
		d.buf = make(media.PCM16Sample, len(in))
	} else if len(in) > 0 {
		d.buf = d.buf[:len(in)]
	}''')],
 needs='an empty frame after a non-empty one',
 breaks='the previous frame is played again for the empty one',
 demo='''
package g711

import ("testing"; "github.com/livekit/media-sdk")

func TestZZDemo(t *testing.T) {
	var fr []media.PCM16Sample
	w := DecodeALaw(media.NewPCM16FrameWriter(&fr, 8000))
	w.WriteSample(ALawSample{1, 2, 3})
	w.WriteSample(ALawSample{})
	if len(fr) == 2 && len(fr[1]) != 0 {
		t.Fatal(fr)
	}
}
'''),
# G04
dict(id='g722-stale-tail', property='G04', pkg='g722',
 edits=[('g722/g722.go','''	n := d.d.Decode(d.buf, in)
	return d.w.WriteSample(d.buf[:n])''','''	if len(d.buf) > sz && sz > 0 {
		d.buf = d.buf[:sz]
	}
	d.d.Decode(d.buf, in)
	return d.w.WriteSample(d.buf)''')],
 needs='a shorter frame followed by a longer one, or an empty frame',
 breaks='frames carry samples of earlier frames or crash the decoder',
 demo='''
package g722

import ("testing"; "github.com/livekit/media-sdk")

func TestZZDemo(t *testing.T) {
	defer func() { if e := recover(); e != nil { t.Fatal(e) } }()
	var fr []media.PCM16Sample
	w := Decode(media.NewPCM16FrameWriter(&fr, 16000))
	w.WriteSample(make(Sample, 4))
	w.WriteSample(make(Sample, 2))
	w.WriteSample(make(Sample, 4))
	if len(fr[0]) != 8 || len(fr[1]) != 4 || len(fr[2]) != 8 {
		t.Fatal(len(fr[0]), len(fr[1]), len(fr[2]))
	}
}
'''),
# O01/O02
dict(id='opus-buf2-stale', property='O01', pkg='opus',
 edits=[('opus/opus.go','''	if d.dec == nil || d.lastChannels != channels {''','''	if d.dec == nil || d.lastChannels < channels {''')],
 needs='a stream that switches from stereo to mono packets',
 breaks='mono packets are decoded by the stereo decoder into a buffer twice as long; half of each frame is played as wrong audio',
 demo='''
package opus

import (
	"testing"
	"github.com/livekit/media-sdk"
	"github.com/livekit/protocol/logger"
)

func TestZZDemo(t *testing.T) {
	enc := func(ch int) Sample {
		var got []Sample
		w, err := Encode(zzS{&got}, ch, logger.GetLogger())
		if err != nil { t.Fatal(err) }
		in := make(media.PCM16Sample, 960*ch)
		for i := range in { in[i] = int16((i / ch) * 29 % 8000) }
		if err := w.WriteSample(in); err != nil { t.Fatal(err) }
		return got[0]
	}
	st, mo := enc(2), enc(1)
	dec := func(p ...Sample) media.PCM16Sample {
		var fr []media.PCM16Sample
		d, _ := Decode(media.NewPCM16FrameWriter(&fr, 48000), 1, logger.GetLogger())
		for _, s := range p {
			if err := d.WriteSample(s); err != nil { t.Fatal(err) }
		}
		return fr[len(fr)-1]
	}
	a, b := dec(mo), dec(st, mo)
	if len(a) != len(b) { t.Fatal(len(a), len(b)) }
	for i := range a {
		if a[i] != b[i] { t.Fatal("sample", i, a[i], b[i]) }
	}
}

type zzS struct{ got *[]Sample }

func (z zzS) String() string  { return "" }
func (z zzS) SampleRate() int { return 48000 }
func (z zzS) Close() error    { return nil }
func (z zzS) WriteSample(s Sample) error { *z.got = append(*z.got, append(Sample{}, s...)); return nil }
'''),
dict(id='opus-error-reset', property='O02', pkg='opus',
 edits=[('opus/opus.go','''		d.logger.Debugw("opus decoder failed decoding a sample")
		d.successiveErrorCount++
		return nil
	}
	d.successiveErrorCount = 0
''','''		d.logger.Debugw("opus decoder failed decoding a sample")
		d.successiveErrorCount++
		return nil
	}
	d.successiveErrorCount = max(0, d.successiveErrorCount-1)
''')],
 needs='many isolated corrupt packets, each followed by too few good ones',
 breaks='an isolated corrupt packet ends the stream although the previous packet was decoded',
 demo='''
package opus

import (
	"testing"
	"github.com/livekit/media-sdk"
	"github.com/livekit/protocol/logger"
)

func TestZZDemo(t *testing.T) {
	var got []Sample
	w, _ := Encode(zzS{&got}, 1, logger.GetLogger())
	if err := w.WriteSample(make(media.PCM16Sample, 960)); err != nil { t.Fatal(err) }
	var fr []media.PCM16Sample
	d, _ := Decode(media.NewPCM16FrameWriter(&fr, 48000), 1, logger.GetLogger())
	bad := Sample{got[0][0] | 3, 0xff} // code 3 packet with an impossible frame count
	for i := 0; i < 8; i++ {
		for j := 0; j < 3; j++ {
			if err := d.WriteSample(bad); err != nil { t.Fatal(i, j, err) }
		}
		if err := d.WriteSample(got[0]); err != nil { t.Fatal(err) }
	}
}

type zzS struct{ got *[]Sample }

func (z zzS) String() string  { return "" }
func (z zzS) SampleRate() int { return 48000 }
func (z zzS) Close() error    { return nil }
func (z zzS) WriteSample(s Sample) error { *z.got = append(*z.got, append(Sample{}, s...)); return nil }
'''),
# W01
dict(id='webm-ts-on-error', property='W01', pkg='webm',
 edits=[('webm/writer.go','''	_, err = w.ws.Write(true, w.ts.Milliseconds(), slices.Clone(w.buf[:n]))
	w.ts += w.dur
	return err''','''	_, err = w.ws.Write(true, w.ts.Milliseconds(), slices.Clone(w.buf[:n]))
	w.ts += w.dur.Truncate(time.Millisecond)
	return err''')],
 needs='a frame duration which is not a whole number of milliseconds (2.5 ms)',
 breaks='timestamps drift away from the media time',
 demo='''
package webm

import (
	"testing"
	"time"
	"github.com/livekit/media-sdk"
)

type zzBlocks struct{ ts []int64 }

func (z *zzBlocks) Write(k bool, ts int64, b []byte) (int, error) { z.ts = append(z.ts, ts); return len(b), nil }
func (z *zzBlocks) Close() error                                   { return nil }

func TestZZDemo(t *testing.T) {
	z := &zzBlocks{}
	w := &writer[media.PCM16Sample]{ws: z, dur: 2500 * time.Microsecond}
	for i := int16(0); i < 5; i++ {
		w.WriteSample(media.PCM16Sample{i})
	}
	if z.ts[4] != 10 {
		t.Fatal(z.ts)
	}
}
'''),
]
