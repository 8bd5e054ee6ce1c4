package main

import (
	"errors"
	"io"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/zzverif/sym"
)

type smp = media.PCM16Sample

var errA = errors.New("custom a")
var errB = errors.New("custom b")

// Writes of symbolic sizes against reads of symbolic sizes, no close.
func HTransfer() {
	sym.Preempt(sym.Bound(1, 2), false)
	r, w := media.Pipe[smp, int16](48000)
	nw := sym.Bound(2, 3)
	var chunks []smp
	total := 0
	for i := 0; i < nw; i++ {
		c := smp(sym.I16s[int16]("s", sym.Choose("size", 3)))
		chunks = append(chunks, c)
		total += len(c)
	}
	dst := make(smp, total+4)
	pos := 0
	wdone := make(chan bool, 1)
	go func() {
		sent := 0
		for _, c := range chunks {
			err := w.WriteSample(append(smp{}, c...))
			sym.Assert(err == nil, "a write on an open pipe failed")
			for j := range c {
				sym.Assert(dst[sent+j] == c[j], "a write succeeded before all of its samples were read in order")
			}
			sent += len(c)
		}
		wdone <- true
		w.Close()
	}()
	bs := 1 + sym.Choose("buf", 2)
	reads := 0
	for {
		n, err := r.ReadSample(dst[pos : pos+bs])
		if err != nil {
			sym.Assert(err == io.EOF, "a plain writer close is not reported as end of stream")
			sym.Assert(n == 0, "a read fails and returns samples")
			break
		}
		sym.Assert(n >= 0 && n <= bs, "a read returned an invalid count")
		reads++
		pos += n
		sym.Assert(pos <= total, "more samples were read than written")
	}
	sym.Assert(pos == total, "samples were lost")
	k := 0
	for _, c := range chunks {
		// an empty write is handed over as well
		reads -= max(1, (len(c)+bs-1)/bs)
	}
	sym.Assert(reads == 0, "a write was not handed over in the fewest reads")
	for _, c := range chunks {
		for _, v := range c {
			sym.Assert(dst[k] == v, "samples were changed or reordered")
			k++
		}
	}
	<-wdone
	sym.Assert(w.SampleRate() == 48000, "the sample rate changed")
	sym.Reach("end")
}

// Two concurrent writers: each write is delivered contiguously.
func HTwoWriters() {
	sym.Preempt(sym.Bound(2, 3), false)
	r, w := media.Pipe[smp, int16](48000)
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		go func() {
			err := w.WriteSample(smp{int16(10 * i), int16(10*i + 1)})
			sym.Assert(err == nil, "a write on an open pipe failed")
			done <- true
		}()
	}
	bs := 1 + sym.Choose("buf", 3)
	var got smp
	for len(got) < 4 {
		b := make(smp, bs)
		n, err := r.ReadSample(b)
		sym.Assert(err == nil && n > 0 && n <= bs, "a read failed although a writer is pending")
		got = append(got, b[:n]...)
	}
	<-done
	<-done
	ok := len(got) == 4 && got[1] == got[0]+1 && got[3] == got[2]+1 && got[0]+got[2] == 10
	sym.Assert(ok, "concurrent writes were interleaved, lost or duplicated")
	sym.Reach("end")
}

// Two concurrent readers each get distinct samples.
func HTwoReaders() {
	sym.Preempt(sym.Bound(2, 3), false)
	r, w := media.Pipe[smp, int16](48000)
	out := make(chan int16, 8)
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		go func() {
			for {
				b := make(smp, 2)
				n, err := r.ReadSample(b)
				if err != nil {
					sym.Assert(err == io.EOF, "a reader is released with the wrong error")
					break
				}
				for _, v := range b[:n] {
					out <- v
				}
			}
			done <- true
		}()
	}
	sym.Assert(w.WriteSample(smp{1, 2, 4}) == nil, "a write on an open pipe failed")
	w.Close()
	<-done
	<-done
	sum, cnt := 0, 0
	for len(out) > 0 {
		sum += int(<-out)
		cnt++
	}
	sym.Assert(cnt == 3 && sum == 7, "concurrent readers lost or duplicated samples")
	sym.Reach("end")
}

func wantErr(side int, first int) (own, other error) {
	e := []error{nil, errA, errB}[first]
	if side == 0 { // reader closed: writers get e
		if e == nil {
			e = io.ErrClosedPipe
		}
	} else if e == nil {
		e = io.EOF
	}
	return io.ErrClosedPipe, e
}

// One side is closed (twice, with different errors) at any moment of a transfer.
func HClose() {
	sym.Preempt(sym.Bound(2, 3), false)
	r, w := media.Pipe[smp, int16](48000)
	side := sym.Choose("side", 2)
	first := sym.Choose("err", 2)
	own, other := wantErr(side, first)
	var got smp
	rdone, wdone := make(chan bool, 1), make(chan bool, 1)
	completed := 0
	go func() {
		for i := 0; i < 2; i++ {
			err := w.WriteSample(smp{int16(2 * i), int16(2*i + 1)})
			if err != nil {
				if side == 0 {
					sym.Assert(err == other, "a writer is released with the wrong error after the reader closed")
				} else {
					sym.Assert(err == own, "a writer is released with the wrong error after the writer closed")
				}
				break
			}
			completed++
		}
		wdone <- true
	}()
	go func() {
		for {
			b := make(smp, 1)
			n, err := r.ReadSample(b)
			if err != nil {
				sym.Assert(n == 0, "a failed read returns samples")
				if side == 1 {
					sym.Assert(err == other, "a reader is released with the wrong error after the writer closed")
				} else {
					sym.Assert(err == own, "a reader is released with the wrong error after the reader closed")
				}
				break
			}
			got = append(got, b[:n]...)
		}
		rdone <- true
	}()
	closeIt := func(k int) {
		e := []error{nil, errA, errB}[k]
		var err error
		switch {
		case side == 0 && e == nil:
			err = r.Close()
		case side == 0:
			err = r.CloseWithError(e)
		case e == nil:
			err = w.Close()
		default:
			err = w.CloseWithError(e)
		}
		sym.Assert(err == nil, "close reports an error")
	}
	closeIt(first)
	closeIt(2)
	<-wdone
	<-rdone
	sym.Assert(len(got) >= 2*completed && len(got) <= 4, "a write succeeded although its samples were not all read")
	for i, v := range got {
		sym.Assert(int(v) == i, "samples were lost, duplicated or reordered around a close")
	}
	// later operations
	n, err := r.ReadSample(make(smp, 1))
	sym.Assert(n == 0 && err == map[bool]error{true: other, false: own}[side == 1], "a later read does not return the first close error")
	err = w.WriteSample(smp{9})
	sym.Assert(err == map[bool]error{true: other, false: own}[side == 0], "a later write does not return the first close error")
	err = w.WriteSample(smp{})
	sym.Assert(err != nil, "an empty write on a closed pipe succeeds")
	sym.Reach("end")
}

// Both sides are closed concurrently: everything is released with an error.
func HBoth() {
	sym.Preempt(sym.Bound(2, 3), false)
	r, w := media.Pipe[smp, int16](48000)
	done := make(chan bool, 4)
	go func() { r.Close(); done <- true }()
	go func() { w.CloseWithError(errA); done <- true }()
	wrote := false
	go func() {
		wrote = w.WriteSample(smp{1}) == nil
		done <- true
	}()
	b := make(smp, 1)
	n, err := r.ReadSample(b)
	sym.Assert((err != nil && n == 0) || (n == 1 && b[0] == 1), "a read returned something that was not written")
	read := err == nil
	for i := 0; i < 3; i++ {
		<-done
	}
	sym.Assert(wrote == read, "a write and the read of its sample disagree")
	_, err = r.ReadSample(make(smp, 1))
	sym.Assert(err != nil, "a read after both sides closed succeeds")
	sym.Assert(w.WriteSample(smp{1}) != nil, "a write after both sides closed succeeds")
	sym.Reach("end")
}

// Frames of a real size, read in pieces of a real size.
func HReal() {
	r, w := media.Pipe[smp, int16](48000)
	const frames, fs = 4, 480
	bs := []int{480, 160, 333, 960, 1000, 1, 7}[sym.Choose("buf", 7)]
	var all smp
	for i := 0; i < frames*fs; i++ {
		all = append(all, int16(i))
	}
	for i := 0; i < frames; i++ {
		all[i*fs], all[i*fs+fs-1] = sym.I16("s0"), sym.I16("s1")
	}
	done := make(chan bool, 1)
	go func() {
		for i := 0; i < frames; i++ {
			sym.Assert(w.WriteSample(all[i*fs:(i+1)*fs]) == nil, "a write on an open pipe failed")
		}
		w.Close()
		done <- true
	}()
	var got smp
	b := make(smp, bs)
	for {
		n, err := r.ReadSample(b)
		if err != nil {
			sym.Assert(err == io.EOF && n == 0, "a plain writer close is not reported as end of stream")
			break
		}
		sym.Assert(n > 0 && n <= bs, "a read returned an invalid count")
		got = append(got, b[:n]...)
	}
	<-done
	sym.Assert(len(got) == len(all), "samples were lost or duplicated")
	for i := range got {
		sym.Assert(got[i] == all[i], "samples were changed or reordered")
	}
	sym.Reach("end")
}
