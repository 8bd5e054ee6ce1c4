package main

import (
	"errors"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/zzverif/sym"
)

var errW = errors.New("disk full")
var errC = errors.New("close failed")

type file struct {
	data    []byte
	closes  int
	fault   bool // a fault has happened
	mayFail bool
	failC   bool
	writes  int
}

func (f *file) Write(p []byte) (int, error) {
	sym.Assert(f.closes == 0, "write to the file after it was closed")
	f.writes++
	if f.mayFail && sym.Split(sym.Bool("werr")) {
		f.fault = true
		n := 0
		if len(p) > 0 {
			n = sym.Choose("short", 2) // nothing or one byte written
			n = min(n, len(p))
		}
		f.data = append(f.data, p[:n]...)
		return n, errW
	}
	f.data = append(f.data, p...)
	return len(p), nil
}

func (f *file) Close() error {
	f.closes++
	if f.failC {
		return errC
	}
	return nil
}

func run(frames int, big bool, faults bool) {
	f := &file{mayFail: faults}
	w := media.NewFileWriter[media.PCM16Sample](f, 16000)
	sym.Assert(w.SampleRate() == 16000, "wrong sample rate")
	var want []byte
	sawErr := false
	for k := 0; k < frames; k++ {
		var in media.PCM16Sample
		if big && k == sym.Choose("bigAt", frames) {
			in = make(media.PCM16Sample, 2100) // larger than the file buffer
			in[0], in[2099] = sym.I16("b0"), sym.I16("b1")
		} else {
			in = media.PCM16Sample(sym.I16s[int16]("s", sym.Choose("n", 4)))
		}
		for _, v := range in {
			want = append(want, byte(v), byte(uint16(v)>>8))
		}
		err := w.WriteSample(in)
		if err != nil {
			sawErr = true
			sym.Assert(f.fault, "write reports an error although the file accepted everything")
			sym.Assert(errors.Is(err, errW), "the reported error is not the file's")
		}
		for i := range in { // caller reuses its buffer
			in[i] ^= 0x1234
		}
	}
	f.failC = faults && sym.Split(sym.Bool("cerr"))
	err := w.Close()
	sym.Assert(f.closes == 1, "the underlying file was not closed exactly once")
	if f.fault {
		sym.Assert(sawErr || err != nil, "a file fault was reported by neither a write nor close")
		sym.Reach("fault")
	}
	if f.failC {
		sym.Assert(err != nil, "the file's close error was swallowed")
	}
	if !f.fault {
		if !f.failC {
			sym.Assert(err == nil, "close reports an error although the file accepted everything")
		}
		sym.Assert(len(f.data) == len(want), "the file does not have the length of the written frames")
		for i := range want {
			sym.Assert(f.data[i] == want[i], "the file content differs from the serialised frames")
		}
		sym.Reach("ok")
	} else {
		sym.Assert(len(f.data) <= len(want), "more bytes than serialised reached the file")
		for i := range f.data {
			sym.Assert(f.data[i] == want[i], "the file content before the fault differs from the serialised frames")
		}
	}
}

func HStream() { run(sym.Bound(3, 4), false, false) }
func HFaults() { run(sym.Bound(2, 3), false, true) }
func HBig()    { run(sym.Bound(2, 3), true, true) }

// HLong: a long recording of frames of real sizes, the disk failing at any
// write of the file.
func HLong() {
	f := &file{}
	w := media.NewFileWriter[media.PCM16Sample](f, 48000)
	n := []int{160, 441, 960}[sym.Choose("frame", 3)]
	f.mayFail = sym.Choose("disk", 2) == 1
	var want []byte
	sawErr := false
	for k := 0; k < sym.Bound(30, 60); k++ {
		in := make(media.PCM16Sample, n)
		for i := range in {
			in[i] = int16(i*331 + k)
		}
		if k == 7 {
			in[n-1] = sym.I16("s")
		}
		for _, v := range in {
			want = append(want, byte(v), byte(uint16(v)>>8))
		}
		if err := w.WriteSample(in); err != nil {
			sawErr = true
			sym.Assert(f.fault && errors.Is(err, errW), "write reports an error although the file accepted everything")
		}
		if sawErr && k > 10 {
			break
		}
	}
	err := w.Close()
	sym.Assert(f.closes == 1, "the underlying file was not closed exactly once")
	if f.fault {
		sym.Assert(sawErr || err != nil, "a file fault was reported by neither a write nor close")
		sym.Reach("fault")
	} else {
		sym.Assert(err == nil && len(f.data) == len(want), "the file does not have the length of the written frames")
		sym.Reach("ok")
	}
	sym.Assert(len(f.data) <= len(want), "more bytes than serialised reached the file")
	for i, b := range f.data {
		sym.Assert(b == want[i], "the file content differs from the serialised frames")
	}
}
