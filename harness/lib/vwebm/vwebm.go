// Package vwebm stands in for ebml-go's webm package: it records the blocks.
package vwebm

import "io"

type TrackEntry struct {
	Name            string
	TrackNumber     uint64
	TrackUID        uint64
	CodecID         string
	CodecPrivate    []byte
	CodecDelay      uint64
	TrackType       uint64
	DefaultDuration uint64
	SeekPreRoll     uint64
	Audio           *Audio
	Video           *Video
}

type Audio struct {
	SamplingFrequency float64
	Channels          uint64
}

type Video struct {
	PixelWidth  uint64
	PixelHeight uint64
}

type BlockWriter interface {
	Write(keyframe bool, timestamp int64, payload []byte) (int, error)
}

type BlockCloser interface {
	Close() error
}

type BlockWriteCloser interface {
	BlockWriter
	BlockCloser
}

// Rec is what the code under test wrote.
type Rec struct {
	Dst    io.WriteCloser
	Tracks []TrackEntry
	Blocks []Block
	Closed int
	// control
	WriteErr, CloseErr error
}

type Block struct {
	Key  bool
	TS   int64
	Data []byte // kept by reference, as the real writer does
}

var Last *Rec

func NewSimpleBlockWriter(w0 io.WriteCloser, tracks []TrackEntry) ([]BlockWriteCloser, error) {
	r := &Rec{Dst: w0, Tracks: tracks}
	Last = r
	return []BlockWriteCloser{r}, nil
}

func (r *Rec) Write(key bool, ts int64, p []byte) (int, error) {
	if r.WriteErr != nil {
		return 0, r.WriteErr
	}
	r.Blocks = append(r.Blocks, Block{key, ts, p})
	return len(p), nil
}

func (r *Rec) Close() error {
	r.Closed++
	return r.CloseErr
}
