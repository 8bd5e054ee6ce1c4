// Package vogg stands in for the Vorbis decoder: it returns scripted samples
// in scripted amounts.
package vogg

import "io"

type Reader struct{}

var (
	Rate     int
	Ch       int
	Samples  []float32
	EOFWith  bool // io.EOF comes together with the last samples
	Amount   func(max int) int
	OpenErr  error
	ReadErr  error // instead of io.EOF
	Consumed int
)

func NewReader(r io.Reader) (*Reader, error) {
	if OpenErr != nil {
		return nil, OpenErr
	}
	return &Reader{}, nil
}

func (*Reader) SampleRate() int { return Rate }
func (*Reader) Channels() int   { return Ch }

func (*Reader) Read(p []float32) (int, error) {
	end := io.EOF
	if ReadErr != nil {
		end = ReadErr
	}
	if len(Samples) == 0 {
		return 0, end
	}
	max := len(p)
	if max > len(Samples) {
		max = len(Samples)
	}
	n := Amount(max)
	copy(p, Samples[:n])
	Samples = Samples[n:]
	Consumed += n
	if len(Samples) == 0 && EOFWith {
		return n, end
	}
	return n, nil
}
