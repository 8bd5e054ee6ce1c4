// Package vsrtp stands in for pion/srtp: context options can be inspected, and
// sessions deliver scripted decrypted packets and record what is written.
package vsrtp

import (
	"io"
	"net"
	"time"

	"github.com/pion/logging"
	"github.com/pion/rtp"
	"github.com/pion/transport/v3/packetio"
)

// Context records the options applied to it.
type Context struct {
	MKI    []byte
	Others int
}

type ContextOption func(*Context) error

// MasterKeyIndicator keeps the last key identifier, as pion/srtp does.
func MasterKeyIndicator(mki []byte) ContextOption {
	return func(c *Context) error {
		c.MKI = append([]byte(nil), mki...)
		return nil
	}
}

func other() ContextOption {
	return func(c *Context) error { c.Others++; return nil }
}

func SRTPReplayProtection(uint) ContextOption  { return other() }
func SRTCPReplayProtection(uint) ContextOption { return other() }
func SRTPNoReplayProtection() ContextOption    { return other() }
func SRTCPNoReplayProtection() ContextOption   { return other() }
func SRTPEncryption() ContextOption            { return other() }
func SRTPNoEncryption() ContextOption          { return other() }
func SRTCPEncryption() ContextOption           { return other() }
func SRTCPNoEncryption() ContextOption         { return other() }

type Config struct {
	Keys                        SessionKeys
	Profile                     ProtectionProfile
	BufferFactory               func(packetType packetio.BufferPacketType, ssrc uint32) io.ReadWriteCloser
	LoggerFactory               logging.LoggerFactory
	AcceptStreamTimeout         time.Time
	LocalOptions, RemoteOptions []ContextOption
}

// Incoming is what a read stream delivers next.
type Incoming struct {
	Packet []byte
	Err    error
}

// Written is a packet given to a write stream.
type Written struct {
	Header  rtp.Header
	Payload []byte
	Raw     []byte
}

// The state of the one session.
var (
	NewErr, AcceptErr, OpenErr, WriteErr, CloseErr error
	Conf                                           *Config
	Conn                                           net.Conn
	Closed                                         int
	Streams                                        []*ReadStreamSRTP
	Out                                            []Written
)

type SessionSRTP struct{}

func NewSessionSRTP(conn net.Conn, config *Config) (*SessionSRTP, error) {
	Conn, Conf = conn, config
	if NewErr != nil {
		return nil, NewErr
	}
	return &SessionSRTP{}, nil
}

func (s *SessionSRTP) OpenWriteStream() (*WriteStreamSRTP, error) {
	if OpenErr != nil {
		return nil, OpenErr
	}
	return &WriteStreamSRTP{}, nil
}

func (s *SessionSRTP) AcceptStream() (*ReadStreamSRTP, uint32, error) {
	if AcceptErr != nil {
		return nil, 0, AcceptErr
	}
	if len(Streams) == 0 {
		return nil, 0, io.EOF
	}
	r := Streams[0]
	Streams = Streams[1:]
	return r, r.SSRC, nil
}

func (s *SessionSRTP) Close() error {
	Closed++
	return CloseErr
}

type ReadStreamSRTP struct {
	SSRC uint32
	In   []Incoming
}

func (r *ReadStreamSRTP) Read(buf []byte) (int, error) {
	if len(r.In) == 0 {
		return 0, io.EOF
	}
	p := r.In[0]
	r.In = r.In[1:]
	if p.Err != nil {
		return 0, p.Err
	}
	n := copy(buf, p.Packet)
	if n < len(p.Packet) {
		return n, io.ErrShortBuffer
	}
	return n, nil
}

func (r *ReadStreamSRTP) ReadRTP(buf []byte) (int, *rtp.Header, error) {
	n, err := r.Read(buf)
	if err != nil {
		return 0, nil, err
	}
	h := &rtp.Header{}
	if _, err = h.Unmarshal(buf[:n]); err != nil {
		return 0, nil, err
	}
	return n, h, nil
}

func (r *ReadStreamSRTP) SetReadDeadline(time.Time) error { return nil }
func (r *ReadStreamSRTP) Close() error                    { return nil }
func (r *ReadStreamSRTP) GetSSRC() uint32                 { return r.SSRC }

type WriteStreamSRTP struct{}

func (w *WriteStreamSRTP) WriteRTP(h *rtp.Header, payload []byte) (int, error) {
	if WriteErr != nil {
		return 0, WriteErr
	}
	Out = append(Out, Written{Header: *h, Payload: append([]byte(nil), payload...)})
	return h.MarshalSize() + len(payload), nil
}

func (w *WriteStreamSRTP) Write(b []byte) (int, error) {
	if WriteErr != nil {
		return 0, WriteErr
	}
	Out = append(Out, Written{Raw: append([]byte(nil), b...)})
	return len(b), nil
}

func (w *WriteStreamSRTP) SetWriteDeadline(time.Time) error { return nil }
