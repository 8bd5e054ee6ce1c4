// Package vos stands in for package os: files live in memory and dumps are
// switched on in the environment.
package vos

import (
	"errors"
	"io/fs"
	"strings"

	"github.com/livekit/media-sdk/zzverif/sym"
)

// File is a file in memory.
type File struct {
	Path   string
	Data   []byte
	Closes int
	Fault  bool
}

// Files are the files created so far.
var Files []*File

// CreateErr makes creating files fail, MayFail writing to them.
var (
	CreateErr error
	MayFail   bool
)

// ErrWrite is the failure of a write.
var ErrWrite = errors.New("disk full")

// Find is the file of a name.
func Find(name string) (r *File) {
	for _, f := range Files {
		if f.Path == name {
			sym.Assert(r == nil, "a file is created over another one")
			r = f
		}
	}
	return r
}

func Create(name string) (*File, error) {
	if CreateErr != nil {
		return nil, CreateErr
	}
	f := &File{Path: name}
	Files = append(Files, f)
	return f, nil
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) { return Create(name) }

func (f *File) Name() string { return f.Path }
func (f *File) Sync() error  { return nil }

func (f *File) Write(p []byte) (int, error) {
	sym.Assert(f.Closes == 0, "a closed file is written")
	if MayFail && sym.Split(sym.Bool("werr")) {
		f.Fault = true
		return 0, ErrWrite
	}
	f.Data = append(f.Data, p...)
	return len(p), nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Close() error {
	f.Closes++
	return nil
}

// Getenv has every dump switched on.
func Getenv(key string) string {
	if strings.HasPrefix(key, "LK_DUMP_") {
		return "true"
	}
	return ""
}

func LookupEnv(key string) (string, bool) {
	v := Getenv(key)
	return v, v != ""
}
