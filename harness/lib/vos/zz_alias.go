package vos

import "os"

type (
	FileInfo  = os.FileInfo
	FileMode  = os.FileMode
	PathError = os.PathError
)

const (
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_RDONLY = os.O_RDONLY
	O_RDWR   = os.O_RDWR
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC
	O_WRONLY = os.O_WRONLY
	ModePerm = os.ModePerm
)

var (
	ErrExist      = os.ErrExist
	ErrNotExist   = os.ErrNotExist
	ErrClosed     = os.ErrClosed
	ErrInvalid    = os.ErrInvalid
	ErrPermission = os.ErrPermission
)
