// Package vmono replaces livekit/protocol/utils/mono on the virtual clock.
package vmono

import (
	"time"

	"github.com/livekit/media-sdk/zzverif/vtime"
)

func FromTime(t time.Time) time.Time { return t }
func Now() time.Time                 { return vtime.Now() }
func UnixNano() int64                { return vtime.Now().UnixNano() }
func UnixMicro() int64               { return vtime.Now().UnixMicro() }
