package v2d

import (
	"testing"
	"time"

	"verifharness/rec"
	"verifharness/replay"
)

func TestReplay(t *testing.T) {
	replay.Run(t, func(i int) replay.World {
		return NewWorld(rec.Mem(), i%2 == 0, []time.Duration{1, time.Second, time.Hour}[i%3])
	})
}
