package v1d

import (
	"testing"

	"verifharness/rec"
	"verifharness/replay"
)

func TestReplay(t *testing.T) {
	replay.Run(t, func(i int) replay.World { return NewWorld(rec.Mem()) })
}
