package rootd

import (
	"testing"

	"verifharness/rec"
	"verifharness/replay"
)

func TestReplay(t *testing.T) {
	replay.Agree["scopesRoles"] = replay.OneOf
	replay.Run(t, func(i int) replay.World { return NewWorld(rec.Mem()) })
}
