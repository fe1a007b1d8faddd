package guided

import (
	"io"
	"log"
	"runtime/debug"
	"testing"

	"verif/harness/core"
	_ "verif/harness/props"
)

func FuzzSub(f *testing.F) {
	log.SetOutput(io.Discard) // the code generator logs
	debug.SetMaxStack(256 << 20)
	core.Fuzz(f)
}
