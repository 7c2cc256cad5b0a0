package nimsim

import (
	"flag"
	"os"
	"testing"

	"nimsim/h"
	_ "nimsim/scen"
)

func TestSim(t *testing.T) {
	code := h.Main(t, flag.Args())
	os.Exit(code)
}
