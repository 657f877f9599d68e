package kit

import (
	"os"
	"runtime/pprof"
)

func startProfile(p string) {
	f, err := os.Create(p)
	if err == nil {
		_ = pprof.StartCPUProfile(f)
	}
}

func stopProfile() { pprof.StopCPUProfile() }
