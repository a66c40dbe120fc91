package main

import (
	"os"
	"runtime/pprof"
	"time"
)

// profile writes a CPU profile of the first minute when CK_PROF names a file.
func profile() {
	n := os.Getenv("CK_PROF")
	if n == "" {
		return
	}
	f, err := os.Create(n)
	if err != nil {
		return
	}
	pprof.StartCPUProfile(f)
	go func() {
		time.Sleep(60 * time.Second)
		pprof.StopCPUProfile()
		f.Close()
		if h, err := os.Create(n + ".heap"); err == nil {
			pprof.WriteHeapProfile(h)
			h.Close()
		}
		os.Exit(9)
	}()
}
