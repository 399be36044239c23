package main

import (
	"os"
	"runtime/pprof"
)

var profOn bool

func startProf() func() {
	p := os.Getenv("CPUPROF")
	if p == "" || profOn {
		return func() {}
	}
	profOn = true
	f, _ := os.Create(p)
	pprof.StartCPUProfile(f)
	return stopProf
}

func stopProf() {
	if profOn {
		pprof.StopCPUProfile()
	}
}
