package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"time"
)

func main() {
	if f := os.Getenv("SA_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		time.AfterFunc(20*time.Second, func() { pprof.StopCPUProfile(); w.Close() })
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2]))
	}
	p, err := Load()
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if len(os.Args) > 3 && os.Args[1] == "dump" {
		dumpFn(p, os.Args[2], os.Args[3])
		return
	}
	fmt.Println("usage: sa check ID | sa dump PKG FUNC")
	os.Exit(2)
}
