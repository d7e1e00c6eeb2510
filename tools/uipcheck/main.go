package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"

	"uipcheck/ai"
	"uipcheck/check"
	"uipcheck/load"
)

func main() {
	if len(os.Args) == 5 && os.Args[1] == "check" {
		debug.SetGCPercent(400)
		ids := strings.Split(os.Args[2], ",")
		if os.Args[2] == "all" {
			ids = check.IDs()
		}
		if f := os.Getenv("UIPPROF"); f != "" {
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
		}
		rc := check.Main(ids, os.Args[3], os.Args[4])
		pprof.StopCPUProfile()
		os.Exit(rc)
	}
	t := time.Now()
	debug.SetGCPercent(400)
	if f := os.Getenv("UIPPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
		if d, _ := strconv.Atoi(os.Getenv("UIPSTOP")); d > 0 {
			time.AfterFunc(time.Duration(d)*time.Second, func() { pprof.StopCPUProfile(); os.Exit(3) })
		}
	}
	dir := "/repo"
	if d := os.Getenv("UIPREPO"); d != "" {
		dir = d
	}
	p, err := load.Load(dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("load", time.Since(t))
	r, err := ai.New(p)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("init", time.Since(t), r.Steps())
	for _, a := range os.Args[1:] {
		kind, ext := a[:1], a[1:]
		switch kind {
		case "q":
			r.QueryAll(ext)
		case "d":
			r.DumpAll(ext)
		}
		fmt.Println(a, time.Since(t), r.Steps())
	}
	bad := 0
	for _, o := range r.Obs() {
		if o.Failed {
			bad++
			fmt.Println("FAIL", o.Rule, o.Site, o.Func, o.What, "|", o.Why, "|", o.Entry)
		}
	}
	fmt.Println("obligations", len(r.Obs()), "failed", bad, "functions", len(r.Analysed()), time.Since(t))
}
