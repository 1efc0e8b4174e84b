package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"time"
)

var monitors = map[string]func(*R){}

func main() {
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	out := flag.String("out", "", "result file")
	only := flag.String("case", "", "run one case")
	budget := flag.Duration("budget", 0, "stop starting new cases after this")
	flag.Parse()
	prop := flag.Arg(0)
	fn, ok := monitors[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no monitor for", prop)
		os.Exit(3)
	}
	r := NewR(prop, *tier, *seed)
	r.OnlyCase = *only
	b := *budget
	if b == 0 {
		b = 150 * time.Second
		if r.Thorough() {
			b = 25 * time.Minute
		}
	}
	r.Deadline = time.Now().Add(b)
	debug.SetGCPercent(500)
	debug.SetMemoryLimit(6 << 30)
	fn(r)
	if f := os.Getenv("VERIF_HEAP"); f != "" {
		runtime.GC()
		for _, n := range []string{"heap", "goroutine"} {
			o, _ := os.Create(f + "." + n)
			_ = pprof.Lookup(n).WriteTo(o, 0)
			o.Close()
		}
	}
	if *out != "" {
		r.write(*out)
	}
	for _, h := range r.harness {
		fmt.Println("HARNESS", h)
	}
	for _, v := range r.viols {
		fmt.Printf("BREACH %s case=%s %s\n", v.Sig, v.Case, v.Detail)
	}
	fmt.Printf("evals=%d distinct=%d counters=%v\n", r.evals.Load(), len(r.distinct), r.counters)
}
