package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"time"
	"verif/load"
	"verif/rel"
	"verif/viml"
)

func main() {
	if f := os.Getenv("PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) > 1 && os.Args[1] == "gg" {
		gg()
		return
	}
	root := "/repo"
	if r := os.Getenv("ROOT"); r != "" {
		root = r
	}
	f, err := viml.ParseFile(root + "/autoload/vimlparser.vim")
	if err != nil {
		fmt.Println(err)
	}
	p, err := load.Load(root)
	if err != nil {
		panic(err)
	}
	r, err := rel.New(p, f)
	if err != nil {
		panic(err)
	}
	fmt.Println(len(r.Match), "matched")
	bad := 0
	if len(os.Args) > 2 {
		r.Trace = func(s string) { fmt.Println("   T", s) }
	}
	for _, n := range r.Match {
		if strings.HasPrefix(n, "Compiler.") && os.Getenv("COMP") == "" {
			continue
		}
		if len(os.Args) > 1 && os.Args[1] != n {
			continue
		}
		t0 := time.Now()
		pr := r.Check(n)
		d := time.Since(t0)
		if len(pr.Divs) > 0 || len(os.Args) > 1 || d > 2*time.Second {
			fmt.Println("==", n, pr.Summary(), d)
			if len(pr.Divs) > 0 {
				bad++
			}
			for i, x := range pr.Divs {
				if i < 4 {
					fmt.Println("   ", x)
					if len(os.Args) > 2 {
						for _, s := range x.Facts {
							fmt.Println("        ", s)
						}
						if x.LT != nil {
							fmt.Println("   L:", x.LT.Full()[:min(1500, len(x.LT.Full()))])
							fmt.Println("   R:", x.RT.Full()[:min(1500, len(x.RT.Full()))])
						}
					}
				}
			}
		}
	}
	fmt.Println("bad", bad)
}
