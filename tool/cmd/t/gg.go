package main

import (
	"fmt"
	"os"
	"strconv"
	"time"
	"verif/check"
	"verif/load"
	"verif/rel"
)

func gg() {
	root := "/repo"
	if r := os.Getenv("ROOT"); r != "" {
		root = r
	}
	a, err := load.Load(root)
	if err != nil {
		panic(err)
	}
	b, err := load.Load("/verif/ref/repo")
	if err != nil {
		panic(err)
	}
	a = a.Align(b)
	g := rel.NewGoGo(a, b)
	fmt.Println(len(g.Pairs), "pairs")
	if os.Getenv("LISTP") != "" {
		for _, n := range g.Pairs {
			fmt.Print(n, " ")
		}
		return
	}
	if len(os.Args) > 3 {
		g.Trace = func(s string) { fmt.Println("   T", s) }
	}
	if os.Getenv("DEC") != "" {
		t0 := time.Now()
		e := check.Decide(g)
		for _, n := range g.Pairs {
			v := e.Res[n]
			if v.How == rel.ByJoin {
				continue
			}
			fmt.Println("==", n, v.How, v.P.Summary(), "cut", v.P.Cut, "full", v.P.Full, v.P.Undec)
			if v.How == rel.Differs {
				for i, x := range v.P.Divs {
					if i < 4 {
						fmt.Println("   ", x)
					}
				}
			}
		}
		fmt.Println("time", time.Since(t0), "bad", len(e.Failing()))
		return
	}
	if t := os.Getenv("TIER"); t != "" {
		k, _ := strconv.Atoi(t)
		g.UseTier(k, os.Args[2])
	}
	bad := 0
	t00 := time.Now()
	for _, n := range g.Pairs {
		if len(os.Args) > 2 && os.Args[2] != n {
			continue
		}
		t0 := time.Now()
		pr := g.Check(n)
		if len(pr.Divs) > 0 && os.Getenv("WIT") != "" {
			tr := g.Trace
			g.Trace = nil
			if os.Getenv("WIT") == "trace" {
				g.Trace = tr
			}
			k, _ := strconv.Atoi(os.Getenv("K"))
			if k == 0 {
				k = 2
			}
			t1 := time.Now()
			w := g.Witness(n, k, 20000)
			fmt.Println("== witness", n, "divs", len(w.Divs), "of", len(pr.Divs), w.Summary(), "cut", w.Cut, "full", w.Full, w.Undec, time.Since(t1))
			if len(w.Divs) == 0 {
				continue
			}
			pr = w
		}
		d := time.Since(t0)
		if len(pr.Divs) > 0 || len(os.Args) > 2 || d > 2*time.Second {
			fmt.Println("==", n, pr.Summary(), d)
			if len(pr.Divs) > 0 {
				bad++
			}
			for i, x := range pr.Divs {
				if i < 4 {
					fmt.Println("   ", x)
					if len(os.Args) > 3 {
						for _, s := range x.Facts {
							fmt.Println("        ", s)
						}
						if x.LT != nil {
							fmt.Println("   L:", x.LT.Full()[:min(1500, len(x.LT.Full()))])
							fmt.Println("   R:", x.RT.Full()[:min(1500, len(x.RT.Full()))])
						}
					}
				}
			}
		}
	}
	fmt.Println("bad", bad, time.Since(t00))
}
