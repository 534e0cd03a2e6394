// Command l runs one rule and prints what it finds.
package main

import (
	"fmt"
	"os"

	"verif/check"
	"verif/lint"
	"verif/load"
)

func main() {
	root := os.Getenv("ROOT")
	if root == "" {
		root = "/repo"
	}
	p, err := load.Load(root)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if rp, err := load.Load("/verif/ref/repo"); err == nil {
		p = p.Align(rp)
	}
	g := lint.New(p)
	var c *check.Ctx
	fmt.Println(len(g.Fns), "functions")
	for _, r := range lint.Rules {
		if len(os.Args) > 1 && os.Args[1] != r.Name {
			continue
		}
		fs, n, s := r.Run(g)
		if r.Ref && os.Getenv("ALL") == "" {
			rp, err := load.Load("/verif/ref/repo")
			if err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			ref, _, _ := r.Run(lint.New(rp))
			fs = lint.Beyond(fs, ref)
			if len(fs) > 0 && os.Getenv("RAW") == "" {
				if c == nil {
					c = check.Open(root, "/verif/ref/repo")
				}
				fs = c.UnlikeRef(fs)
			}
		}
		fmt.Println("==", r.Name, n, "sites")
		for _, f := range fs {
			fmt.Printf("  %s: %s: %s\n", f.Pos, f.Where, f.Msg)
		}
		if os.Getenv("S") != "" {
			for _, x := range s {
				fmt.Println("   ", x)
			}
		}
	}
}
