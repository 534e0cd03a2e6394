// vp decides one property: vp [-root /repo] [-verif /verif] ID
package main

import (
	"flag"
	"fmt"
	"os"
	"time"

	"verif/check"
)

func main() {
	root := flag.String("root", "/repo", "tree under analysis")
	verif := flag.String("verif", "/verif", "this directory")
	list := flag.Bool("l", false, "list properties")
	flag.Parse()
	t0 := time.Now()
	if *list {
		for _, p := range check.Props {
			fmt.Println(p.ID)
		}
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	c := check.Open(*root, *verif+"/ref/repo")
	st := 0
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for _, p := range check.Props {
			ids = append(ids, p.ID)
		}
	}
	for _, id := range ids {
		if s := check.Safe(c, id, *verif, tier, t0); s > st {
			st = s
		}
	}
	os.Exit(st)
}
