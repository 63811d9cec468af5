// szcheck decides semantic properties of bodgit/sevenzip from its source.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
)

var debugFlag = flag.Bool("debug", false, "print debugging output")

var checks = map[string]func(*Check){}

func main() {
	prop := flag.String("prop", "", "property id, or several separated by commas")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "directory for evidence")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	if *list {
		var ks []string
		for k := range checks {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k)
		}
		return
	}
	var (
		p  *Prog
		rc int
	)
	for _, id := range strings.Split(*prop, ",") {
		f, ok := checks[id]
		if !ok {
			fmt.Printf("VIOLATION property=%s replay=none\n  unknown property\n", id)
			os.Exit(1)
		}
		c := newCheck(id, nil)
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.bad("internal", "the analysis failed: %v\n%s", r, debug.Stack())
				}
			}()
			if p == nil {
				q, err := loadProg(*repo)
				if err != nil {
					c.bad("load", "%v", err)
					return
				}
				p = q
			}
			c.P = p
			c.count("module functions", len(p.funcs))
			f(c)
		}()
		if r := c.finish(*verif); r != 0 {
			rc = r
		}
	}
	os.Exit(rc)
}
