package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// props maps the property to its rules.
var props = map[string]func(c *Checker){}

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "directory of the evidence and of the known findings")
	prop := flag.String("property", "", "property to decide; 'all' for every one")
	dumpFn := flag.String("dump", "", "print the paths of a function")
	verbose := flag.Bool("v", false, "print the events")
	flag.Parse()
	if *dumpFn != "" {
		c := newChecker("dump", *repo)
		c.load("linux")
		r := c.run(*dumpFn, ropts{cfg: os.Getenv("STARPC_CFG"), opaque: strings.Fields(os.Getenv("STARPC_OPAQUE"))})
		fmt.Println(*dumpFn, len(r.paths), "paths", r.x.notes)
		if *verbose {
			for _, q := range r.paths {
				dump(r.x, q)
			}
		}
		return
	}
	if *prop == "all" {
		ids := sortedKeys(props)
		sort.Strings(ids)
		rc := 0
		shared := map[string]*Prog{}
		for _, id := range ids {
			if decide(id, *repo, *verif, shared) != 0 {
				rc = 1
			}
		}
		os.Exit(rc)
	}
	os.Exit(decide(*prop, *repo, *verif, map[string]*Prog{}))
}

// decide runs the rules of a property: 0 held, 1 violated or undecided.
func decide(id, repo, verif string, shared map[string]*Prog) (rc int) {
	start := time.Now()
	c := newChecker(id, repo)
	c.progs = shared
	c.p = shared["linux"]
	defer func() {
		if e := recover(); e != nil {
			if a, ok := e.(abort); ok {
				c.viol = append(c.viol, a.v)
			} else {
				c.viol = append(c.viol, &Violation{Rule: "internal", Construct: id, Msg: fmt.Sprintf("the analysis failed: %v\n%s", e, debug.Stack())})
			}
		}
		rc = c.finish(verif, start)
	}()
	f, ok := props[id]
	if !ok {
		panic(abort{&Violation{Rule: "internal", Construct: id, Msg: "unknown property"}})
	}
	c.load("linux")
	f(c)
	return 0
}

func dump(x *Exec, p *Path) {
	fmt.Printf("== %s end=%s\n", p.Root, p.End)
	for _, e := range p.Events {
		fmt.Printf("  %-9s %s", e.Kind, e.Name)
		if e.Recv != nil {
			fmt.Printf(" recv=%s", e.Recv)
		}
		if e.Addr != nil {
			fmt.Printf(" addr=%s", e.Addr)
		}
		if e.Val != nil {
			fmt.Printf(" val=%s", e.Val)
		}
		if len(e.Args) > 0 {
			fmt.Printf(" args=%v", e.Args)
		}
		if len(e.Res) > 0 {
			fmt.Printf(" res=%v", e.Res)
		}
		if e.Kind == "select" {
			for i, c := range e.Cases {
				s := "recv"
				if c.Send {
					s = "send"
				}
				m := ""
				if i == e.Pick {
					m = "*"
				}
				fmt.Printf(" %s%s(%s)", m, s, c.Chan)
			}
		}
		if e.Loop != nil {
			fmt.Printf(" generic=%v cur=%v next=%v", e.Loop.Generic, e.Loop.Cur, e.Loop.Next)
		}
		fmt.Printf(" @%s\n", x.p.Pos(e.Pos))
		if len(e.Sub) > 0 {
			fmt.Printf("    [go: %d paths]\n", len(e.Sub))
		}
	}
	for f, v := range p.St.facts {
		fmt.Printf("  fact %v %s\n", v, f)
	}
	fmt.Printf("  ret %v\n", p.Ret)
}
