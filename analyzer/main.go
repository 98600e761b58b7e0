package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "check" {
		tier := "quick"
		if os.Getenv("VERIF_TIER") == "thorough" || len(os.Args) > 3 && os.Args[3] == "thorough" {
			tier = "thorough"
		}
		os.Exit(runCheck(os.Args[2], tier))
	}
	if len(os.Args) > 2 && os.Args[1] == "triage" {
		os.Exit(triage(os.Args[2:]))
	}
	if len(os.Args) > 1 && os.Args[1] == "list" {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "panics" {
		explorePanic(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "explore" {
		explore(os.Args[2:])
		return
	}
	fmt.Println("usage: gotextcheck check <property> [thorough]")
	os.Exit(2)
}

func explore(args []string) {
	t0 := time.Now()
	p, err := loadProgram("/repo")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println("loaded", time.Since(t0), len(p.funcs))
	p.setupFrozen()
	fmt.Println("frozen", time.Since(t0), p.frozenNote)
	pk := ""
	name := args[0]
	if i := strings.LastIndex(name, "/"); i >= 0 {
		pk, name = name[:i], name[i+1:]
	}
	f := p.fn(pk, name)
	if f == nil {
		fmt.Println("no function", args)
		os.Exit(1)
	}
	x := newInterp(p)
	x.inv = newInvariants()
	x.inv.seed(p)
	x.pathCap, x.loopCap, x.outCap = 24, 2, 6
	x.maxSteps = 300000
	os_ := x.runRoot(f)
	for i, o := range os_ {
		fmt.Printf("--- outcome %d panic=%v\n", i, o.panic)
		for _, r := range o.res {
			fmt.Println("   res", r)
		}
		fmt.Println("   facts", o.st.facts.describe())
		for _, e := range o.st.events(nil) {
			fmt.Println("   ev", e.kind, e.name, e.args, p.pos(e.pos))
		}
		for _, m := range o.st.writes(nil) {
			fmt.Println("   mem", m.kind, m.addr, m.key, m.val, m.class)
		}
		if i > 12 {
			break
		}
	}
	fmt.Println("steps", x.steps, "outcomes", len(os_), "undecided", x.undecided, time.Since(t0), "loops", x.loopsSeen, "unrolled", x.unrolled)
	for _, o := range x.sink().list {
		if o.failed > 0 {
			fmt.Println("OB", fname(o.fn), p.pos(o.pos), o.key.kind, o.note)
		}
	}
}
