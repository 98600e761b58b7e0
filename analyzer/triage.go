package main

import (
	"fmt"
	"time"
)

// triage runs checks over one loaded program until one of them finds something: it decides
// quickly whether any of them reports a change (used to look for changes that none reports).
func triage(ids []string) int {
	p, err := loadProgram(repoDir())
	if err == nil {
		err = p.setupFrozen()
	}
	if err != nil {
		fmt.Println("load:", err)
		return 1
	}
	for _, id := range ids {
		def := checks[id]
		c := &Ctx{id: id, p: p, counts: map[string]int{}, seen: map[string]bool{}, t0: time.Now(), rule: def.rule}
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.findings = append(c.findings, finding{Rule: "analysis", Message: fmt.Sprint(e)})
				}
			}()
			def.run(c)
		}()
		kn := known(id)
		for _, f := range c.findings {
			if _, ok := kn[f.Rule+"|"+f.Construct]; !ok {
				fmt.Printf("%s %s [%s] %s: %s\n", id, f.Pos, f.Rule, f.Construct, trunc(f.Message, 200))
				return 1
			}
		}
	}
	return 0
}
