package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx is one run of a check.
type Ctx struct {
	id       string
	p        *Program
	thorough bool
	findings []finding
	counts   map[string]int
	samples  []string
	assume   []string
	rule     string
	seen     map[string]bool
	t0       time.Time
}

type finding struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos"`
	Message   string `json:"message"`
}

// fail reports that a construct breaks a rule
func (c *Ctx) fail(rule, construct string, pos token.Pos, format string, args ...interface{}) {
	f := finding{Rule: rule, Construct: construct, Message: fmt.Sprintf(format, args...)}
	if pos.IsValid() {
		f.Pos = c.p.pos(pos)
	}
	k := f.Rule + "|" + f.Construct + "|" + f.Message
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.findings = append(c.findings, f)
}

func (c *Ctx) count(name string, n int) { c.counts[name] += n }

func (c *Ctx) sample(format string, args ...interface{}) {
	if len(c.samples) < 25 {
		c.samples = append(c.samples, trunc(fmt.Sprintf(format, args...), 400))
	}
}

// atLeast: a check that finds nothing to look at decides nothing
func (c *Ctx) atLeast(name string, n int) {
	if c.counts[name] < n {
		c.fail("anchors", name, token.NoPos, "only %d %s found in the source, at least %d expected: the property cannot be decided", c.counts[name], name, n)
	}
}

// need resolves a function of the module
func (c *Ctx) need(pkg, name string) *ssa.Function {
	f := c.p.fn(pkg, name)
	if f == nil {
		c.fail("anchors", name, token.NoPos, "function %s not found in the source", name)
	}
	return f
}

type checkDef struct {
	id   string
	rule string
	run  func(c *Ctx)
}

var checks = map[string]*checkDef{}

func register(id, rule string, run func(c *Ctx)) {
	checks[id] = &checkDef{id, rule, run}
}

func repoDir() string {
	if d := os.Getenv("GOTEXT_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifDir() string {
	if d := os.Getenv("GOTEXT_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// known reads the committed list of known findings: "known: property=<id> rule=<rule> construct=<construct> ..."
func known(id string) map[string]string {
	r := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir(), "KNOWN_FINDINGS.md"))
	if err != nil {
		return r
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(sc.Text()), "- "))
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		var rule, construct string
		for _, w := range strings.Fields(l) {
			if strings.HasPrefix(w, "rule=") {
				rule = w[5:]
			}
			if strings.HasPrefix(w, "construct=") {
				construct = w[10:]
			}
		}
		r[rule+"|"+construct] = l
	}
	return r
}

func runCheck(id string, tier string) int {
	def := checks[id]
	if def == nil {
		fmt.Println("no such check", id)
		return 2
	}
	c := &Ctx{id: id, counts: map[string]int{}, seen: map[string]bool{}, t0: time.Now(), rule: def.rule, thorough: tier == "thorough"}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("GOTEXT_TRACE") != "" {
					os.Stderr.Write(debug.Stack())
				}
				c.findings = append(c.findings, finding{Rule: "analysis", Construct: "analyzer", Message: fmt.Sprint("the analysis failed: ", e)})
			}
		}()
		p, err := loadProgram(repoDir())
		if err != nil {
			c.findings = append(c.findings, finding{Rule: "load", Construct: "module", Message: err.Error()})
			return
		}
		c.p = p
		if err := p.setupFrozen(); err != nil {
			c.findings = append(c.findings, finding{Rule: "load", Construct: "initialisers", Message: err.Error()})
			return
		}
		c.counts["module_functions"] = len(p.funcs)
		def.run(c)
	}()
	kn := known(id)
	var open []finding
	for _, f := range c.findings {
		if l, ok := kn[f.Rule+"|"+strings.ReplaceAll(f.Construct, " ", "_")]; ok {
			fmt.Println("KNOWN-FINDING: property=" + id + " " + l)
			continue
		}
		open = append(open, f)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	cov := map[string]interface{}{
		"explanation": "Static analysis of /repo's current source. Rule: " + def.rule,
		"samples":     c.samples,
		"findings":    c.findings,
	}
	var ks []string
	for k := range c.counts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		cov[k] = c.counts[k]
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": c.assume, "wall_s": time.Since(c.t0).Seconds(), "violations": len(open),
	}
	path := filepath.Join(dir, id+".json")
	b, _ := json.MarshalIndent(ev, "", "  ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	if len(open) == 0 {
		fmt.Printf("OK property=%s %.1fs %v\n", id, time.Since(c.t0).Seconds(), c.counts)
		return 0
	}
	rp := filepath.Join(dir, id+".violation.json")
	b, _ = json.MarshalIndent(open, "", "  ")
	os.WriteFile(rp, append(b, '\n'), 0o644)
	for i, f := range open {
		if i == 40 {
			fmt.Printf("... and %d more\n", len(open)-i)
			break
		}
		fmt.Printf("%s: [%s] %s: %s\n", f.Pos, f.Rule, f.Construct, trunc(f.Message, 600))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}
