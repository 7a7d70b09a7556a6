package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Obligation is one group of facts a rule had to establish.
type Obligation struct {
	Name  string `json:"name"`
	Count int    `json:"count"`
	Min   int    `json:"minimum"`
}

// Ctx is the run of one check.
type Ctx struct {
	P        *Program
	Prop     string
	Tier     string
	findings map[string]Finding
	obls     []Obligation
	fns      map[string]bool
	rules    []string
	states   int
	paths    int
	calls    int
	notes    []string
}

// Check decides one property.
type Check struct {
	ID    string
	Rules []string // the rules applied, for the evidence
	Run   func(c *Ctx)
}

var checks = map[string]*Check{}

func register(id string, run func(c *Ctx), rules ...string) {
	checks[id] = &Check{ID: id, Run: run, Rules: rules}
}

func (c *Ctx) add(f Finding) {
	if _, ok := c.findings[f.key()]; !ok {
		c.findings[f.key()] = f
	}
}

func (c *Ctx) report(rule, construct, pos, format string, args ...interface{}) {
	c.add(Finding{Rule: rule, Construct: construct, Pos: pos, Msg: fmt.Sprintf(format, args...)})
}

// must records that n instances of an obligation were found; fewer than min is a failure of the check.
func (c *Ctx) must(name string, n, min int) {
	c.obls = append(c.obls, Obligation{name, n, min})
	if n < min {
		c.report("coverage", name, "", "only %d instances of %q were found, at least %d are expected", n, name, min)
	}
}

// absorb takes over the results of an abstract interpretation, restricted to the rules selected.
func (c *Ctx) absorb(x *Exec, sel func(rule string) bool) {
	for _, f := range x.findings {
		if sel == nil || sel(f.Rule) {
			c.add(f)
		}
	}
	if x.undecided != "" {
		c.report("undecided", fnName(x.root), "", "the analysis of %s did not finish: %s", fnName(x.root), x.undecided)
	}
	for f := range x.fnSeen {
		c.fns[fnName(f)] = true
	}
	c.states += x.states
	c.paths += x.paths
	c.calls += x.counts["calls"]
}

type known struct{ prop, key, text string }

func readKnown(path string) []known {
	var ks []known
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// known: property=<id> key=<rule @ construct> :: <what fails>
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < i {
			continue
		}
		ks = append(ks, known{l[:i], l[i+5 : j], l[j+4:]})
	}
	return ks
}

func main() {
	prop := flag.String("property", "", "property to decide, or 'all'")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	tier := flag.String("tier", "quick", "quick or thorough")
	verbose := flag.Bool("v", false, "print the findings with their paths")
	noev := flag.Bool("n", false, "do not write evidence")
	list := flag.Bool("list", false, "list the properties")
	flag.Parse()
	debug.SetGCPercent(400)
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	start := time.Now()
	p, err := Load(*repo)
	loadTime := time.Since(start).Seconds()
	exit := 0
	for _, id := range ids {
		ck := checks[id]
		if ck == nil {
			fmt.Printf("unknown property %s\n", id)
			os.Exit(2)
		}
		t0 := time.Now()
		c := &Ctx{P: p, Prop: id, Tier: *tier, findings: map[string]Finding{}, fns: map[string]bool{}, rules: ck.Rules}
		if err != nil {
			c.report("load", "repository", "", "%v", err)
		} else {
			runCheck(c, ck)
		}
		wall := time.Since(t0).Seconds()
		if len(ids) == 1 {
			wall += loadTime
		}
		if !finish(c, ck, *verif, wall, *verbose, *noev) {
			exit = 1
		}
	}
	profDump()
	os.Exit(exit)
}

func runCheck(c *Ctx, ck *Check) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(anchorError); ok {
				c.report("anchor", a.msg, "", "an anchor of the rule does not resolve: %s", a.msg)
				return
			}
			c.report("internal", fmt.Sprint(r), "", "the analysis failed: %v\n%s", r, debug.Stack())
		}
	}()
	ck.Run(c)
}

func finish(c *Ctx, ck *Check, verif string, wall float64, verbose, noev bool) bool {
	ks := readKnown(filepath.Join(verif, "known_findings.txt"))
	var keys []string
	for k := range c.findings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var open []Finding
	nknown := 0
	for _, k := range keys {
		f := c.findings[k]
		isKnown := false
		for _, kn := range ks {
			if kn.prop == c.Prop && kn.key == k {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, kn.text)
				isKnown = true
				nknown++
				break
			}
		}
		if !isKnown {
			open = append(open, f)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	total := 0
	for _, o := range c.obls {
		total += o.Count
	}
	var rep string
	if !noev {
		rep = filepath.Join(verif, "evidence", c.Prop+".report.txt")
	}
	ev := map[string]interface{}{
		"property": c.Prop, "tier": c.Tier, "seed": seed, "level": "other", "wall_s": wall, "violations": len(open),
		"coverage": map[string]interface{}{
			"explanation": fmt.Sprintf("Static analysis of the current source: %d rule instances established over %d analysed functions; abstract interpretation visited %d abstract states, %d path ends and %d call sites visits; %d known findings.",
				total, len(fns), c.states, c.paths, c.calls, nknown),
			"rules":               c.rules,
			"obligations_by_rule": c.obls,
			"functions":           fns,
			"abstract_states":     c.states,
			"path_ends":           c.paths,
			"call_site_visits":    c.calls,
			"notes":               c.notes,
			"findings":            open,
		},
	}
	if !noev {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(verif, "evidence", c.Prop+".json"), append(b, '\n'), 0644); err != nil {
			fmt.Println("cannot write the evidence:", err)
		}
		var sb strings.Builder
		for _, f := range open {
			fmt.Fprintf(&sb, "%s\n  at %s: %s\n", f.key(), f.Pos, f.Msg)
			for _, t := range f.Trace {
				fmt.Fprintf(&sb, "    %s\n", t)
			}
		}
		os.WriteFile(rep, []byte(sb.String()), 0644)
	}
	for _, f := range open {
		fmt.Printf("%s: %s: %s\n", f.Pos, f.key(), f.Msg)
		if verbose {
			for _, t := range f.Trace {
				fmt.Printf("      %s\n", t)
			}
		}
	}
	if len(open) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, rep)
		return false
	}
	fmt.Printf("property %s holds: %d rule instances, %d functions, %d abstract states (%.1fs)\n", c.Prop, total, len(fns), c.states, wall)
	return true
}
