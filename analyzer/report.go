package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Ctx collects what one property check analysed and what it found.
type Ctx struct {
	P        *Prog
	T        *LALR
	ID       string
	Thorough bool
	Verif    string

	obligations int
	discharged  int
	counts      map[string]int
	sets        map[string][]int
	samples     []string
	viol        []Violation
	rule        string
	assume      []string
	seen        map[string]bool
	mu          sync.Mutex
}

// Violation names the construct that breaks the property. Key identifies it
// across edits elsewhere (no line numbers in it).
type Violation struct {
	Key    string `json:"key"`
	Where  string `json:"where"`
	What   string `json:"what"`
	Detail string `json:"detail,omitempty"`
}

func (c *Ctx) count(k string, n int) {
	c.mu.Lock()
	c.counts[k] += n
	c.mu.Unlock()
}

// countSet records a set of numbers once (as a text in the evidence).
func (c *Ctx) countSet(k string, ns []int) {
	c.mu.Lock()
	c.sets[k] = ns
	c.mu.Unlock()
}

var debugOn = os.Getenv("VERIF_DEBUG") != ""

// ok discharges one obligation.
func (c *Ctx) ok(what string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.obligations++
	c.discharged++
	if what != "" && len(c.samples) < 12 && !c.seen["s:"+what] {
		c.seen["s:"+what] = true
		c.samples = append(c.samples, what)
	}
}

// fail records an obligation that does not hold (or could not be decided).
func (c *Ctx) fail(key, where, format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.obligations++
	if c.seen["v:"+key] {
		return
	}
	c.seen["v:"+key] = true
	c.viol = append(c.viol, Violation{Key: key, Where: where, What: fmt.Sprintf(format, a...)})
}

func (c *Ctx) require(cond bool, okText, key, where, format string, a ...any) bool {
	if cond {
		c.ok(okText)
	} else {
		c.fail(key, where, format, a...)
	}
	return cond
}

// knownFindings reads the committed list: lines "finding: property=ID key=KEY text".
func knownFindings(verif, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		f := strings.SplitN(strings.TrimSpace(strings.TrimPrefix(l, "finding:")), " | ", 3)
		if len(f) < 2 || f[0] != "property="+id {
			continue
		}
		t := f[1]
		if len(f) > 2 {
			t = f[2]
		}
		out[f[1]] = t
	}
	return out
}

func (c *Ctx) finish(start time.Time, level, explanation string) int {
	known := knownFindings(c.Verif, c.ID)
	var real []Violation
	for _, v := range c.viol {
		if t, ok := known[v.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, t)
			continue
		}
		real = append(real, v)
	}
	tier := "quick"
	if c.Thorough {
		tier = "thorough"
	}
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	if c.samples == nil {
		c.samples = []string{}
	}
	sort.Strings(c.samples)
	sort.SliceStable(c.viol, func(i, j int) bool { return len(c.viol[i].What) < len(c.viol[j].What) })
	cov := map[string]any{
		"explanation": explanation,
		"rule":        c.rule,
		"obligations": c.obligations,
		"discharged":  c.discharged,
		"samples":     c.samples,
	}
	keys := make([]string, 0)
	for k := range c.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		cov[k] = c.counts[k]
	}
	for k, v := range c.sets {
		cov[k] = v
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": c.assume, "wall_s": time.Since(start).Seconds(), "violations": len(real),
	}
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(c.Verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644)
	rep := filepath.Join(dir, c.ID+".violations.txt")
	os.Remove(rep)
	fmt.Printf("%s: %d obligations, %d discharged, %.1fs\n", c.ID, c.obligations, c.discharged, time.Since(start).Seconds())
	for _, k := range keys {
		fmt.Printf("  %s: %d\n", k, c.counts[k])
	}
	for k, v := range c.sets {
		fmt.Printf("  %s: %v\n", k, v)
	}
	if len(real) == 0 {
		return 0
	}
	var sb strings.Builder
	for _, v := range real {
		fmt.Fprintf(&sb, "%s\n  at %s\n  key %s\n", v.What, v.Where, v.Key)
		if v.Detail != "" {
			fmt.Fprintf(&sb, "  %s\n", v.Detail)
		}
	}
	os.WriteFile(rep, []byte(sb.String()), 0o644)
	for i, v := range real {
		if i >= 10 {
			fmt.Printf("... and %d more\n", len(real)-10)
			break
		}
		fmt.Printf("%s (%s)\n", v.What, v.Where)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rep)
	return 1
}
