package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Check collects what one property's run analysed and found.
type Check struct {
	Prop  string
	P     *Prog
	start time.Time

	rules       []string
	counts      map[string]int
	samples     []any
	assumptions []string
	violations  []Violation
	seenV       map[string]bool
	known       []string
}

type Violation struct {
	Key string // rule + construct, no line numbers
	Msg string // full diagnosis
}

func newCheck(prop string, p *Prog) *Check {
	return &Check{Prop: prop, P: p, start: time.Now(), counts: map[string]int{}, seenV: map[string]bool{}}
}

func (c *Check) rule(s string)         { c.rules = append(c.rules, s) }
func (c *Check) count(k string, n int) { c.counts[k] += n }
func (c *Check) assume(s string)       { c.assumptions = append(c.assumptions, s) }
func (c *Check) sample(f string, a ...any) {
	if len(c.samples) < 60 {
		c.samples = append(c.samples, fmt.Sprintf(f, a...))
	}
}

// bad reports a violation; key identifies rule and construct.
func (c *Check) bad(key, f string, a ...any) {
	if c.seenV[key] {
		return
	}
	c.seenV[key] = true
	c.violations = append(c.violations, Violation{key, fmt.Sprintf(f, a...)})
}

// need fails the check when fewer instances than confirmed by hand were found.
func (c *Check) need(what string, min int) {
	if c.counts[what] < min {
		c.bad("coverage:"+what, "instance count for %q is %d, at least %d expected: the rule no longer finds the constructs it is about", what, c.counts[what], min)
	}
}

type knownFinding struct{ prop, key string }

func loadKnown(verif string) ([]knownFinding, error) {
	f, err := os.Open(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// known: property=<id> key=<rule+construct> ... # description
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		parts := strings.SplitN(l, " ", 2)
		if len(parts) != 2 || !strings.HasPrefix(parts[0], "property=") {
			return nil, fmt.Errorf("bad known finding line %q", l)
		}
		key, _, _ := strings.Cut(strings.TrimPrefix(strings.TrimSpace(parts[1]), "key="), " # ")
		out = append(out, knownFinding{strings.TrimPrefix(parts[0], "property="), strings.TrimSpace(key)})
	}
	return out, sc.Err()
}

func (c *Check) finish(verif string) int {
	known, err := loadKnown(verif)
	if err != nil {
		c.bad("known-findings", "cannot read known findings: %v", err)
	}
	var open []Violation
	for _, v := range c.violations {
		matched := false
		for _, k := range known {
			if k.prop == c.Prop && k.key == v.Key {
				matched = true
			}
		}
		if matched {
			c.known = append(c.known, v.Key)
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.Prop, v.Key, v.Msg)
			continue
		}
		open = append(open, v)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	cov := map[string]any{
		"explanation": strings.Join(c.rules, " | "),
	}
	keys := make([]string, 0, len(c.counts))
	for k := range c.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		cov[strings.ReplaceAll(k, " ", "_")] = c.counts[k]
	}
	if len(c.samples) > 0 {
		cov["samples"] = c.samples
	}
	if len(c.known) > 0 {
		cov["known_findings"] = c.known
	}
	if len(open) > 0 {
		var vs []string
		for _, v := range open {
			vs = append(vs, v.Key+": "+v.Msg)
		}
		cov["reports"] = vs
	}
	ev := map[string]any{
		"property":    c.Prop,
		"tier":        tier,
		"seed":        seed,
		"level":       "other",
		"coverage":    cov,
		"assumptions": append([]string{}, c.assumptions...),
		"wall_s":      time.Since(c.start).Seconds(),
		"violations":  len(open),
	}
	evp := filepath.Join(verif, "evidence", c.Prop+".json")
	_ = os.MkdirAll(filepath.Dir(evp), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(evp, append(b, '\n'), 0o644); err != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, evp)
		fmt.Printf("  cannot write evidence: %v\n", err)
		return 1
	}
	for _, k := range keys {
		fmt.Printf("%s: %d\n", k, c.counts[k])
	}
	if len(open) == 0 {
		fmt.Printf("OK property=%s (%d rules, %.1fs)\n", c.Prop, len(c.rules), time.Since(c.start).Seconds())
		return 0
	}
	for _, v := range open {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, evp)
		fmt.Printf("  [%s] %s\n", v.Key, v.Msg)
	}
	return 1
}
