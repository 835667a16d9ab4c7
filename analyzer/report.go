package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one construct that breaks a rule.
type Finding struct {
	Rule string `json:"rule"`
	// Key identifies the construct without line numbers, so that it stays the
	// same when unrelated lines change.
	Key string `json:"key"`
	Pos string `json:"pos"`
	Msg string `json:"msg"`
}

// Ctx collects what one check analysed and found.
type Ctx struct {
	*Prog
	ID       string
	Tier     string
	Rule     string
	VerifDir string
	Verbose  bool

	start       time.Time
	findings    []Finding
	seen        map[string]bool
	counts      map[string]int
	countOrder  []string
	assumptions []string
	exceptions  map[string]bool
	obligations int
}

// Report records a violation.
func (c *Ctx) Report(rule, key string, pos Poser, msg string) {
	where := ""
	if pos != nil {
		where = c.PosString(pos.Pos())
	}
	if c.seen == nil {
		c.seen = map[string]bool{}
	}
	id := rule + "\x00" + key + "\x00" + where
	if c.seen[id] {
		return
	}
	c.seen[id] = true
	c.findings = append(c.findings, Finding{rule, key, where, msg})
}

// Poser is anything with a position.
type Poser interface{ Pos() token.Pos }

// At makes a Poser from a position.
type At token.Pos

func (a At) Pos() token.Pos { return token.Pos(a) }

// Count adds to a measured count of analysed constructs.
func (c *Ctx) Count(name string, n int) {
	if c.counts == nil {
		c.counts = map[string]int{}
	}
	if _, ok := c.counts[name]; !ok {
		c.countOrder = append(c.countOrder, name)
	}
	c.counts[name] += n
}

// Floor demands that at least min constructs were counted under name: a rule
// whose subject matter has disappeared decides nothing.
func (c *Ctx) Floor(name string, min int) {
	if c.counts[name] < min {
		c.Report("vacuity", name, nil, fmt.Sprintf("only %d %s found, at least %d expected: the rule no longer applies to the code it was written for", c.counts[name], name, min))
	}
}

// Assume records an assumption for the evidence.
func (c *Ctx) Assume(s string) { c.assumptions = append(c.assumptions, s) }

// Obligation counts one proof obligation that was looked at.
func (c *Ctx) Obligation(format string, args ...interface{}) {
	c.obligations++
	if c.Verbose {
		fmt.Printf("  obligation: "+format+"\n", args...)
	}
}

// Exception notes that an exception from a table of confirmed exceptions was used.
func (c *Ctx) Exception(what string) {
	if c.exceptions == nil {
		c.exceptions = map[string]bool{}
	}
	c.exceptions[what] = true
}

type knownFinding struct {
	property, rule, key, text string
}

func (c *Ctx) loadKnown() ([]knownFinding, error) {
	f, err := os.Open(filepath.Join(c.VerifDir, "known-findings.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if line == "" || strings.HasPrefix(line, "#") || strings.HasPrefix(line, "fixed:") {
			continue
		}
		// known: property=C01 rule=<rule> key=<key> :: text
		rest := strings.TrimPrefix(line, "known: ")
		parts := strings.SplitN(rest, " :: ", 2)
		var k knownFinding
		if len(parts) == 2 {
			k.text = parts[1]
		}
		head := parts[0]
		if i := strings.Index(head, " key="); i >= 0 {
			k.key = head[i+5:]
			head = head[:i]
		}
		for _, w := range strings.Fields(head) {
			if strings.HasPrefix(w, "property=") {
				k.property = w[9:]
			}
			if strings.HasPrefix(w, "rule=") {
				k.rule = w[5:]
			}
		}
		out = append(out, k)
	}
	return out, sc.Err()
}

// Finish prints the verdict, writes the evidence and returns the exit status.
func (c *Ctx) Finish() int {
	known, err := c.loadKnown()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	sort.Slice(c.findings, func(i, j int) bool {
		a, b := c.findings[i], c.findings[j]
		if a.Rule != b.Rule {
			return a.Rule < b.Rule
		}
		if a.Key != b.Key {
			return a.Key < b.Key
		}
		return a.Pos < b.Pos
	})
	var unlisted []Finding
	for _, f := range c.findings {
		listed := false
		for _, k := range known {
			if k.property == c.ID && k.rule == f.Rule && k.key == f.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.ID, f.Key, k.text)
				listed = true
				break
			}
		}
		if !listed {
			unlisted = append(unlisted, f)
		}
	}
	evDir := filepath.Join(c.VerifDir, "evidence")
	if err := os.MkdirAll(evDir, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"explanation": c.Rule,
		"packages":    len(c.Pkgs),
		"functions":   len(c.Funcs),
		"obligations": c.obligations,
		"known":       len(c.findings) - len(unlisted),
	}
	for _, n := range c.countOrder {
		cov[strings.ReplaceAll(n, " ", "_")] = c.counts[n]
	}
	if len(c.exceptions) > 0 {
		var ex []string
		for e := range c.exceptions {
			ex = append(ex, e)
		}
		sort.Strings(ex)
		cov["confirmed_exceptions"] = ex
	}
	ev := map[string]interface{}{
		"property":   c.ID,
		"tier":       c.Tier,
		"seed":       seed,
		"level":      "other",
		"coverage":   cov,
		"wall_s":     time.Since(c.start).Seconds(),
		"violations": len(unlisted),
	}
	if len(c.assumptions) > 0 {
		ev["assumptions"] = c.assumptions
	}
	if err := writeJSON(filepath.Join(evDir, c.ID+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d packages, %d functions", c.ID, len(c.Pkgs), len(c.Funcs))
	for _, n := range c.countOrder {
		fmt.Printf(", %d %s", c.counts[n], n)
	}
	fmt.Printf("; %d obligations\n", c.obligations)
	replay := filepath.Join(evDir, c.ID+".violations.json")
	if len(unlisted) == 0 {
		os.Remove(replay)
		return 0
	}
	if err := writeJSON(replay, unlisted); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, f := range unlisted {
		fmt.Printf("%s: [%s] %s: %s\n", f.Pos, f.Rule, f.Key, f.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
	return 1
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
