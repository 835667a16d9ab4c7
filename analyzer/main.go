// Command hclcheck decides properties of the repository in /repo from its
// type-checked source. It never executes any of that source.
//
//	hclcheck [-tier quick|thorough] [-repo DIR] [-list] PROPERTY
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"time"
)

type checkFn struct {
	run  func(c *Ctx)
	rule string // one-paragraph statement of what is decided, for the evidence
}

var checks = map[string]checkFn{}

func register(id string, rule string, run func(c *Ctx)) {
	checks[id] = checkFn{run, rule}
}

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "directory for evidence and known findings")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	list := flag.Bool("list", false, "list properties")
	verbose := flag.Bool("v", false, "print obligations")
	flag.Parse()
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	id := flag.Arg(0)
	ck, ok := checks[id]
	if !ok {
		fmt.Fprintf(os.Stderr, "no check for %q\n", id)
		os.Exit(2)
	}
	start := time.Now()
	dir, err := filepath.Abs(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	prog, err := Load(dir)
	if err != nil {
		fmt.Fprintf(os.Stderr, "cannot load %s: %s\n", dir, err)
		os.Exit(2)
	}
	c := &Ctx{Prog: prog, ID: id, Tier: *tier, Rule: ck.rule, VerifDir: *verif, Verbose: *verbose, start: start}
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.Report("internal", "analysis-panic", nil, fmt.Sprintf("the analysis could not reach a verdict: %v\n%s", r, debug.Stack()))
			}
		}()
		ck.run(c)
	}()
	os.Exit(c.Finish())
}
