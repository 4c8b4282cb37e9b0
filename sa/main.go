package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"time"
)

type checkDef struct {
	Fn        func(*World, *Report)
	Technique string
}

var checks = map[string]checkDef{}

func register(id, technique string, fn func(*World, *Report)) {
	checks[id] = checkDef{fn, technique}
}

var tierName = "quick"

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: bbsa <property|all|dump ...>")
		os.Exit(2)
	}
	repo := os.Getenv("BBSA_REPO")
	if repo == "" {
		repo = "/repo"
	}
	dir := os.Getenv("BBSA_DIR")
	if dir == "" {
		dir, _ = os.Getwd()
	}
	dir, _ = filepath.Abs(dir)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	tierName = tier
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	ids := os.Args[1:]
	w, err := Load(repo)
	if err != nil {
		if ids[0] == "dump" || ids[0] == "all" {
			fmt.Fprintln(os.Stderr, "cannot load the repository:", err)
			os.Exit(2)
		}
		rc := 0
		for _, id := range ids {
			r := NewReport(id, &World{Repo: repo})
			r.Explain = "The repository could not be loaded."
			r.Bad("undecided", "load", repo, "the source of the repository could not be loaded and type-checked: "+err.Error())
			if x := r.Finish(dir, start, tier, seed, checks[id].Technique); x > rc {
				rc = x
			}
		}
		os.Exit(rc)
	}
	if ids[0] == "dump" {
		dump(w, ids[1:])
		return
	}
	if ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	rc := 0
	for _, id := range ids {
		c, ok := checks[id]
		if !ok {
			fmt.Fprintln(os.Stderr, "no check for", id)
			os.Exit(2)
		}
		if len(ids) > 1 {
			start = time.Now()
		}
		r := NewReport(id, w)
		runCheck(c, w, r)
		if x := r.Finish(dir, start, tier, seed, c.Technique); x > rc {
			rc = x
		}
	}
	os.Exit(rc)
}

// runCheck turns a failure of the analysis itself into an undecided obligation.
func runCheck(c checkDef, w *World, r *Report) {
	defer func() {
		if p := recover(); p != nil {
			if os.Getenv("BBSA_TRACE") != "" {
				panic(p)
			}
			r.Bad("undecided", "analysis", "-", fmt.Sprintf("the analysis could not interpret the current source: %v", p))
		}
	}()
	c.Fn(w, r)
}
