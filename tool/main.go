package main

import (
	"fmt"
	"os"
	"sort"
)

func main() {
	repo, verif, tier := "/repo", ".", os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repo = v
	}
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verif = v
	}
	if len(os.Args) < 2 {
		ids := []string{}
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println("usage: midicheck <property>", ids)
		os.Exit(2)
	}
	rc := run(os.Args[1], repo, verif, tier)
	os.Exit(rc)
}

var verbose = os.Getenv("MIDICHECK_VERBOSE") != ""

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var prof = func() map[string]int {
	if os.Getenv("VERIF_PROF") == "" {
		return nil
	}
	return map[string]int{}
}()

func dumpProf() {
	for k, v := range prof {
		if v > 5000 {
			fmt.Fprintf(os.Stderr, "%9d %s\n", v, k)
		}
		delete(prof, k)
	}
}
