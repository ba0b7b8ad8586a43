// child.go - parts of the workload that run in processes of their own
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

var children = map[string]func(args []string){}

func childMain(name string, args []string) {
	f := children[name]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such child", name)
		os.Exit(97)
	}
	f(args)
	os.Exit(0)
}

// child runs this binary as a child process.
func (t *T) child(name string, r Run) *Ran {
	r.Args = append([]string{name}, r.Args...)
	exe, err := os.Executable()
	must(err)
	return t.prog(exe, r)
}

var raceFrame = regexp.MustCompile(`(?m)^  (\S+)\(.*\)\n      (\S+):(\d+)`)

// raceReports turns race detector reports into violations, deduplicated by
// the functions involved.
func raceReports(id, prefix string, seed int64, tier string, r *Result) (v []Violation) {
	fns, _ := filepath.Glob(prefix + ".*")
	sort.Strings(fns)
	seen := map[string]bool{}
	for _, fn := range fns {
		b, _ := os.ReadFile(fn)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "DATA RACE") {
				continue
			}
			if r.Counters == nil {
				r.Counters = map[string]int64{}
			}
			r.Counters["race_report_blocks"]++
			var sut []string
			for _, m := range raceFrame.FindAllStringSubmatch(blk, -1) {
				if strings.Contains(m[1], "sigtool/sign.") || strings.Contains(m[1], "sigtool/internal/") {
					sut = append(sut, m[1])
				}
			}
			if len(sut) == 0 {
				r.HarnessErr = "data race in the harness:\n" + blk
				continue
			}
			k := strings.Join(sut, " ")
			if seen[k] {
				continue
			}
			seen[k] = true
			v = append(v, Violation{Property: id, Group: "race", Seed: seed, Tier: tier,
				What: "data race: " + strings.Join(sut, " / "), Stack: blk})
		}
	}
	return
}
