// main.go - supervisor and worker of the property checks
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"
)

// Prop is one property and the workload + monitors that decide it.
type Prop struct {
	Level   string
	Rule    string
	MinEval int64 // fewer evaluations than this: the run observed too little
	Assume  []string
	Run     func(c *Ctx)
}

var props = map[string]*Prop{}

func register(id string, p *Prop) { props[id] = p }

// defaultSignals makes sure that commands started from here react to signals:
// a check started in the background of a script has SIGINT and SIGQUIT ignored,
// one started with nohup SIGHUP, and children would inherit that. Signals that
// are caught get their default action in children.
func defaultSignals() {
	ch := make(chan os.Signal, 1)
	ign := map[os.Signal]bool{}
	for _, s := range []os.Signal{syscall.SIGINT, syscall.SIGHUP, syscall.SIGQUIT, syscall.SIGTERM, syscall.SIGUSR1, syscall.SIGUSR2} {
		ign[s] = signal.Ignored(s)
	}
	for s := range ign {
		signal.Notify(ch, s)
	}
	go func() {
		for s := range ch {
			if !ign[s] {
				os.Exit(2)
			}
		}
	}()
}

func main() {
	if len(os.Args) > 1 && strings.HasPrefix(os.Args[1], "child-") {
		childMain(os.Args[1], os.Args[2:])
		return
	}
	var id, tier, bin, scratch, verif, out, only, racelog string
	var seed int64
	var worker bool
	flag.StringVar(&id, "prop", "", "property")
	flag.StringVar(&tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&bin, "bin", "", "sigtool binary")
	flag.StringVar(&scratch, "scratch", "", "scratch dir")
	flag.StringVar(&verif, "verif", "/verif", "framework dir")
	flag.StringVar(&out, "out", "", "result file (worker)")
	flag.StringVar(&only, "only", "", "group:case")
	flag.StringVar(&racelog, "racelog", "", "race detector log prefix")
	flag.Int64Var(&seed, "seed", 1, "seed")
	flag.BoolVar(&worker, "worker", false, "")
	flag.Parse()
	p := props[id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
		os.Exit(2)
	}
	if worker {
		defaultSignals()
		c := newCtx()
		c.ID, c.Tier, c.Seed, c.Bin, c.Scratch, c.Only = id, tier, seed, bin, scratch, only
		c.Verif = verif
		c.journal, _ = os.Create(out + ".journal")
		p.Run(c)
		writeJSON(out, c.result())
		return
	}

	t0 := time.Now()
	out = filepath.Join(scratch, "result.json")
	args := append([]string{"-worker", "-out", out}, os.Args[1:]...)
	cmd := exec.Command(os.Args[0], args...)
	cmd.Stdout = os.Stderr
	errfn := filepath.Join(scratch, "worker.err")
	ef, _ := os.Create(errfn)
	cmd.Stderr = ef
	cmd.Env = os.Environ()
	if racelog != "" {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 log_path="+racelog)
	}
	limit := 800 * time.Second
	if tier == "thorough" {
		limit = 6 * time.Hour
	}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	timedOut := false
	// a case that has been running for hangLimit on this many-core machine
	// when its siblings take milliseconds is stuck in the code under test
	stuck := watchStuck(out+".journal", done, limit, &werr)
	if stuck != "" {
		cmd.Process.Kill()
		<-done
		if stuck == "limit" {
			timedOut = true
		}
	}
	ef.Close()
	eb, _ := os.ReadFile(errfn)
	os.Stderr.Write(tail(eb, 6000))

	var r Result
	b, rerr := os.ReadFile(out)
	if rerr == nil {
		rerr = json.Unmarshal(b, &r)
	}
	if stuck != "" && !timedOut {
		r.Violations = append(r.Violations, Violation{Property: id, Group: groupOf(stuck), Case: caseOf(stuck), Seed: seed, Tier: tier,
			What: "operation does not terminate: " + stuck})
	} else if timedOut {
		fmt.Fprintf(os.Stderr, "%s: inconclusive: run exceeded its time limit\n", id)
		os.Exit(2)
	} else if rerr != nil {
		// the worker died: a fatal error no recover() can catch
		infl := inflight(out + ".journal")
		if fatal := fatalOf(string(eb)); fatal != "" && len(infl) > 0 {
			r.Violations = append(r.Violations, Violation{Property: id, Group: groupOf(infl[0]), Case: caseOf(infl[0]), Seed: seed, Tier: tier,
				What: "the process died: " + fatal, Detail: map[string]any{"inflight": infl}, Stack: string(tail(eb, 8000))})
		} else {
			fmt.Fprintf(os.Stderr, "%s: worker failed: %v\n", id, werr)
			os.Exit(2)
		}
	}
	if racelog != "" {
		r.Violations = append(r.Violations, raceReports(id, racelog, seed, tier, &r)...)
	}
	if r.HarnessErr != "" && len(r.Violations) == 0 {
		fmt.Fprintf(os.Stderr, "%s: harness error: %s\n", id, r.HarnessErr)
		os.Exit(2)
	}

	known, unknown := splitKnown(filepath.Join(verif, "known-findings.txt"), id, r.Violations)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}

	level := p.Level
	if level == "" {
		level = "exploration"
	}
	cov := map[string]any{"evaluations": r.Evaluations, "distinct_nontrivial": r.Distinct, "rule": p.Rule,
		"samples": r.Samples, "observed": r.Counters}
	if len(r.Inconcl) > 0 {
		cov["inconclusive"] = r.Inconcl
	}
	if r.Samples == nil {
		cov["samples"] = []any{}
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": append([]string{"Go toolchain, standard library and third-party modules behave as specified",
			"verdict covers only the executions observed in this run"}, p.Assume...),
		"wall_s": time.Since(t0).Seconds(), "violations": len(unknown)}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if only == "" {
		writeJSON(filepath.Join(verif, "evidence", id+".json"), ev)
	}
	if len(unknown) > 0 {
		rp := filepath.Join(verif, "evidence", "replay-"+id+".json")
		writeJSON(rp, unknown)
		for i, v := range unknown {
			if i == 5 {
				break
			}
			fmt.Printf("%s [%s:%d] %s\n", id, v.Group, v.Case, firstLines(v.What, 6))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		os.Exit(1)
	}
	if only == "" && (r.Evaluations < p.MinEval || r.Distinct == 0) {
		fmt.Fprintf(os.Stderr, "%s: inconclusive: only %d evaluations, %d distinct\n", id, r.Evaluations, r.Distinct)
		os.Exit(2)
	}
	if len(r.Inconcl) > 0 && len(r.Inconcl)*20 > int(r.Evaluations) {
		fmt.Fprintf(os.Stderr, "%s: inconclusive: %v\n", id, r.Inconcl)
		os.Exit(2)
	}
	fmt.Printf("%s: held on %d evaluations (%d distinct), %.1fs; observed %s\n", id, r.Evaluations, r.Distinct,
		time.Since(t0).Seconds(), counters(r.Counters))
}

func tail(b []byte, n int) []byte {
	if len(b) > n {
		return b[len(b)-n:]
	}
	return b
}

func firstLines(s string, n int) string {
	v := strings.SplitN(s, "\n", n+1)
	if len(v) > n {
		v = v[:n]
	}
	return strings.Join(v, "\n")
}

func counters(m map[string]int64) string {
	b, _ := json.Marshal(m)
	return string(b)
}

func inflight(fn string) (r []string) {
	b, _ := os.ReadFile(fn)
	for i := 0; i+journalSlot <= len(b); i += journalSlot {
		if s := strings.TrimRight(string(b[i:i+journalSlot]), "\x00"); s != "" {
			r = append(r, s)
		}
	}
	return
}

func groupOf(s string) string { g, _, _ := strings.Cut(s, ":"); return g }
func caseOf(s string) (n int) {
	_, i, _ := strings.Cut(s, ":")
	fmt.Sscan(i, &n)
	return
}

const hangLimit = 240 * time.Second

// on a machine that has far more to do than it has processors, everything
// takes longer
func crowd() int {
	var load float64
	b, _ := os.ReadFile("/proc/loadavg")
	fmt.Sscan(string(b), &load)
	return max(1, min(3, int(load/float64(runtime.NumCPU())/2)))
}

// waits for the worker. Returns "" when it ended, "limit" when the whole run
// is over its limit, or the id of a case that does not end.
func watchStuck(journal string, done chan error, limit time.Duration, werr *error) string {
	since := map[string]time.Time{}
	end := time.Now().Add(limit)
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	for {
		select {
		case *werr = <-done:
			return ""
		case now := <-tick.C:
			if now.After(end) {
				return "limit"
			}
			cur := map[string]bool{}
			for _, s := range inflight(journal) {
				cur[s] = true
				if t, ok := since[s]; !ok {
					since[s] = now
				} else if now.Sub(t) > hangLimit*time.Duration(crowd()) {
					return s
				}
			}
			for s := range since {
				if !cur[s] {
					delete(since, s)
				}
			}
		}
	}
}

// is this the output of a Go program that crashed?
func fatalOf(s string) string {
	for _, m := range []string{"fatal error: ", "panic: ", "unexpected fault address", "SIGSEGV", "SIGBUS", "goroutine stack exceeds"} {
		if i := strings.Index(s, m); i >= 0 {
			return firstLines(s[i:], 1)
		}
	}
	return ""
}

// known findings: lines "known: property=ID match=TEXT"; a violation whose
// text contains TEXT is that finding.
func splitKnown(fn, id string, v []Violation) (known []string, unknown []Violation) {
	b, _ := os.ReadFile(fn)
	var ms []string
	for _, l := range strings.Split(string(b), "\n") {
		if r, ok := strings.CutPrefix(l, "known: property="+id+" match="); ok {
			ms = append(ms, strings.TrimSpace(r))
		}
	}
	seen := map[string]bool{}
next:
	for _, x := range v {
		for _, m := range ms {
			if strings.Contains(x.What, m) {
				if !seen[m] {
					known = append(known, firstLines(x.What, 1))
				}
				seen[m] = true
				continue next
			}
		}
		unknown = append(unknown, x)
	}
	return
}
