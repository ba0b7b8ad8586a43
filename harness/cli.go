// cli.go - runs the sigtool program and observes what it does to the world
package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Run is one invocation of a program.
type Run struct {
	Args   []string
	In     []byte   // standard input (nil: /dev/null)
	InFile *os.File // or this
	Stdout *os.File // or captured
	Stderr *os.File
	Dir    string
	Home   string
	Env    []string
	Umask  string   // octal
	Wrap   []string // program and arguments put before the command
	VMem   int      // address space limit in KiB
	FSize  int      // file size limit in KiB blocks
	Data   int      // limit of private memory in KiB
}

// Ran is what was observed.
type Ran struct {
	Code   int // -1: killed by a signal
	Sig    syscall.Signal
	Out    []byte
	Err    []byte
	MaxRSS int64 // KiB
	Cmd    string
}

func (r *Ran) String() string {
	return fmt.Sprintf("%s -> exit %d%s stdout %q stderr %q", r.Cmd, r.Code, sigName(r.Sig), clip(string(r.Out), 300), clip(string(r.Err), 1500))
}

func sigName(s syscall.Signal) string {
	if s != 0 {
		return " (" + s.String() + ")"
	}
	return ""
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

const cmdLimit = 200 * time.Second

// CLI runs sigtool.
func (t *T) CLI(r Run) *Ran { return t.prog(t.c.Bin, r) }

// OK runs sigtool and requires success.
func (t *T) OK(r Run) *Ran {
	x := t.CLI(r)
	if x.Code != 0 {
		t.Failf("legitimate command failed: %v", x)
	}
	return x
}

func (t *T) prog(bin string, r Run) *Ran {
	if r.Dir == "" {
		r.Dir = t.Dir()
	}
	if r.Home == "" {
		r.Home = filepath.Join(t.Dir(), "nohome")
	}
	argv := append([]string{bin}, r.Args...)
	argv = append(append([]string(nil), r.Wrap...), argv...)
	var pre string
	if r.Umask != "" {
		pre += "umask " + r.Umask + " && "
	}
	if r.VMem > 0 {
		pre += fmt.Sprintf("ulimit -v %d && ", r.VMem)
	}
	if r.Data > 0 {
		pre += fmt.Sprintf("ulimit -d %d && ", r.Data)
	}
	if r.FSize > 0 {
		pre += fmt.Sprintf("ulimit -f %d && ", r.FSize)
	}
	if pre != "" {
		argv = append([]string{"/bin/bash", "-c", pre + `exec "$0" "$@"`}, argv...)
	}
	ctx, cancel := context.WithTimeout(context.Background(), cmdLimit)
	defer cancel()
	c := exec.CommandContext(ctx, argv[0], argv[1:]...)
	c.Dir = r.Dir
	c.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + r.Home, "LC_ALL=C", "TMPDIR=" + t.c.Scratch}, r.Env...)
	var so, se bytes.Buffer
	if r.InFile != nil {
		c.Stdin = r.InFile
	} else if r.In != nil {
		c.Stdin = bytes.NewReader(r.In)
	}
	if r.Stdout != nil {
		c.Stdout = r.Stdout
	} else {
		c.Stdout = &so
	}
	if r.Stderr != nil {
		c.Stderr = r.Stderr
	} else {
		c.Stderr = &se
	}
	c.WaitDelay = 5 * time.Second
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	err := c.Run()
	res := &Ran{Out: so.Bytes(), Err: se.Bytes(), Cmd: "sigtool " + strings.Join(quoteAll(r.Args), " ")}
	t.Count("commands", 1)
	// strace itself gives up now and then ("strace: ptrace(PTRACE_LISTEN,
	// pid:1457, sig:0): Input/output error"), leaving the command stopped
	if len(r.Wrap) > 0 && r.Wrap[0] == "strace" && (bytes.Contains(res.Err, []byte("strace: ptrace(")) || ctx.Err() != nil && t.c.stuckTraces.Add(1) <= 2) {
		t.Count("strace_gave_up", 1)
		t.Inconclusive("strace gave up")
	}
	if ctx.Err() != nil {
		t.Failf("command does not end: %v", res)
	}
	ps := c.ProcessState
	if ps == nil {
		herr("can't run %q: %v", argv, err)
	}
	if ru, ok := ps.SysUsage().(*syscall.Rusage); ok {
		res.MaxRSS = ru.Maxrss
	}
	ws := ps.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		res.Code, res.Sig = -1, ws.Signal()
	} else {
		res.Code = ws.ExitStatus()
	}
	// the child may legitimately not read all of its standard input
	if err != nil && ps.Success() && !errors.Is(err, syscall.EPIPE) && !errors.Is(err, exec.ErrWaitDelay) {
		herr("run %q: %v", argv, err)
	}
	// a command must never crash, whatever the property under check
	if crashed(res) {
		t.Failf("command crashed: %v", res)
	}
	return res
}

func crashed(r *Ran) bool {
	if r.Sig == syscall.SIGKILL {
		return false // ours
	}
	e := string(r.Err)
	return strings.Contains(e, "\ngoroutine ") && (strings.Contains(e, "panic: ") || strings.Contains(e, "fatal error: ")) ||
		r.Sig == syscall.SIGSEGV || r.Sig == syscall.SIGBUS || r.Sig == syscall.SIGABRT
}

func quoteAll(a []string) []string {
	r := make([]string, len(a))
	for i, x := range a {
		if x == "" || strings.ContainsAny(x, " \t\n'\"") {
			x = fmt.Sprintf("%q", clip(x, 120))
		}
		r[i] = x
	}
	return r
}

func (t *T) write(name string, b []byte, mode os.FileMode) string {
	p := name
	if !filepath.IsAbs(p) {
		p = t.Path(name)
	}
	must(os.MkdirAll(filepath.Dir(p), 0755))
	must(os.WriteFile(p, b, mode))
	must(os.Chmod(p, mode))
	return p
}

// writeKey stores a cheap private key (passphrase pw) and its public key.
func (t *T) writeKey(base string, k *RefKey, pw, comment string) (skf, pkf string) {
	skf = t.write(base+".key", quickPriv(t.R, k, []byte(pw), comment), 0600)
	pkf = t.write(base+".pub", refPubFile(k.PK, comment), 0644)
	return
}

func mustRead(fn string) []byte {
	b, err := os.ReadFile(fn)
	must(err)
	return b
}

func exists(fn string) bool { _, err := os.Lstat(fn); return err == nil }

// snapEntry describes one directory entry
type snapEntry struct {
	Mode   os.FileMode
	Size   int64
	Ino    uint64
	Sum    string
	Target string
	Mtime  int64
}

// snapshot records everything below dir
func snapshot(dir string) map[string]snapEntry {
	m := map[string]snapEntry{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || p == dir {
			return nil
		}
		st, err := os.Lstat(p)
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		e := snapEntry{Mode: st.Mode(), Mtime: st.ModTime().UnixNano()}
		if s, ok := st.Sys().(*syscall.Stat_t); ok {
			e.Ino = s.Ino
		}
		switch {
		case st.Mode()&os.ModeSymlink != 0:
			e.Target, _ = os.Readlink(p)
		case st.Mode().IsRegular():
			e.Size = st.Size()
			if f, err := os.Open(p); err == nil {
				h := sha256.New()
				io.Copy(h, f)
				f.Close()
				e.Sum = fmt.Sprintf("%x", h.Sum(nil)[:12])
			}
		case st.IsDir():
			e.Mtime = 0
			e.Ino = 0
		}
		m[rel] = e
		return nil
	})
	return m
}

// snapDiff lists the differences, apart from the names in allow.
func snapDiff(a, b map[string]snapEntry, allow ...string) []string {
	ok := map[string]bool{}
	for _, x := range allow {
		ok[x] = true
	}
	var r []string
	for k, x := range a {
		if ok[k] {
			continue
		}
		y, in := b[k]
		switch {
		case !in:
			r = append(r, "removed "+k)
		case x != y:
			r = append(r, fmt.Sprintf("changed %s: %+v -> %+v", k, x, y))
		}
	}
	for k := range b {
		if _, in := a[k]; !in && !ok[k] {
			r = append(r, fmt.Sprintf("created %s (%d bytes)", k, b[k].Size))
		}
	}
	sort.Strings(r)
	return r
}
