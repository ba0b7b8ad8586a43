package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// C18: commands never clobber files; failed commands change nothing
func init() {
	register("C18", &Prop{MinEval: 300,
		Rule:   "every command x state of the output path (absent, file, empty, directory, link, hard link, read-only) x overwrite x outcome (success, bad key, wrong passphrase, bad recipient, missing or damaged input, missing or vanishing output directory, failing system calls), with a complete snapshot (content, mode, inode, time) of the directory before and after. Output paths that are the input under another name get all aliases. Distinct: (command, output state, overwrite, way of failing, outcome).",
		Assume: []string{"creation of the output by somebody else while the command runs is not covered", "a command killed by a signal may leave its temporary file"},
		Run:    runC18})
}

// prepares output path o in the given state; returns it
func (l *lab) outState(kind, o string) {
	l.bystanders(o)
	switch kind {
	case "absent":
	case "file":
		l.put(o, []byte("an existing file, longer than nothing"), 0640)
	case "big":
		l.put(o, bytes.Repeat([]byte("old content "), 20000), 0644)
	case "empty":
		l.put(o, nil, 0644)
	case "dir":
		must(os.MkdirAll(l.path(o), 0755))
		l.put(filepath.Join(o, "inside"), []byte("x"), 0644)
	case "link":
		l.put("linked-to", []byte("target of the link"), 0644)
		must(os.Symlink("linked-to", l.path(o)))
	case "hardlink":
		l.put("other-name", []byte("two names"), 0644)
		must(os.Link(l.path("other-name"), l.path(o)))
	case "readonly":
		l.put(o, []byte("read only"), 0444)
	}
}

// files that look as if they had to do with output o, and are none of the command's business
func (l *lab) bystanders(o string) {
	d, b := filepath.Split(o)
	for _, n := range []string{b + ".tmp", b + ".tmp.1", b + ".tmp12345678", b + ".tmp.12345.6a5b", b + ".tmp.1234.deadbeef", b + ".bak", b + ".old", b + ".orig", b + ".new", b + ".part", b + ".lock", b + "~",
		"." + b + ".tmp", "." + b + ".swp", "." + b + ".1234", "#" + b + "#", ".#" + b, "tmp." + b, b + "1", b + ".0", b + "-123456", b + "123456789", b + ".sig", b + ".asc", b + ".enc", b + ".key.tmp", b + ".pub.tmp", b + ".pub.tmp.1"} {
		if _, err := os.Lstat(l.path(d + n)); err != nil {
			l.put(d+n, []byte("bystander "+n), 0600)
		}
	}
}

var outStates = []string{"absent", "file", "big", "empty", "dir", "link", "hardlink", "readonly"}

// judgeRun compares the world before and after.
func (l *lab) judgeRun(r *Ran, c *labCmd, before map[string]snapEntry, out, state string, force bool) {
	t := l.t
	after := snapshot(l.W)
	t.Count("snapshots", 2)
	if r.Code != 0 {
		t.Count("failed_commands", 1)
		if d := snapDiff(before, after); len(d) > 0 {
			t.Failf("failed command changed files: %s; %v", strings.Join(d, "; "), r)
		}
		return
	}
	t.Count("successful_commands", 1)
	var allow []string
	if out != "" && out != "-" && (state == "absent" || force) {
		allow = append(allow, out)
	}
	if d := snapDiff(before, after, allow...); len(d) > 0 {
		t.Failf("successful command changed more than its output (%s, overwrite %v): %s; %v", state, force, strings.Join(d, "; "), r)
	}
}

func runC18(c *Ctx) {
	// outputs in every state, commands that would otherwise succeed
	type mx struct {
		cmd, st int
		force   bool
	}
	var m []mx
	for i := 0; i < 5; i++ {
		for s := range outStates {
			m = append(m, mx{i, s, false}, mx{i, s, true})
		}
	}
	c.Cases("output-states", len(m), func(t *T) {
		x := m[t.idx]
		l := t.newLab(t.R.Intn(5000), 1000)
		cmd := l.commands()[x.cmd]
		out := "out"
		o := out
		if cmd.defOut != "" && t.R.Intn(2) == 0 {
			out, o = cmd.defOut, ""
		}
		st := outStates[x.st]
		l.outState(st, out)
		if o != "" && t.R.Intn(3) == 0 {
			o = l.path(o)
		}
		before := snapshot(l.W)
		r := t.CLI(Run{Args: cmd.with(o, x.force), Dir: l.W})
		l.judgeRun(r, cmd, before, out, st, x.force)
		if r.Code == 0 {
			if st != "absent" && !x.force {
				t.Failf("command succeeded although its output %s exists (%s): %v", out, st, r)
			}
			if err := cmd.judge(mustRead(l.path(out))); err != nil {
				t.Failf("output is wrong: %v; %v", err, r)
			}
		}
		t.Seen("%s/%s/%v/%d", cmd.name, st, x.force, r.Code)
		t.Sample(map[string]any{"cmd": r.Cmd, "state": st, "code": r.Code})
	})

	// the input as output, by any name
	aliases := []string{"same", "dot", "abs", "updown", "symlink", "symlink-abs", "hardlink", "dirlink", "symlink-chain", "input-is-link", "input-is-link-abs", "proc"}
	c.Cases("input-as-output", len(aliases)*4*2*c.n(2, 6), func(t *T) {
		al := aliases[t.idx%len(aliases)]
		ci := t.idx / len(aliases) % 4
		force := t.idx/len(aliases)/4%2 == 1
		n := 1 + t.R.Intn(5000)
		if ci < 2 && t.idx/(len(aliases)*8)%2 == 1 {
			n = 0 // nothing to lose but the file itself
		}
		l := t.newLab(n, 1000)
		cmd := l.commands()[ci]
		in := cmd.in
		given, out := in, ""
		must(os.Mkdir(l.path("sub"), 0755))
		switch al {
		case "same":
			out = in
		case "dot":
			out = "./" + in
		case "abs":
			out = l.path(in)
		case "updown":
			out = "sub/../" + in
		case "symlink":
			must(os.Symlink(in, l.path("alias")))
			out = "alias"
		case "symlink-abs":
			must(os.Symlink(l.path(in), l.path("sub/alias")))
			out = "sub/alias"
		case "hardlink":
			must(os.Link(l.path(in), l.path("alias")))
			out = "alias"
		case "dirlink":
			must(os.Symlink(l.W, l.path("sub/d")))
			out = "sub/d/" + in
		case "symlink-chain":
			must(os.Symlink(in, l.path("a1")))
			must(os.Symlink("a1", l.path("a2")))
			out = "a2"
		case "input-is-link":
			must(os.Symlink(in, l.path("alias")))
			given, out = "alias", in
		case "input-is-link-abs":
			must(os.Symlink(l.path(in), l.path("sub/alias")))
			given, out = l.path("sub/alias"), l.path(in)
		case "proc":
			out = "/proc/self/cwd/" + in
		}
		args := replaceArg(cmd.with(out, force), in, given)
		content := mustRead(l.path(in))
		before := snapshot(l.W)
		r := t.CLI(Run{Args: args, Dir: l.W})
		t.Set("alias", al)
		was := before[in]
		if now := snapshot(l.W)[in]; now.Ino != was.Ino || now.Mode != was.Mode {
			t.Failf("the command replaced its input (%s): %+v -> %+v; %v", al, was, now, r)
		}
		if b, err := os.ReadFile(l.path(in)); err != nil || !bytes.Equal(b, content) {
			t.Failf("the command put its output in place of its input (%s): %v", al, r)
		}
		if b, err := os.ReadFile(filepath.Join(l.W, relTo(l.W, given))); err != nil || !bytes.Equal(b, content) {
			t.Failf("the command put its output in place of the input %s (%s): %v", given, al, r)
		}
		if r.Code != 0 || !force {
			if d := snapDiff(before, snapshot(l.W)); len(d) > 0 {
				t.Failf("output given as an alias of the input (%s): %s; %v", al, strings.Join(d, "; "), r)
			}
		}
		t.Count("aliases_tried", 1)
		t.Seen("%s/%s/%v/%d", cmd.name, al, force, r.Code)
	})

	// commands that fail, early and late
	ways := []string{"missing-input", "input-is-dir", "missing-key", "garbage-key", "wrong-passphrase", "missing-recipient", "second-recipient-bad", "garbage-recipient",
		"user-unknown", "no-output-dir", "output-dir-is-file", "damaged-last", "damaged-first", "damaged-header", "truncated", "not-recipient", "wrong-sender", "unsigned-file",
		"bad-option", "no-args", "bad-blocksize", "few-args", "long-name"}
	c.Cases("failing", len(ways)*c.n(24, 400), func(t *T) {
		way := ways[t.idx%len(ways)]
		l := t.newLab(3000+t.R.Intn(5000), 500)
		cmds := l.commands()
		cmd := cmds[(t.idx/len(ways))%5]
		st := pick(t.R, "absent", "absent", "file", "big", "empty", "link", "hardlink")
		force := t.R.Intn(3) > 0
		out := "out"
		isDec := strings.HasPrefix(cmd.name, "decrypt")
		dmg := func(f func(b []byte) []byte) bool {
			if !isDec {
				return false
			}
			b := append([]byte(nil), mustRead(l.path(cmd.in))...)
			l.put(cmd.in, f(b), 0644)
			return true
		}
		args := cmd.args
		env := []string{}
		o := out
		switch way {
		case "missing-input":
			args = replaceArg(args, cmd.in, "nosuchfile")
		case "input-is-dir":
			must(os.Mkdir(l.path("somedir"), 0755))
			args = replaceArg(args, cmd.in, "somedir")
		case "missing-key":
			for _, k := range []string{"rx.key", "snd.key", "rx.pub"} {
				args = replaceArg(args, k, "nosuchkey")
			}
		case "garbage-key":
			l.put("garbage", []byte("this is: no key\n"), 0644)
			for _, k := range []string{"rx.key", "snd.key", "rx.pub"} {
				args = replaceArg(args, k, "garbage")
			}
		case "wrong-passphrase":
			l.put("rx.key", quickPriv(t.R, l.rx, []byte("pass"), ""), 0600)
			l.put("snd.key", quickPriv(t.R, l.snd, []byte("pass"), ""), 0600)
			if cmd.name == "encrypt" {
				cmd = cmds[1]
				args = cmd.args
			}
			if t.R.Intn(2) == 0 {
				args = replaceArg(args, "--no-password", "-EPW")
				env = []string{"PW=other"}
			}
		case "missing-recipient", "garbage-recipient", "second-recipient-bad", "user-unknown", "bad-blocksize":
			if isDec || cmd.name == "sign" {
				cmd = cmds[t.R.Intn(2)]
				args = cmd.args
			}
			switch way {
			case "missing-recipient":
				args = replaceArg(args, "rx.pub", "nosuch.pub")
			case "garbage-recipient":
				args = replaceArg(args, "rx.pub", "in.enc")
			case "user-unknown":
				args = replaceArg(args, "rx.pub", "who@where")
			case "second-recipient-bad":
				n := len(args) - 1
				args = append(append([]string(nil), args[:n]...), pick(t.R, "nosuch.pub", "in.enc", "nobody@nowhere", "w"), args[n])
			case "bad-blocksize":
				args = replaceArg(args, fmt.Sprint(l.blk), pick(t.R, "x", "-1", "1q", ""))
			}
		case "no-output-dir":
			o = "nodir/out"
			st = "absent"
		case "output-dir-is-file":
			o = "in/out"
			st = "absent"
		case "damaged-last":
			if !dmg(func(b []byte) []byte { b[len(b)-70-t.R.Intn(100)] ^= 4; return b }) {
				return
			}
		case "damaged-first":
			if !dmg(func(b []byte) []byte {
				h, err := refParseHdr(b)
				must(err)
				b[len(h.Raw)+t.R.Intn(200)] ^= 4
				return b
			}) {
				return
			}
		case "damaged-header":
			if !dmg(func(b []byte) []byte { b[t.R.Intn(150)] ^= 4; return b }) {
				return
			}
		case "truncated":
			if !dmg(func(b []byte) []byte { return b[:t.R.Intn(len(b))] }) {
				return
			}
		case "not-recipient":
			if !isDec {
				return
			}
			args = replaceArg(args, "rx.key", "snd.key")
		case "wrong-sender", "unsigned-file":
			if !isDec {
				return
			}
			cmd = cmds[3]
			args = replaceArg(cmd.args, "snd.pub", "rx.pub")
			if way == "unsigned-file" {
				args = replaceArg(cmd.args, "sin.enc", "in.enc")
			}
		case "bad-option":
			args = append([]string{args[0], "--frobnicate"}, args[1:]...)
		case "no-args":
			args = args[:1]
		case "few-args":
			args = args[:len(args)-1]
			if isDec || cmd.name == "encrypt-signed" && t.R.Intn(2) == 0 {
				args = args[:1]
			}
		case "long-name":
			o = strings.Repeat("x", 250)
			st = "absent"
		}
		if o == out {
			l.outState(st, out)
		}
		before := snapshot(l.W)
		cc := *cmd
		cc.args = args
		r := t.CLI(Run{Args: cc.with(o, force), Dir: l.W, Env: env, In: []byte("standard input")})
		t.Set("way", way)
		t.Set("output state", st)
		l.judgeRun(r, cmd, before, out, st, force)
		if r.Code == 0 {
			t.Count("unexpected_success", 1)
		}
		t.Seen("%s/%s/%s/%v/%d", cmd.name, way, st, force, r.Code)
	})

	// no output file at all
	c.Cases("no-output", c.n(30, 300), func(t *T) {
		l := t.newLab(t.R.Intn(3000), 100)
		cs := l.commands()
		list := [][]string{
			cs[0].with("", false), cs[1].with("-", false), cs[2].with("", true), cs[3].with("-", false), cs[4].with("-", false),
			{"verify", "snd.pub", "good.sig", "in"}, {"verify", "rx.pub", "good.sig", "in"}, {"verify", "-q", "snd.pub", "good.sig", "in.enc"},
			{"decrypt", "-t", "--no-password", "rx.key", "in.enc"},
			{"decrypt", "-t", "--no-password", "-o", "tested", "rx.key", "in.enc"},
			{"decrypt", "-t", "--no-password", "-o", "in", "--overwrite", "rx.key", "in.enc"},
			{"decrypt", "-t", "--no-password", "-o", "in.enc", "--overwrite", "rx.key", "in.enc"},
			{"decrypt", "-t", "--no-password", "rx.key", "in"},
			{"help"}, {"-h"}, {"-v"}, {"generate", "-h"}, {"sign", "-h"}, {"verify", "-h"}, {"generate"}, {"nonsense"}, {}, {"encrypt", "-h"}, {"decrypt", "--help"},
		}
		a := list[t.idx%len(list)]
		before := snapshot(l.W)
		r := t.CLI(Run{Args: a, Dir: l.W})
		if d := snapDiff(before, snapshot(l.W)); len(d) > 0 {
			t.Failf("command without output file changed files: %s; %v", strings.Join(d, "; "), r)
		}
		t.Count("snapshots", 2)
		t.Seen("%d/%d", t.idx%len(list), r.Code)
	})

	// The world changes while the command waits for its input.
	c.Cases("meanwhile", c.n(16, 200), func(t *T) {
		l := t.newLab(2000, 100)
		cmd := l.commands()[t.idx%4]
		fifo := l.path("fifo")
		mkfifo(fifo)
		st := pick(t.R, "absent", "file")
		l.outState(st, "out")
		content := mustRead(l.path(cmd.in))
		before := snapshot(l.W)
		done := make(chan *Ran, 1)
		args := replaceArg(cmd.with("out", true), cmd.in, "fifo")
		go func() {
			defer func() { recover(); close(done) }()
			done <- t.CLI(Run{Args: args, Dir: l.W})
		}()
		w, err := openFifoWriter(fifo)
		must(err)
		w.Write(content[:len(content)/2])
		// the output becomes a directory: the final rename must fail
		for i := 0; i < 200 && !hasTemp(l.W); i++ {
			time.Sleep(5 * time.Millisecond)
		}
		os.Remove(l.path("out"))
		must(os.Mkdir(l.path("out"), 0755))
		w.Write(content[len(content)/2:])
		w.Close()
		r, ok := <-done
		if !ok {
			t.Inconclusive("command did not run")
		}
		if r.Code == 0 {
			t.Failf("command succeeded although its output path is a directory: %v", r)
		}
		delete(before, "out")
		if d := snapDiff(before, snapshot(l.W), "out", "fifo"); len(d) > 0 {
			t.Failf("command that could not put its output in place left: %s; %v", strings.Join(d, "; "), r)
		}
		t.Count("failed_commands", 1)
		t.Seen("%s/%s", cmd.name, st)
	})

	// system calls fail
	if straceOK() {
		c.Cases("faults", c.n(250, 6000), func(t *T) {
			l := t.newLab(3000+t.R.Intn(3000), 500)
			cmd := l.commands()[t.idx%5]
			st := pick(t.R, "absent", "file", "big", "link", "hardlink")
			force := st != "absent" || t.R.Intn(2) == 0
			l.outState(st, "out")
			f := randFault(t.R)
			before := snapshot(l.W)
			r := t.CLI(Run{Args: cmd.with("out", force), Dir: l.W, Wrap: inject(f)})
			t.Set("fault", f)
			l.judgeRun(r, cmd, before, "out", st, force)
			if r.Code == 0 {
				if err := cmd.judge(mustRead(l.path("out"))); err != nil {
					t.Failf("with %s: success, but the output is wrong: %v; %v", f, err, r)
				}
			}
			t.Count("faults_injected", 1)
			t.Seen("%s/%s/%s/%d", cmd.name, f, st, r.Code)
		})
		// generate: it has two outputs
		gf := []string{"renameat:error=EIO:when=1", "write:error=ENOSPC:when=1", "write:error=ENOSPC:when=2", "fsync:error=EIO:when=1", "renameat:error=ENOSPC:when=2", "openat:error=EACCES:when=10+"}
		c.casesN("faults-generate", c.n(len(gf), 60), 4, func(t *T) {
			f := gf[t.idx%len(gf)]
			must(os.Mkdir(t.Path("w"), 0755))
			force := t.idx >= len(gf) && f != "renameat:error=ENOSPC:when=2"
			args := []string{"generate", "--no-password", "k"}
			if force {
				args = []string{"generate", "--overwrite", "--no-password", "k"}
				t.write("w/k.key", []byte("old key"), 0600)
				if t.R.Intn(2) == 0 {
					t.write("w/k.pub", []byte("old pub"), 0644)
				}
			}
			before := snapshot(t.Path("w"))
			r := t.CLI(Run{Args: args, Dir: t.Path("w"), Wrap: inject(f)})
			t.Set("fault", f)
			if r.Code != 0 {
				t.Count("failed_commands", 1)
				if d := snapDiff(before, snapshot(t.Path("w"))); len(d) > 0 {
					t.Failf("failed command changed files: %s; %v", strings.Join(d, "; "), r)
				}
			}
			t.Count("faults_injected", 1)
			t.Seen("%s/%v/%d", f, force, r.Code)
		})
		// known: the second of two renames fails when both files are replaced
		c.Serial("generate-second-rename", 1, func(t *T) {
			must(os.Mkdir(t.Path("w"), 0755))
			t.write("w/k.key", []byte("old key"), 0600)
			t.write("w/k.pub", []byte("old pub"), 0644)
			before := snapshot(t.Path("w"))
			r := t.CLI(Run{Args: []string{"generate", "--overwrite", "--no-password", "k"}, Dir: t.Path("w"), Wrap: inject("renameat:error=EIO:when=2")})
			if d := snapDiff(before, snapshot(t.Path("w"))); r.Code != 0 && len(d) > 0 {
				if len(d) == 1 && strings.HasPrefix(d[0], "changed k.key") {
					t.Failf("generate --overwrite replaced PREFIX.key, then the rename of PREFIX.pub failed")
				}
				t.Failf("failed command changed files: %s; %v", strings.Join(d, "; "), r)
			}
		})
	}
	// both outputs in the way of generate
	c.casesN("generate", c.n(12, 60), 4, func(t *T) {
		w := t.Path("w")
		must(os.Mkdir(w, 0755))
		way := []string{"pub is a directory", "key is a directory", "both files", "pub only", "key only", "both, dir", "dangling key", "pub link", "empty pub", "prefix is a directory", "no directory", "long name"}[t.idx%12]
		args := []string{"generate", "--overwrite", "--no-password", "k"}
		switch way {
		case "pub is a directory":
			must(os.Mkdir(filepath.Join(w, "k.pub"), 0755))
			if t.idx >= 4 {
				t.write("w/k.key", []byte("old key"), 0600)
			}
		case "key is a directory":
			must(os.Mkdir(filepath.Join(w, "k.key"), 0755))
			t.write("w/k.pub", []byte("old pub"), 0600)
		case "both files":
			t.write("w/k.key", []byte("old key"), 0600)
			t.write("w/k.pub", []byte("old pub"), 0600)
			args = []string{"generate", "--no-password", "k"}
		case "pub only":
			t.write("w/k.pub", []byte("old pub"), 0600)
			args = []string{"generate", "--no-password", "k"}
		case "key only":
			t.write("w/k.key", []byte("old key"), 0600)
			args = []string{"generate", "--no-password", "k"}
		case "both, dir":
			t.write("w/sub/k.key", []byte("old key"), 0600)
			t.write("w/sub/k.pub", []byte("old pub"), 0640)
			args = []string{"generate", "--no-password", "-c", "comment", "./sub/k"}
		case "dangling key":
			t.write("w/k.pub", []byte("old pub"), 0600)
			must(os.Symlink("gone", filepath.Join(w, "k.key")))
			args = []string{"generate", "--no-password", "k"}
		case "pub link":
			t.write("w/target", []byte("linked"), 0600)
			must(os.Symlink("target", filepath.Join(w, "k.pub")))
			args = []string{"generate", "--no-password", "k"}
		case "empty pub":
			t.write("w/k.pub", nil, 0600)
			args = []string{"generate", "--no-password", "k"}
		case "prefix is a directory":
			t.write("w/k.pub/inside", []byte("x"), 0600)
			args = []string{"generate", "--no-password", "k"}
		case "no directory":
			args = []string{"generate", "--no-password", "--overwrite", "nodir/k"}
		case "long name":
			args = []string{"generate", "--no-password", strings.Repeat("n", 253)}
		}
		before := snapshot(w)
		r := t.CLI(Run{Args: args, Dir: w})
		if d := snapDiff(before, snapshot(w)); len(d) > 0 {
			t.Failf("generate (%s) changed files: %s; %v", way, strings.Join(d, "; "), r)
		}
		t.Seen("%s/%d", way, r.Code)
	})
}

func relTo(base, p string) string {
	if !filepath.IsAbs(p) {
		return p
	}
	r, err := filepath.Rel(base, p)
	must(err)
	return r
}

// is there anything besides what the lab made?
func hasTemp(dir string) bool {
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if strings.HasPrefix(e.Name(), "out.") {
			return true
		}
	}
	return false
}

// openFifoWriter opens a FIFO for writing once it has a reader.
func openFifoWriter(p string) (*os.File, error) {
	for i := 0; ; i++ {
		w, err := os.OpenFile(p, os.O_WRONLY|oNonblock, 0)
		if err == nil || i > 4000 {
			return w, err
		}
		time.Sleep(5 * time.Millisecond)
	}
}
