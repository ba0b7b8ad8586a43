package main

import (
	"bytes"

	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"
)

// C25: generate
func init() {
	register("C25", &Prop{MinEval: 150,
		Rule:   "the generate command with every form of prefix, comment, passphrase option, umask and previous state of the two paths; the monitor compares complete snapshots of the directory, the modes, and reads both files with the reference implementation: the private key opens with exactly the requested passphrase and belongs to the public key, which carries the comment. Distinct: (prefix form, protection, umask, previous state, overwrite, outcome).",
		Assume: []string{"a failing second rename with --overwrite is a known finding of C18", "dangling links as output, and creation of the files by somebody else meanwhile, are not judged"},
		Run:    runC25})
}

type genReq struct {
	prefix  string
	comment string
	setCm   bool
	pw      string
	nopw    bool
	umask   string
	force   bool
}

func (g *genReq) args(t *T) (a []string, env []string) {
	a = append(a, pick(t.R, "generate", "gen", "g", "genera", "GENERATE", "Gen"))
	var o [][]string
	if g.nopw {
		o = append(o, []string{"--no-password"})
	} else {
		v := pick(t.R, "THEPW", "THEPW", "P", "_p", "a", "x1")
		o = append(o, pick(t.R, []string{"-E", v}, []string{"--env-password", v}, []string{"--env-password=" + v}, []string{"-E" + v}))
		env = append(env, v+"="+g.pw)
	}
	if g.setCm {
		o = append(o, pick(t.R, []string{"-c", g.comment}, []string{"--comment", g.comment}, []string{"--comment=" + g.comment}))
	}
	if g.force {
		o = append(o, []string{"--overwrite"})
	}
	t.R.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
	k := t.R.Intn(len(o) + 1)
	for i, x := range o {
		if i == k {
			a = append(a, g.prefix)
		}
		a = append(a, x...)
	}
	if k == len(o) {
		a = append(a, g.prefix)
	}
	return
}

// judge reads the two files (base: path without extension).
func (g *genReq) judge(t *T, base string, r *Ran, deep bool) *RefKey {
	skb, err := os.ReadFile(base + ".key")
	if err != nil {
		t.Failf("generate succeeded but there is no private key file: %v; %v", err, r)
	}
	pkb, err := os.ReadFile(base + ".pub")
	if err != nil {
		t.Failf("generate succeeded but there is no public key file: %v; %v", err, r)
	}
	pk, _, err := refReadPub(pkb)
	if err != nil || len(pk) != 32 {
		t.Failf("generated public key file is unusable: %v (%q)", err, clip(string(pkb), 300))
	}
	want := g.pw
	if g.nopw {
		want = ""
	}
	k, y, err := refReadPriv(skb, []byte(want))
	if err != nil {
		t.Failf("generated private key does not open with the requested passphrase: %v; %v", err, r)
	}
	if !bytes.Equal(k.PK, pk) {
		t.Failf("generated keys do not belong together: %v", r)
	}
	for i, b := range [][]byte{pkb, skb} {
		if cm, err := storedComment(b); err != nil || cm != g.comment {
			t.Failf("file %d carries the comment %q instead of %q (%v): %v", i, clip(cm, 200), clip(g.comment, 200), err, r)
		}
	}
	if deep && want != "" {
		if _, _, err := refReadPriv(skb, nil); err == nil {
			t.Failf("generated private key opens without its passphrase: %v", r)
		}
	}
	_ = y
	st, err := os.Lstat(base + ".key")
	must(err)
	if !st.Mode().IsRegular() || st.Mode().Perm()&0077 != 0 {
		t.Failf("private key file has mode %v: %v", st.Mode(), r)
	}
	if g.umask != "777" && g.umask != "477" && st.Mode().Perm()&0400 == 0 {
		t.Failf("private key file can't be read by its owner (%v): %v", st.Mode(), r)
	}
	if st, _ := os.Lstat(base + ".pub"); !st.Mode().IsRegular() || st.Mode().Perm()&0022 != 0 {
		t.Failf("public key file has mode %v: %v", st.Mode(), r)
	}
	return k
}

func genState(t *T, base, kind string) {
	put := func(ext string, mode os.FileMode, b string) { t.write(base+ext, []byte(b), mode) }
	switch kind {
	case "none":
	case "both":
		put(".key", 0644, "old key")
		put(".pub", 0600, "old pub")
	case "both-readonly":
		put(".key", 0400, "old key")
		put(".pub", 0444, "old pub")
	case "key":
		put(".key", 0666, "old key")
	case "pub":
		put(".pub", 0644, "old pub")
	case "key-empty":
		put(".key", 0600, "")
	case "pub-empty":
		put(".pub", 0644, "")
	case "key-dir":
		put(".key/x", 0600, "x")
	case "pub-dir":
		put(".pub/x", 0600, "x")
	case "both-pub-dir":
		put(".key", 0600, "old key")
		put(".pub/x", 0600, "x")
	case "both-key-dir":
		put(".pub", 0600, "old pub")
		put(".key/x", 0600, "x")
	case "key-link":
		put(".elsewhere", 0644, "linked")
		must(os.Symlink(base+".elsewhere", base+".key"))
	case "pub-link":
		put(".elsewhere", 0644, "linked")
		must(os.Symlink(base+".elsewhere", base+".pub"))
	case "key-hardlink":
		put(".elsewhere", 0644, "linked")
		must(os.Link(base+".elsewhere", base+".key"))
	case "key-fifo":
		mkfifo(base + ".key")
	case "neighbours":
		put("", 0644, "same name")
		put(".key.pub", 0644, "x")
		put(".pub.key", 0644, "x")
		put(".ke", 0644, "x")
		put("2.key", 0644, "x")
		put(".KEY", 0644, "x")
	}
}

var genStates = []string{"none", "both", "both-readonly", "key", "pub", "key-empty", "pub-empty", "key-dir", "pub-dir", "both-pub-dir", "both-key-dir", "key-link", "pub-link", "key-hardlink", "key-fifo", "neighbours"}

func runC25(c *Ctx) {
	// successful generation in all its variety
	c.casesN("generate", c.n(22, 300), 6, func(t *T) {
		w := t.Path("w")
		must(os.MkdirAll(w+"/sub/deep", 0755))
		forms := []string{"k", "a.b", "./k", "sub/k", "sub/../k", "sub//deep/k", "abs", "a b", "ключ", "k.key", "k.pub", ".hidden", "UP", "long", "abs-dots", "sub/deep/../k2", "k@host", "%s", "-dash"}
		form := forms[t.idx%len(forms)]
		g := &genReq{prefix: form, nopw: t.R.Intn(3) == 0, umask: pick(t.R, "022", "077", "000", "002", "027")}
		switch form {
		case "abs":
			g.prefix = w + "/k"
		case "long":
			g.prefix = strings.Repeat("n", 200)
		case "abs-dots":
			g.prefix = w + "/sub/./../k"
		case "-dash":
			g.prefix = "./-dash"
		}
		if t.idx%5 == 1 {
			g.setCm = true
			g.comment = pick(t.R, "line one\nline two", "\n", "a: b\n- c\n", "tail\n\n", "\r\nx", " blank ends ", "tab\there")
		} else if t.R.Intn(4) > 0 {
			g.setCm = true
			for {
				g.comment = hostileComments[t.R.Intn(len(hostileComments))]
				if utf8.ValidString(g.comment) && !strings.Contains(g.comment, "\x00") && len(g.comment) < 50000 {
					break
				}
			}
		}
		if !g.nopw {
			g.pw = pick(t.R, "x", "correct horse", "pä$$wörd \t", strings.Repeat("p", 500), "a\nb", "line\n", "\nx", "cr\r", "\xff\xfe", "\"quoted\"", "=", " ", string(hostilePwEnv(t)))
		}
		st := pick(t.R, "none", "none", "neighbours")
		base := g.prefix
		if !filepath.IsAbs(base) {
			base = filepath.Join(w, base)
		}
		base = filepath.Clean(base)
		if form == "long" {
			st = "none"
		}
		genState(t, base, st)
		before := snapshot(w)
		args, env := g.args(t)
		r := t.CLI(Run{Args: args, Env: env, Dir: w, Umask: g.umask})
		if r.Code != 0 {
			t.Failf("generate failed: %v", r)
		}
		rel, _ := filepath.Rel(w, base)
		if d := snapDiff(before, snapshot(w), rel+".key", rel+".pub"); len(d) > 0 {
			t.Failf("generate changed other files: %v; %v", d, r)
		}
		k := g.judge(t, base, r, t.R.Intn(8) == 0)
		// use the pair with the commands
		if t.idx%4 == 0 && !strings.Contains(base, "@") {
			t.write("w/data", []byte("some data"), 0644)
			x := t.OK(Run{Args: []string{"encrypt", base + ".pub", "data"}, Dir: w})
			o, err := refOpen(x.Out, k, nil)
			if err != nil || string(o.PT) != "some data" {
				t.Failf("encryption for the generated key: %v", err)
			}
			sa := []string{"sign", "-o", "-", "--no-password", base + ".key", "data"}
			if !g.nopw {
				sa = []string{"sign", "-o", "-", "-E", strings.SplitN(env[0], "=", 2)[0], base + ".key", "data"}
			}
			x = t.OK(Run{Args: sa, Dir: w, Env: env})
			t.write("w/sig", x.Out, 0644)
			t.OK(Run{Args: []string{"verify", base + ".pub", "sig", "data"}, Dir: w})
			t.Count("pairs_used", 1)
		}
		t.Count("pairs", 1)
		t.Seen("%s/%v/%s/%s/%v", form, g.nopw, g.umask, st, g.setCm)
		t.Sample(map[string]any{"command": clip(r.Cmd, 300), "previous": st})
	})

	// something is there and overwriting was not asked for
	c.Cases("exists", (len(genStates)-2)*c.n(12, 200), func(t *T) {
		var kinds []string
		for _, k := range genStates {
			if k != "none" && k != "neighbours" {
				kinds = append(kinds, k)
			}
		}
		kind := kinds[t.idx%len(kinds)]
		w := t.Path("w")
		must(os.MkdirAll(w+"/sub", 0755))
		base := filepath.Join(w, pick(t.R, "k", "sub/k", "a.b"))
		genState(t, base, kind)
		rel, _ := filepath.Rel(w, base)
		g := &genReq{prefix: pick(t.R, base, rel, "./"+rel, "sub/../"+rel, w+"/sub/.././"+rel), nopw: true}
		before := snapshot(w)
		args, env := g.args(t)
		r := t.CLI(Run{Args: args, Env: env, Dir: w})
		if r.Code == 0 {
			t.Failf("generate succeeded although a file was there (%s): %v", kind, r)
		}
		if d := snapDiff(before, snapshot(w)); len(d) > 0 {
			t.Failf("generate refused (%s) but changed files: %v; %v", kind, d, r)
		}
		t.Count("refusals", 1)
		t.Seen("%s/%s", kind, rel)
	})

	// overwriting replaces both or, if impossible, neither
	c.casesN("overwrite", (len(genStates)-1)*c.n(1, 12), 6, func(t *T) {
		kind := genStates[1+t.idx%(len(genStates)-1)]
		w := t.Path("w")
		must(os.MkdirAll(w, 0755))
		base := filepath.Join(w, "k")
		genState(t, base, kind)
		g := &genReq{prefix: "k", nopw: true, force: true, comment: "new", setCm: true, umask: "022"}
		before := snapshot(w)
		args, env := g.args(t)
		r := t.CLI(Run{Args: args, Env: env, Dir: w, Umask: g.umask})
		if r.Code != 0 {
			if !strings.HasSuffix(kind, "-dir") && kind != "key-fifo" && !strings.HasSuffix(kind, "-link") {
				t.Failf("generate --overwrite failed (%s): %v", kind, r)
			}
			if d := snapDiff(before, snapshot(w)); len(d) > 0 {
				t.Failf("generate --overwrite failed (%s) but changed files: %v; %v", kind, d, r)
			}
		} else {
			g.judge(t, base, r, false)
			if d := snapDiff(before, snapshot(w), "k.key", "k.pub"); len(d) > 0 {
				t.Failf("generate --overwrite (%s) changed other files: %v; %v", kind, d, r)
			}
			for _, ext := range []string{".key", ".pub"} {
				if b, err := os.ReadFile(base + ext); err != nil || bytes.HasPrefix(b, []byte("old")) {
					t.Failf("generate --overwrite (%s) did not replace %s: %v", kind, ext, r)
				}
			}
		}
		t.Count("overwrites", 1)
		t.Seen("%s/%d", kind, r.Code)
	})

	// it can't work: nothing may appear
	ways := []string{"no-dir", "file-as-dir", "no-args", "too-long", "prefix-dir-unwritable", "bad-option", "fsize"}
	c.casesN("impossible", len(ways)*c.n(2, 10), 6, func(t *T) {
		way := ways[t.idx%len(ways)]
		w := t.Path("w")
		must(os.MkdirAll(w, 0755))
		t.write("w/file", []byte("x"), 0644)
		g := &genReq{prefix: "k", nopw: true, force: t.R.Intn(2) == 0}
		run := Run{Dir: w}
		switch way {
		case "no-dir":
			g.prefix = "nodir/k"
		case "file-as-dir":
			g.prefix = "file/k"
		case "too-long":
			g.prefix = strings.Repeat("n", 252)
		case "prefix-dir-unwritable":
			g.prefix = "/proc/self/k"
		case "fsize":
			run.FSize = 0
			run.Wrap = []string{"/bin/bash", "-c", "trap '' XFSZ; ulimit -f 0; exec \"$0\" \"$@\""}
		}
		var args []string
		args, run.Env = g.args(t)
		run.Args = args
		switch way {
		case "no-args":
			run.Args = []string{"generate", "--no-password"}
		case "bad-option":
			run.Args = []string{"generate", "--no-such", "--no-password", "k"}
		}
		before := snapshot(w)
		r := t.CLI(run)
		if r.Code == 0 {
			t.Failf("generate succeeded although it can't (%s): %v", way, r)
		}
		if d := snapDiff(before, snapshot(w)); len(d) > 0 {
			t.Failf("generate failed (%s) but changed files: %v; %v", way, d, r)
		}
		t.Seen("%s/%v", way, g.force)
	})

	// failing system calls: both new files or none of them
	if straceOK() {
		fs := []string{"write:error=ENOSPC:when=1", "write:error=ENOSPC:when=2", "fsync:error=EIO:when=1", "fsync:error=EIO:when=2", "renameat:error=EIO:when=1", "renameat:error=EIO:when=2", "renameat:error=EIO:when=2+", "close:error=EIO"}
		c.casesN("faults", len(fs)*c.n(1, 6), 6, func(t *T) {
			f := fs[t.idx%len(fs)]
			w := t.Path("w")
			must(os.MkdirAll(w, 0755))
			g := &genReq{prefix: "k", nopw: true}
			args, env := g.args(t)
			r := t.CLI(Run{Args: args, Env: env, Dir: w, Wrap: inject(f)})
			t.Set("fault", f)
			if r.Code == 0 {
				g.judge(t, w+"/k", r, false)
			} else if d := snapDiff(nil, snapshot(w)); len(d) > 0 {
				t.Failf("generate failed (%s) but left %v: %v", f, d, r)
			}
			t.Count("faults", 1)
			t.Seen("%s/%d", f, r.Code)
		})
	}
}
