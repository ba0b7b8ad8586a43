package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"slices"
	"strings"
	"time"
)

// C28: the commands work end to end
func init() {
	register("C28", &Prop{MinEval: 400,
		Rule: "random mixes of every way to give input (file, dash, redirected and piped standard input), output (file, dash, standard output piped or redirected), keys (native, OpenSSH, with and without passphrase, from the environment, typed at a terminal), block size, sender, command abbreviation, option position; results are judged by the reference implementation, then processed by the opposite command, then altered and processed again: the verdict must be that of the reference implementation, in test mode too, which must write nothing. Distinct: the mix.",
		Run:  runC28})
}

var errNoTTY = errors.New("no terminals here")

// abbr abbreviates a command
func (t *T) abbr(cmd string) string {
	s := cmd[:1+t.R.Intn(len(cmd))]
	switch t.R.Intn(5) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:1]) + s[1:]
	case 2:
		return cmd
	}
	return s
}

// mixer assembles command lines
type mixer struct {
	*lab
	kinds []string
	pw    string   // of all keys
	tty   []string // what to type
	env   []string
}

// a passphrase that can be typed and put in the environment
func somePw(t *T) string {
	return pick(t.R, "open sésame 123", "open sésame 123", " in front", "behind ", "  ", "tab\tinside", "\"quoted\"", "'q'", "$HOME", "%s%d", "#", "-", "--no-password", "x", "back\\slash\\", "a=b", strings.Repeat("long ", 100))
}

// private stores k in some format; opts are needed to open it
func (m *mixer) private(name string, k *RefKey) (file string, opts []string) {
	r := m.t.R
	if m.pw == "" {
		m.pw = somePw(m.t)
	}
	thePw := m.pw
	how := pick(r, "native", "native-pw", "ssh", "ssh-nopt", "ssh-pw", "native-tty", "native-empty-tty", "ssh-tty")
	if strings.HasSuffix(how, "tty") && !ptyOK() {
		how = "native-pw"
	}
	m.kinds = append(m.kinds, how)
	v := pick(r, "PW", "PW", "P", "_q", "my_pass_1")
	env := pick(r, []string{"-E", v}, []string{"--env-password", v}, []string{"--env-password=" + v}, []string{"-E" + v})
	m.env = []string{v + "=" + thePw, "OTHER=x"}
	np := []string{"--no-password"}
	switch how {
	case "native":
		return m.put(name, quickPriv(r, k, nil, "c"), 0600), np
	case "native-pw":
		return m.put(name, quickPriv(r, k, []byte(thePw), "c"), 0600), env
	case "native-tty":
		m.tty = append(m.tty, thePw)
		return m.put(name, quickPriv(r, k, []byte(thePw), "c"), 0600), nil
	case "native-empty-tty":
		m.tty = append(m.tty, "")
		return m.put(name, quickPriv(r, k, nil, "c"), 0600), nil
	case "ssh":
		return m.put(name, pemWrap(newSSHPriv(m.t, k, "c").blob()), 0600), pick(r, np, env)
	case "ssh-nopt":
		return m.put(name, pemWrap(newSSHPriv(m.t, k, "c").blob()), 0600), nil
	case "ssh-tty":
		m.tty = append(m.tty, thePw)
		env = nil
	}
	s := newSSHPriv(m.t, k, "c")
	return m.put(name, pemWrap(s.encrypted([]byte(thePw), randBytes(r, 16), 1+r.Intn(2), pick(r, "aes256-ctr", "aes256-cbc"))), 0600), env
}

func (m *mixer) public(name string, k *RefKey) string {
	if m.t.R.Intn(2) == 0 {
		m.kinds = append(m.kinds, "pub")
		return m.put(name, refPubFile(k.PK, "c"), 0644)
	}
	m.kinds = append(m.kinds, "sshpub")
	return m.put(name, []byte(sshPubLine(k.PK, "a@b")+"\n"), 0644)
}

// exec runs a command: options in any order and position, input and output
// in some way. It returns the output.
func (m *mixer) exec(cmd string, opts [][]string, args []string, in []byte, inName string, dashOK, bareOK bool, outFlags []string) (*Ran, []byte) {
	t := m.t
	r := Run{Dir: m.W, Env: m.env, Home: m.W}
	stdin := false
	if in != nil {
		m.put(inName, in, 0644)
		how := pick(t.R, "file", "file", "abs", "dash", "dash", "bare")
		if len(m.tty) > 0 || !dashOK && how == "dash" || !bareOK && how == "bare" {
			how = "file"
		}
		switch how {
		case "file":
			args = append(args, inName)
		case "abs":
			args = append(args, m.path(inName))
		case "dash":
			args = append(args, "-")
			stdin = true
		case "bare":
			stdin = true
		}
		m.kinds = append(m.kinds, how)
	}
	if stdin {
		if t.R.Intn(2) == 0 {
			f, err := os.Open(m.path(inName))
			must(err)
			defer f.Close()
			if t.R.Intn(3) == 0 { // something before it has been read already
				pre := randBytes(t.R, 1+t.R.Intn(5000))
				f, err = os.Open(t.write("pre-"+inName, append(pre, in...), 0644))
				must(err)
				defer f.Close()
				_, err = f.Seek(int64(len(pre)), io.SeekStart)
				must(err)
				m.kinds = append(m.kinds, "at-offset")
			}
			r.InFile = f
			m.kinds = append(m.kinds, "redirected")
		} else {
			r.In = in
		}
	}
	out := ""
	var outFile *os.File
	if outFlags != nil {
		fl := outFlags[t.R.Intn(len(outFlags))]
		how := pick(t.R, "file", "abs", "dash", "stdout", "stdout-file")
		if cmd == "sign" && strings.HasPrefix(how, "stdout") {
			how = "dash"
		}
		val := ""
		switch how {
		case "file":
			out, val = "out", "out"
		case "abs":
			out, val = "out", m.path("out")
		case "dash":
			val = "-"
		case "stdout-file":
			f, err := os.Create(m.path("stdout"))
			must(err)
			defer f.Close()
			outFile = f
			r.Stdout = f
		}
		os.Remove(m.path("out"))
		if t.R.Intn(3) == 0 {
			opts = append(opts, []string{"--overwrite"})
			testing := slices.ContainsFunc(opts, func(o []string) bool { return o[0] == "-t" || o[0] == "--test" })
			if out != "" && !testing && t.R.Intn(3) > 0 { // something to overwrite
				m.put("out", randBytes(t.R, pick(t.R, 0, 1, 50, 300000)), 0644)
				m.kinds = append(m.kinds, "replace")
			}
		}
		if val != "" {
			switch {
			case fl == "-o" && t.R.Intn(2) == 0:
				opts = append(opts, []string{"-o" + val})
			case strings.HasPrefix(fl, "--") && t.R.Intn(2) == 0:
				opts = append(opts, []string{fl + "=" + val})
			default:
				opts = append(opts, []string{fl, val})
			}
		}
		m.kinds = append(m.kinds, "to-"+how)
	}
	t.R.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	a := []string{t.abbr(cmd)}
	if len(m.tty) == 0 && t.R.Intn(12) == 0 { // more on stderr, nothing else
		a = []string{"--debug", a[0]}
		m.kinds = append(m.kinds, "debug")
	}
	// options may come before, between and after the arguments
	for _, x := range args {
		for len(opts) > 0 && t.R.Intn(2) == 0 {
			a = append(a, opts[0]...)
			opts = opts[1:]
		}
		a = append(a, x)
	}
	for _, o := range opts {
		a = append(a, o...)
	}
	r.Args = a
	var ran *Ran
	if len(m.tty) > 0 {
		ran = t.CLItty(r, m.tty...)
		m.tty = nil
	} else {
		ran = t.CLI(r)
	}
	switch {
	case out != "":
		b, _ := os.ReadFile(m.path(out))
		if len(ran.Out) > 0 && ran.Code == 0 && bytes.Contains(ran.Out, []byte("SigTool")) {
			t.Failf("output went to standard output, too: %v", ran)
		}
		return ran, b
	case outFile != nil:
		return ran, mustRead(m.path("stdout"))
	}
	return ran, ran.Out
}

func runC28(c *Ctx) {
	if !ptyOK() {
		fmt.Fprintln(os.Stderr, "C28: no pseudo terminals here; typed passphrases are left out")
	}
	bss := []struct {
		opt string
		n   uint32
	}{{"", 0}, {"100", 100}, {"1k", 1024}, {"1", 1}, {"64k", 65536}, {"64K", 65536}, {"1M", 1 << 20}, {"4096", 4096}, {"128k", 128 << 10}, {"777", 777}}

	c.Cases("crypt", c.n(500, 15000), func(t *T) {
		bs := bss[t.R.Intn(len(bss))]
		chunk := int(bs.n)
		if chunk == 0 {
			chunk = 128 << 10
		}
		n := 0
		switch t.R.Intn(4) {
		case 0:
			v := boundaryLens(chunk)
			n = v[t.R.Intn(len(v))]
		case 1:
			n = t.R.Intn(3)
		default:
			n = t.R.Intn(min(3*chunk, 300000))
		}
		if chunk == 1 {
			n = min(n, 2000)
		}
		m := &mixer{lab: t.newLab(10, 100)}
		data := patterned(t.R, n)
		// encrypt
		var opts [][]string
		signed := t.R.Intn(2) == 0
		var spk []byte
		if signed {
			f, o := m.private("sender", m.snd)
			opts = append(opts, pick(t.R, []string{"-s", f}, []string{"--sign", f}, []string{"--sign=" + f}))
			if o != nil {
				opts = append(opts, o)
			}
			spk = m.snd.PK
		}
		if bs.opt != "" {
			opts = append(opts, pick(t.R, []string{"-B", bs.opt}, []string{"--block-size", bs.opt}, []string{"-B" + bs.opt}))
		}
		var args []string
		rxs := 1 + t.R.Intn(3)
		if t.idx%50 == 7 {
			rxs = pick(t.R, 40, 65, 130, 257, 400)
		}
		me := t.R.Intn(rxs)
		for i := 0; i < rxs; i++ {
			k := m.rx
			if i != me {
				k = refKey(t.R)
			}
			args = append(args, m.public(fmt.Sprintf("rx%d", i), k))
		}
		r, ct := m.exec("encrypt", opts, args, data, "plain", true, false, []string{"-o", "--outfile"})
		t.Set("mix", m.kinds)
		if r.Code != 0 {
			t.Failf("encrypt failed: %v", r)
		}
		h, err := refParseHdr(ct)
		if err != nil {
			t.Failf("encrypt wrote something unusable (%v): %v; begins %q", err, r, clip(string(ct), 60))
		}
		if bs.n > 0 && h.Chunk != bs.n {
			t.Failf("encrypt -B %s used blocks of %d: %v", bs.opt, h.Chunk, r)
		}
		o, err := refOpen(ct, m.rx, spk)
		if err != nil || o.Signed != signed || !bytes.Equal(o.PT, data) {
			t.Failf("encrypted file does not hold the data (%v): %v", err, r)
		}
		// decrypt, test
		dec := func(file []byte, sender *RefKey, test bool) (*Ran, []byte) {
			f, o := m.private("receiver", m.rx)
			var opts [][]string
			if o != nil {
				opts = append(opts, o)
			}
			if sender != nil {
				p := m.public("sender.pub", sender)
				opts = append(opts, pick(t.R, []string{"-v", p}, []string{"--verify-sender", p}, []string{"--verify-sender=" + p}))
			}
			fl := []string{"-o", "--outfile"}
			if test {
				opts = append(opts, pick(t.R, []string{"-t"}, []string{"--test"}))
			}
			m.put("enc", file, 0644)
			before := snapshot(m.W)
			r, b := m.exec("decrypt", opts, []string{f}, file, "enc", true, true, fl)
			t.Set("mix", m.kinds)
			if test {
				delete(before, "stdout")
				if d := snapDiff(before, snapshot(m.W), "enc", "stdout"); len(d) > 0 {
					for _, x := range d {
						if !strings.HasPrefix(x, "removed out") {
							t.Failf("test-only decryption changed files: %v; %v", d, r)
						}
					}
				}
				if len(b) > 0 && (n > 8 && bytes.Contains(b, data[:min(n, 64)]) || bytes.Contains(b, []byte("SigTool"))) {
					t.Failf("test-only decryption wrote data: %v", r)
				}
			}
			return r, b
		}
		var snd *RefKey
		if signed {
			snd = m.snd
		}
		r, pt := dec(ct, snd, false)
		if r.Code != 0 {
			t.Failf("decrypt failed: %v", r)
		}
		if s := diffBytes(pt, data); s != "" {
			t.Failf("decrypt gave something else: %s; begins %q; %v", s, clip(string(pt), 80), r)
		}
		if r, _ := dec(ct, snd, true); r.Code != 0 {
			t.Failf("test of a good file failed: %v", r)
		}
		// altered
		bad := append([]byte(nil), ct...)
		way := pick(t.R, "flip", "cut", "append", "swap")
		switch way {
		case "flip":
			bad[t.R.Intn(len(bad))] ^= 1 << t.R.Intn(8)
		case "cut":
			bad = bad[:t.R.Intn(len(bad))]
		case "append":
			bad = append(bad, randBytes(t.R, 1+t.R.Intn(40))...)
		case "swap":
			i, j := t.R.Intn(len(bad)), t.R.Intn(len(bad))
			bad[i], bad[j] = bad[j], bad[i]
		}
		_, rerr := refOpen(bad, m.rx, spk)
		if way != "append" { // data after the end is not part of the file
			want := rerr == nil
			r1, pt := dec(bad, snd, false)
			r2, _ := dec(bad, snd, true)
			if (r1.Code == 0) != want {
				t.Failf("altered file (%s): decrypt exits %d, reference says %v: %v", way, r1.Code, rerr, r1)
			}
			if want && !bytes.Equal(pt, data) {
				t.Failf("altered file decrypts to something else: %v", r1)
			}
			if (r2.Code == 0) != (r1.Code == 0) {
				t.Failf("altered file (%s): decrypt exits %d, test mode exits %d: %v", way, r1.Code, r2.Code, r2)
			}
		}
		t.Count("round_trips", 1)
		t.Seen("%v/%s", m.kinds, bs.opt)
		t.Sample(map[string]any{"mix": m.kinds, "bytes": n, "block": bs.opt})
	})

	c.Cases("sign", c.n(400, 12000), func(t *T) {
		m := &mixer{lab: t.newLab(10, 100)}
		data := patterned(t.R, pick(t.R, 0, 1, 4095, 4096, 4097, t.R.Intn(100000)))
		m.put("data", data, 0644)
		f, o := m.private("signer", m.snd)
		var opts [][]string
		if o != nil {
			opts = append(opts, o)
		}
		var r *Ran
		var sg []byte
		if t.R.Intn(3) == 0 { // default output
			if t.R.Intn(3) == 0 {
				m.put("data.sig", randBytes(t.R, t.R.Intn(3)*300), 0644)
				opts = append(opts, []string{"--overwrite"})
			}
			r, _ = m.exec("sign", opts, []string{f, "data"}, nil, "", false, false, nil)
			sg, _ = os.ReadFile(m.path("data.sig"))
			m.kinds = append(m.kinds, "default")
		} else {
			r, sg = m.exec("sign", opts, []string{f, m.pathKind("data")}, nil, "", false, false, []string{"-o", "--output"})
		}
		t.Set("mix", m.kinds)
		if r.Code != 0 {
			t.Failf("sign failed: %v", r)
		}
		x, h, _, err := refReadSig(sg)
		if err != nil || !bytes.Equal(h, refHash(m.snd.PK)) || !refVerifyMsg(m.snd.PK, refFileCksum(data), x) {
			t.Failf("sign made a bad signature (%v): %v; %q", err, r, clip(string(sg), 200))
		}
		key := func(k *RefKey) string {
			switch t.R.Intn(4) {
			case 0:
				return b64(k.PK)
			case 1:
				return b64(sshPubBlob(k.PK))
			}
			return m.public("ver.pub", k)
		}
		verify := func(k *RefKey, sig, data []byte, want bool, what string) {
			m.put("s", sig, 0644)
			m.put("d", data, 0644)
			var opts [][]string
			quiet := t.R.Intn(3) == 0
			if quiet {
				opts = append(opts, pick(t.R, []string{"-q"}, []string{"--quiet"}))
			}
			r, _ := m.exec("verify", opts, []string{key(k), m.pathKind("s"), m.pathKind("d")}, nil, "", false, false, nil)
			if (r.Code == 0) != want {
				t.Failf("verify (%s): %v", what, r)
			}
			if quiet && want && len(r.Out)+len(r.Err) > 0 {
				t.Failf("verify -q is not quiet: %v", r)
			}
		}
		verify(m.snd, sg, data, true, "good signature")
		verify(m.rx, sg, data, false, "wrong key")
		bad := append([]byte(nil), data...)
		if len(bad) == 0 || t.R.Intn(3) == 0 {
			bad = append(bad, byte(t.R.Intn(256)))
		} else if t.R.Intn(2) == 0 {
			bad = bad[:len(bad)-1]
		} else {
			bad[t.R.Intn(len(bad))] ^= 1 << t.R.Intn(8)
		}
		verify(m.snd, sg, bad, false, "altered data")
		other := refSigFile(m.snd, refFileCksum(bad), "")
		verify(m.snd, other, data, false, "signature of other data")
		forged := append([]byte(nil), x...)
		forged[t.R.Intn(64)] ^= 1 << t.R.Intn(8)
		verify(m.snd, []byte(fmt.Sprintf("pkhash: %s\nsignature: %s\n", b64(refHash(m.snd.PK)), b64(forged))), data, false, "altered signature")
		t.Count("signatures", 1)
		t.Seen("%v", m.kinds)
		t.Sample(map[string]any{"mix": m.kinds})
	})

	// inputs that are no plain files
	kinds := []string{"fifo", "fifo-dec", "stdin-path", "stdin-path-dec", "link", "hardlink", "proc", "null", "fd-path", "growing"}
	c.Cases("inputs", len(kinds)*c.n(4, 40), func(t *T) {
		kind := kinds[t.idx%len(kinds)]
		l := t.newLab(pick(t.R, 0, 1, 700, 5000, 65536, 70000, 300000), 1000)
		args := []string{"encrypt", "-B", pick(t.R, "1k", "100", "64k", "1M"), "rx.pub"}
		if t.R.Intn(2) == 0 {
			args = append([]string{"encrypt", "-o", "out"}, args[1:]...)
		}
		want := l.data
		judge := func(r *Ran, want []byte) {
			b := r.Out
			if args[1] == "-o" {
				b, _ = os.ReadFile(l.path("out"))
			}
			o, err := refOpen(b, l.rx, nil)
			if r.Code != 0 || err != nil || !bytes.Equal(o.PT, want) {
				t.Failf("encryption of input of kind %s (%d bytes) is wrong: %v; %v", kind, len(want), err, r)
			}
		}
		enc := func(name string, in []byte) *Ran {
			r := t.CLI(Run{Args: append(args, name), In: in, Dir: l.W})
			t.Count("inputs", 1)
			return r
		}
		dec := []string{"decrypt", "--no-password", "rx.key"}
		t.Set("kind", kind)
		switch kind {
		case "fifo":
			t.fifo("pipe", l.data, func(p string) { judge(enc(p, nil), want) })
		case "fifo-dec":
			t.fifo("pipe", l.ct, func(p string) {
				if r := t.CLI(Run{Args: append(dec, p), Dir: l.W}); r.Code != 0 || !bytes.Equal(r.Out, want) {
					t.Failf("decryption from a named pipe: %s; %v", diffBytes(r.Out, want), r)
				}
			})
		case "stdin-path":
			judge(enc("/dev/stdin", l.data), want)
		case "stdin-path-dec":
			if r := t.CLI(Run{Args: append(dec, "/dev/stdin"), In: l.ct, Dir: l.W}); r.Code != 0 || !bytes.Equal(r.Out, want) {
				t.Failf("decryption from /dev/stdin: %s; %v", diffBytes(r.Out, want), r)
			}
		case "link":
			must(os.Symlink("in", l.path("l1")))
			must(os.Symlink(l.path("l1"), l.path("l2")))
			judge(enc("l2", nil), want)
		case "hardlink":
			must(os.Link(l.path("in"), l.path("h")))
			judge(enc("h", nil), want)
		case "proc": // files that say they are empty but are not
			fn := pick(t.R, "/proc/version", "/proc/filesystems", "/proc/sys/kernel/ostype")
			a, err := os.ReadFile(fn)
			if err != nil || len(a) == 0 {
				return
			}
			r := enc(fn, nil)
			if b, err := os.ReadFile(fn); err != nil || !bytes.Equal(a, b) {
				return
			}
			judge(r, a)
		case "null":
			judge(enc("/dev/null", nil), nil)
		case "fd-path":
			f, err := os.Open(l.path("in"))
			must(err)
			defer f.Close()
			r := t.CLI(Run{Args: append(args, "/proc/self/fd/0"), InFile: f, Dir: l.W})
			judge(r, want)
		case "growing":
			// a log that grows while it is read: at least all that was there
			// when the command began, at most all there is now
			f, err := os.OpenFile(l.path("in"), os.O_WRONLY|os.O_APPEND, 0)
			must(err)
			stop := make(chan bool)
			done := make(chan []byte)
			go func() {
				var more []byte
				for i := 0; i < 2000; i++ {
					select {
					case <-stop:
						i = 2000
					default:
						p := []byte(fmt.Sprintf("line %d\n", i))
						f.Write(p)
						more = append(more, p...)
						time.Sleep(200 * time.Microsecond)
					}
				}
				f.Close()
				done <- more
			}()
			r := enc("in", nil)
			close(stop)
			all := append(append([]byte(nil), l.data...), <-done...)
			b := r.Out
			if args[1] == "-o" {
				b, _ = os.ReadFile(l.path("out"))
			}
			o, err := refOpen(b, l.rx, nil)
			if r.Code != 0 || err != nil || !bytes.HasPrefix(all, o.PT) || len(o.PT) < len(l.data) {
				t.Failf("encryption of a growing file is wrong: %v; %v", err, r)
			}
		}
		t.Seen("%s/%d", kind, len(l.data))
	})

	// commands connected by a pipe, as in a shell
	c.Cases("pipes", c.n(40, 800), func(t *T) {
		l := t.newLab(t.R.Intn(400000), 1000)
		var args []string
		dargs := []string{t.abbr("decrypt"), "--no-password"}
		if t.R.Intn(2) == 0 {
			args = []string{"--no-password", "-s", "snd.key"}
			dargs = append(dargs, "-v", "snd.pub")
		}
		dargs = append(dargs, "rx.key")
		e := exec.Command(t.c.Bin, append(append([]string{t.abbr("encrypt")}, args...), "rx.pub", pick(t.R, "in", "-"))...)
		if e.Args[len(e.Args)-1] == "-" {
			e.Stdin = bytes.NewReader(l.data)
		}
		d := exec.Command(t.c.Bin, dargs...)
		pr, pw, err := os.Pipe()
		must(err)
		var out, se bytes.Buffer
		e.Stdout, d.Stdin, d.Stdout = pw, pr, &out
		e.Stderr, d.Stderr = nil, &se
		e.Dir, d.Dir = l.W, l.W
		e.Env = []string{"HOME=" + l.W, "PATH=" + os.Getenv("PATH")}
		d.Env = e.Env
		must(e.Start())
		must(d.Start())
		pw.Close()
		pr.Close()
		e1, e2 := e.Wait(), d.Wait()
		if e1 != nil || e2 != nil || !bytes.Equal(out.Bytes(), l.data) {
			t.Failf("encrypt | decrypt (%q | %q): %v, %v, %s %q", e.Args[1:], d.Args[1:], e1, e2, diffBytes(out.Bytes(), l.data), se.String())
		}
		t.Count("pipelines", 1)
		t.Seen("%q/%q/%d", args, e.Args[1], len(l.data)/100000)
	})

	// passphrases typed at a terminal
	if ptyOK() {
		c.Cases("typed", c.n(60, 1000), func(t *T) {
			m := &mixer{lab: t.newLab(500, 100)}
			pw := pick(t.R, "simple", "with space", " lead", "trail ", "ünïcödé", "quote\"'`", "$HOME", strings.Repeat("long", 100), "#")
			m.put("k", quickPriv(t.R, m.rx, []byte(pw), ""), 0600)
			m.put("s", quickPriv(t.R, m.snd, []byte(pw), ""), 0600)
			typed := pw
			good := t.R.Intn(3) > 0
			if !good {
				typed = pick(t.R, "", pw+"x", pw[1:], strings.ToUpper(pw)+"!", " "+pw)
			}
			cmd := pick(t.R, "sign", "encrypt", "decrypt", "decrypt-test", "decrypt-file")
			var a []string
			switch cmd {
			case "sign":
				a = []string{"sign", "-o", "-", "s", "in"}
			case "encrypt":
				a = []string{"encrypt", "-s", "s", "rx.pub", "in"}
			case "decrypt":
				a = []string{"decrypt", "k", "in.enc"}
			case "decrypt-test":
				a = []string{"decrypt", "-t", "k", "in.enc"}
			case "decrypt-file":
				a = []string{"decrypt", "-o", "out", "k", "in.enc"}
			}
			r := t.CLItty(Run{Args: a, Dir: m.W, Home: m.W}, typed)
			if (r.Code == 0) != good {
				t.Failf("%s with a typed passphrase (right: %v): %v", cmd, good, r)
			}
			if good {
				var err error
				switch cmd {
				case "sign":
					var sg []byte
					if sg, _, _, err = refReadSig(r.Out); err == nil && !refVerifyMsg(m.snd.PK, refFileCksum(m.data), sg) {
						err = errors.New("does not verify")
					}
				case "encrypt":
					var o *RefOpen
					if o, err = refOpen(r.Out, m.rx, m.snd.PK); err == nil && !bytes.Equal(o.PT, m.data) {
						err = errors.New("other data")
					}
				case "decrypt":
					err = sameErr(r.Out, m.data)
				case "decrypt-file":
					err = sameErr(mustRead(m.path("out")), m.data)
				}
				if err != nil {
					t.Failf("%s with a typed passphrase gives a wrong result: %v; %v", cmd, err, r)
				}
			} else if exists(m.path("out")) {
				t.Failf("%s with a wrong typed passphrase left output", cmd)
			}
			t.Seen("%s/%v/%d", cmd, good, len(pw))
		})
		c.casesN("typed-generate", c.n(4, 40), 4, func(t *T) {
			pw := pick(t.R, "a passphrase", "x", "ü")
			lines := [][]string{{pw, pw}, {"wrong", "mistyped", pw, pw}, {pw, "no", "no", pw}, {pw}}[t.idx%4]
			good := t.idx%4 < 2
			if t.idx%4 == 3 {
				lines = []string{pw, pw + "x", pw, pw + "y"}
			}
			r := t.CLItty(Run{Args: []string{t.abbr("generate"), t.Path("k")}}, lines...)
			if (r.Code == 0) != good {
				t.Failf("generate, typed passphrases %q: %v", lines, r)
			}
			if good {
				if _, _, err := refReadPriv(mustRead(t.Path("k.key")), []byte(pw)); err != nil {
					t.Failf("generated key does not open with the typed passphrase: %v", err)
				}
			} else if exists(t.Path("k.key")) || exists(t.Path("k.pub")) {
				t.Failf("generate failed but left files: %v", r)
			}
			t.Seen("%d", t.idx%4)
		})
	}
}

// pathKind gives another name for the file f of the lab
func (m *mixer) pathKind(f string) string {
	switch k := m.t.R.Intn(8); k {
	case 0, 1:
		n := fmt.Sprintf("%s.l%d", f, m.t.R.Intn(1<<30))
		must(os.Symlink(f, m.path(n)))
		m.kinds = append(m.kinds, "link")
		if k == 1 {
			must(os.Symlink(n, m.path(n+"l")))
			return n + "l"
		}
		return n
	case 2:
		return m.path(f)
	case 3:
		return "./" + f
	case 4:
		n := fmt.Sprintf("%s.h%d", f, m.t.R.Intn(1<<30))
		must(os.Link(m.path(f), m.path(n)))
		return n
	}
	return f
}
