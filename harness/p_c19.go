package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// C19: the exit status tells the truth
func init() {
	register("C19", &Prop{MinEval: 300,
		Rule:   "every command with output to files, pipes and devices; status 0 is held against the output (decoded by an independent implementation), any other status against the requirement of a message; full devices, readers that go away, unreadable inputs, failing write, flush, close and rename system calls; tables of legitimate requests that must succeed and of impossible ones that must not. Distinct: (command, circumstance, status).",
		Assume: []string{"status of help and version requests is not judged", "standard output closed from the start is replaced by /dev/null by the Go runtime and not judged"},
		Run:    runC19})
}

// failedProperly demands a status other than 0 and a message.
func (t *T) failedProperly(r *Ran, why string) {
	if r.Code == 0 {
		t.Failf("status 0 although %s: %v", why, r)
	}
	if r.Sig == 0 && len(bytes.TrimSpace(r.Err)) == 0 && len(bytes.TrimSpace(r.Out)) == 0 {
		t.Failf("failed without any message (%s): %v", why, r)
	}
	t.Count("failures_reported", 1)
}

func runC19(c *Ctx) {
	c.Cases("legitimate", c.n(150, 3000), func(t *T) {
		l := t.newLab(pick(t.R, 0, 1, 100, 999, 1000, 1001, 5000, 70000), 1000)
		cmd := l.commands()[t.idx%5]
		mode := (t.idx / 5) % 6
		var out []byte
		var r *Ran
		switch mode {
		case 0: // captured
			r = t.OK(Run{Args: cmd.with("-", false), Dir: l.W})
			out = r.Out
		case 1, 2: // file
			l.outState([]string{"absent", "file"}[mode-1], "out")
			r = t.OK(Run{Args: cmd.with("out", mode == 2), Dir: l.W})
			out = mustRead(l.path("out"))
		case 3: // default
			r = t.OK(Run{Args: cmd.with("", false), Dir: l.W})
			out = r.Out
			if cmd.defOut != "" {
				out = mustRead(l.path(cmd.defOut))
			}
		case 4: // standard output is a file
			f, err := os.Create(l.path("redirected"))
			must(err)
			r = t.OK(Run{Args: cmd.with("-", false), Dir: l.W, Stdout: f})
			f.Close()
			out = mustRead(l.path("redirected"))
		case 5: // input from standard input, where that is possible
			a := cmd.with("out", false)
			in := mustRead(l.path(cmd.in))
			if cmd.name != "sign" {
				a = replaceArg(a, cmd.in, "-")
			}
			r = t.OK(Run{Args: a, Dir: l.W, In: in})
			out = mustRead(l.path("out"))
		}
		if err := cmd.judge(out); err != nil {
			t.Failf("status 0, but the output is not what was asked for: %v; %v", err, r)
		}
		t.Count("outputs_judged", 1)
		t.Seen("%s/%d/%d", cmd.name, mode, len(l.data))
		t.Sample(map[string]any{"cmd": r.Cmd, "mode": mode, "len": len(l.data)})
	})
	c.Cases("verify", c.n(80, 1500), func(t *T) {
		l := t.newLab(t.R.Intn(5000), 100)
		pk, sg, in := "snd.pub", "good.sig", "in"
		want := true
		why := ""
		accepted := t.CLI(Run{Args: []string{"verify", pk, sg, in}, Dir: l.W})
		switch t.idx % 8 {
		case 0, 1, 2:
		case 3:
			pk, want, why = "rx.pub", false, "the key is another one"
		case 4:
			in, want, why = "in.enc", false, "the file is another one"
		case 5:
			l.put("in", append(append([]byte(nil), l.data...), byte(t.R.Intn(256))), 0644)
			want, why = false, "the file was extended"
		case 6:
			s := refSignMsg(l.snd.SK, refFileCksum(l.data))
			s[t.R.Intn(64)] ^= 1 << t.R.Intn(8)
			l.put("good.sig", mustYAML(&yamlSig{"", b64(refHash(l.snd.PK)), b64(s)}), 0644)
			want, why = false, "the signature was altered"
		case 7: // the right signature under the name of another key
			l.put("good.sig", mustYAML(&yamlSig{"", b64(refHash(l.rx.PK)), b64(refSignMsg(l.snd.SK, refFileCksum(l.data)))}), 0644)
			pk, want, why = "rx.pub", false, "the signature is by another key"
		}
		q := t.R.Intn(2) == 0
		args := []string{"verify", pk, sg, in}
		if q {
			args = []string{"verify", pick(t.R, "-q", "--quiet"), pk, sg, in}
		}
		r := t.CLI(Run{Args: args, Dir: l.W})
		if want {
			if r.Code != 0 {
				t.Failf("a good signature is not accepted: %v", r)
			}
			if q && len(r.Out)+len(r.Err) > 0 {
				t.Failf("output in quiet mode: %v", r)
			}
		} else if r.Code == 0 {
			t.Failf("status 0 although %s: %v", why, r)
		} else if !q {
			t.failedProperly(r, why)
			if bytes.Equal(r.Out, accepted.Out) && bytes.Equal(r.Err, accepted.Err) {
				t.Failf("verify says the same as about a good signature although %s: %v", why, r)
			}
		}
		t.Seen("%d/%v/%d", t.idx%8, q, r.Code)
	})

	// outputs that can't be written
	c.Cases("full-device", c.n(40, 400), func(t *T) {
		l := t.newLab(pick(t.R, 1, 100, 4096, 100000), pick(t.R, 100, 1000, 65536))
		cs := l.commands()
		args := cs[t.idx%5].with("-", false)
		if t.idx%6 == 5 {
			args = []string{"verify", "snd.pub", "good.sig", "in"}
		}
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		must(err)
		defer f.Close()
		r := t.CLI(Run{Args: args, Dir: l.W, Stdout: f})
		t.failedProperly(r, "standard output is a full device")
		t.Seen("%s/%d", args[0], len(l.data))
	})
	c.Cases("reader-leaves", c.n(16, 200), func(t *T) {
		l := t.newLab(1<<20, 65536)
		cmd := l.commands()[t.idx%4]
		pr, pw, err := os.Pipe()
		must(err)
		n := pick(t.R, 0, 1, 1000, 200000)
		done := make(chan bool)
		go func() {
			io.CopyN(io.Discard, pr, int64(n))
			pr.Close()
			close(done)
		}()
		r := t.CLI(Run{Args: cmd.with("-", false), Dir: l.W, Stdout: pw})
		pw.Close()
		<-done
		t.failedProperly(r, fmt.Sprintf("the reader of its output left after %d bytes", n))
		t.Seen("%s/%d", cmd.name, n)
	})
	// the same where the signal of the broken pipe is ignored
	c.Cases("reader-leaves-nosignal", c.n(16, 200), func(t *T) {
		l := t.newLab(pick(t.R, 100, 5000, 1<<20), 65536)
		cmd := l.commands()[t.idx%5]
		pr, pw, err := os.Pipe()
		must(err)
		pr.Close()
		if !noReader(pw) {
			t.Inconclusive("the pipe still has a reader")
		}
		r := t.CLI(Run{Args: cmd.with("-", false), Dir: l.W, Stdout: pw, Wrap: []string{"/bin/bash", "-c", `trap '' PIPE; exec "$0" "$@"`}})
		pw.Close()
		t.failedProperly(r, "nobody reads its output")
		t.Seen("%s/%d", cmd.name, len(l.data))
	})
	// every way of ending too early
	c.Cases("truncated", c.n(160, 4000), func(t *T) {
		signed := t.idx%2 == 1
		n := pick(t.R, 0, 1, 100, 250)
		l := t.newLab(n, pick(t.R, 10, 100, 1000))
		cmd := l.commands()[2]
		if signed {
			cmd = l.commands()[3]
		}
		ct := mustRead(l.path(cmd.in))
		h, err := refParseHdr(ct)
		must(err)
		var marks []int // ends of the parts of the file
		marks = append(marks, 0, 1, 11, 12, len(h.Raw)-32, len(h.Raw))
		for o := len(h.Raw); o+4 <= len(ct)-64; {
			m := int(binary.BigEndian.Uint32(ct[o:]) & 0x7fffffff)
			marks = append(marks, o, o+1, o+4, o+5, o+4+m, o+4+m+16)
			o += 4 + m + 16
		}
		marks = append(marks, len(ct)-64, len(ct)-63, len(ct)-32, len(ct)-1)
		cut := pick(t.R, marks...)
		if t.R.Intn(3) == 0 {
			cut = t.R.Intn(len(ct))
		}
		if cut >= len(ct) {
			cut = len(ct) - 1
		}
		l.put(cmd.in, ct[:cut], 0644)
		args := cmd.with(pick(t.R, "", "-", "out"), false)
		if t.R.Intn(3) == 0 {
			args = append([]string{args[0], "-t"}, args[1:]...)
		}
		var in []byte
		if t.R.Intn(3) == 0 {
			args, in = replaceArg(args, cmd.in, "-"), ct[:cut]
		}
		r := t.CLI(Run{Args: args, Dir: l.W, In: in})
		t.Set("cut", fmt.Sprintf("%d of %d, header %d", cut, len(ct), len(h.Raw)))
		t.failedProperly(r, fmt.Sprintf("its input ends after %d of %d bytes", cut, len(ct)))
		if exists(l.path("out")) {
			t.Failf("output from a truncated input (%d of %d bytes): %v", cut, len(ct), r)
		}
		t.Seen("%v/%d/%d", signed, n, cut)
	})
	// A file descriptor that can't be written at all.
	c.Cases("unwritable-stdout", c.n(10, 50), func(t *T) {
		l := t.newLab(1000, 100)
		cmd := l.commands()[t.idx%5]
		f, err := os.Open(l.path("in"))
		must(err)
		defer f.Close()
		r := t.CLI(Run{Args: cmd.with("-", false), Dir: l.W, Stdout: f})
		t.failedProperly(r, "standard output is not writable")
		t.Seen("%s", cmd.name)
	})
	c.Cases("rename-fails", c.n(8, 100), func(t *T) {
		l := t.newLab(2000, 100)
		cmd := l.commands()[t.idx%4]
		fifo := l.path("fifo")
		mkfifo(fifo)
		content := mustRead(l.path(cmd.in))
		done := make(chan *Ran, 1)
		args := replaceArg(cmd.with("out", true), cmd.in, "fifo")
		go func() {
			defer func() { recover(); close(done) }()
			done <- t.CLI(Run{Args: args, Dir: l.W})
		}()
		w, err := openFifoWriter(fifo)
		must(err)
		w.Write(content[:len(content)/2])
		for i := 0; i < 200 && !hasTemp(l.W); i++ {
			time.Sleep(5 * time.Millisecond)
		}
		must(os.Mkdir(l.path("out"), 0755))
		w.Write(content[len(content)/2:])
		w.Close()
		r, ok := <-done
		if !ok {
			t.Inconclusive("command did not run")
		}
		t.failedProperly(r, "its output can't be put in place")
		t.Seen("%s", cmd.name)
	})

	// inputs that can't be read
	c.Cases("unreadable-input", c.n(40, 200), func(t *T) {
		l := t.newLab(1000, 100)
		cs := l.commands()
		in := []string{"/proc/self/mem", "w-dir", "nosuch", "dangling"}[t.idx/6%4]
		must(os.Mkdir(l.path("w-dir"), 0755))
		must(os.Symlink("nowhere", l.path("dangling")))
		var args []string
		if t.idx%6 == 5 {
			args = []string{"verify", "snd.pub", "good.sig", in}
		} else {
			cmd := cs[t.idx%6]
			args = replaceArg(cmd.with("out", false), cmd.in, in)
		}
		r := t.CLI(Run{Args: args, Dir: l.W})
		t.failedProperly(r, "its input "+in+" can't be read")
		if exists(l.path("out")) {
			t.Failf("output in spite of unreadable input %s: %v", in, r)
		}
		t.Seen("%s/%s", args[0], in)
	})

	// requests that can't be fulfilled
	c.Cases("impossible", c.n(2, 10)*len(impossible), func(t *T) {
		x := impossible[t.idx%len(impossible)]
		l := t.newLab(500, 100)
		l.put("locked.key", quickPriv(t.R, l.rx, []byte("pass"), ""), 0600)
		l.put("empty", nil, 0644)
		bad := append([]byte(nil), l.ct...)
		bad[len(bad)-100] ^= 1
		l.put("bad.enc", bad, 0644)
		l.put("cut.enc", l.ct[:len(l.ct)-1], 0644)
		r := t.CLI(Run{Args: strings.Fields(x), Dir: l.W, Env: []string{"PW=wrong"}})
		if f := strings.Fields(x); len(f) > 2 && f[0] == "verify" && (f[1] == "-q" || f[1] == "--quiet") {
			if r.Code == 0 { // a message is not demanded
				t.Failf("status 0 although the request is impossible: %v", r)
			}
			t.Count("failures_reported", 1)
		} else {
			t.failedProperly(r, "the request is impossible")
		}
		t.Seen("%s", x)
	})

	// asking for help or the version
	info := []string{"-v", "--version", "-h", "--help", "help", "HELP", "h", "sign -h", "sign --help", "verify -h", "verify --help", "encrypt -h", "encrypt --help", "decrypt -h", "decrypt --help", "generate -h", "g --help", "--debug --version"}
	c.Cases("information", len(info), func(t *T) {
		r := t.CLI(Run{Args: strings.Fields(info[t.idx]), Dir: t.Path("")})
		if r.Code != 0 || len(bytes.TrimSpace(r.Out)) == 0 {
			t.Failf("no information: %v", r)
		}
		t.Seen("%s", info[t.idx])
	})

	// many things wrong at once
	manyBad := []int{2, 3, 8, 16, 32, 64, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 768, 1000, 1024, 2048}
	c.Cases("many-failures", c.n(1, 20)*len(manyBad), func(t *T) {
		l := t.newLab(500, 100)
		cnt := manyBad[t.idx%len(manyBad)]
		var bad []string
		for i := 0; i < cnt; i++ {
			bad = append(bad, pick(t.R, fmt.Sprintf("nosuch%d.pub", i), fmt.Sprintf("nobody%d@nowhere", i), "in", "w-dir"))
		}
		must(os.Mkdir(l.path("w-dir"), 0755))
		if t.idx%2 == 1 {
			bad = append(bad, "rx.pub")
			t.R.Shuffle(len(bad), func(i, j int) { bad[i], bad[j] = bad[j], bad[i] })
		}
		args := append(append([]string{"encrypt", "-o", pick(t.R, "out", "-")}, bad...), "in")
		r := t.CLI(Run{Args: args, Dir: l.W})
		r.Cmd = clip(r.Cmd, 300)
		t.failedProperly(r, fmt.Sprintf("%d of the recipients can't be resolved", cnt))
		if exists(l.path("out")) || bytes.Contains(r.Out, []byte("SigTool")) {
			t.Failf("output in spite of %d recipients that can't be resolved", cnt)
		}
		t.Seen("many %d/%d", cnt, t.idx%2)
	})
	if !straceOK() {
		return
	}
	c.Cases("faults", c.n(300, 8000), func(t *T) {
		l := t.newLab(pick(t.R, 10, 3000, 6000), 500)
		cmd := l.commands()[t.idx%5]
		f := randFault(t.R)
		r := t.CLI(Run{Args: cmd.with("out", false), Dir: l.W, Wrap: inject(f)})
		t.Set("fault", f)
		t.Count("faults_injected", 1)
		t.Seen("%s/%s/%d", cmd.name, f, r.Code)
		if r.Code == 0 {
			b, err := os.ReadFile(l.path("out"))
			if err == nil {
				err = cmd.judge(b)
			}
			if err != nil {
				t.Failf("status 0 with %s, but the output is not complete: %v; %v", f, err, r)
			}
			t.Count("outputs_judged", 1)
		} else if !strings.HasPrefix(f, "write:") {
			t.failedProperly(r, f)
		}
	})
	// faults that are certain to hit the output
	certain := []string{"fsync:error=EIO", "renameat:error=EIO", "write:error=ENOSPC", "write:error=EIO:when=1", "write:error=ENOSPC:when=2"}
	c.Cases("faults-certain", c.n(25, 500), func(t *T) {
		l := t.newLab(3000, 500)
		cmd := l.commands()[t.idx%5]
		f := certain[t.idx/5%len(certain)]
		r := t.CLI(Run{Args: cmd.with("out", false), Dir: l.W, Wrap: inject(f)})
		t.Set("fault", f)
		if r.Code == 0 {
			b, err := os.ReadFile(l.path("out"))
			if err == nil {
				err = cmd.judge(b)
			}
			if err != nil {
				t.Failf("status 0 with %s, but the output is not complete: %v; %v", f, err, r)
			}
		} else {
			t.Count("failures_reported", 1)
		}
		t.Seen("%s/%s/%d", cmd.name, f, r.Code)
	})
	c.Cases("faults-stdout", c.n(60, 1000), func(t *T) {
		l := t.newLab(pick(t.R, 100, 3000), 500)
		cmd := l.commands()[t.idx%5]
		f := fmt.Sprintf("write:error=%s:when=%d", pick(t.R, "EIO", "ENOSPC"), 1+t.R.Intn(8))
		if t.R.Intn(4) == 0 {
			f = "close:error=EIO"
		}
		o, err := os.Create(l.path("redirected"))
		must(err)
		r := t.CLI(Run{Args: cmd.with("-", false), Dir: l.W, Wrap: inject(f), Stdout: o})
		o.Close()
		t.Set("fault", f)
		if r.Code == 0 {
			if err := cmd.judge(mustRead(l.path("redirected"))); err != nil {
				t.Failf("status 0 with %s, but standard output is not complete: %v; %v", f, err, r)
			}
			t.Count("outputs_judged", 1)
		}
		t.Count("faults_injected", 1)
		t.Seen("%s/%s/%d", cmd.name, f, r.Code)
	})
	gf := []string{"fsync:error=EIO:when=1", "fsync:error=EIO:when=2", "renameat:error=EIO:when=1", "renameat:error=EIO:when=2", "write:error=ENOSPC", "write:error=ENOSPC:when=2"}
	c.casesN("faults-generate", len(gf), 4, func(t *T) {
		r := t.CLI(Run{Args: []string{"generate", "--no-password", t.Path("k")}, Wrap: inject(gf[t.idx])})
		t.Set("fault", gf[t.idx])
		if r.Code == 0 {
			k, _, err := refReadPriv(mustReadOr(t.Path("k.key")), nil)
			if err == nil {
				var pk []byte
				pk, _, err = refReadPub(mustReadOr(t.Path("k.pub")))
				if err == nil && !bytes.Equal(pk, k.PK) {
					err = fmt.Errorf("keys do not belong together")
				}
			}
			if err != nil {
				t.Failf("generate: status 0 with %s, but: %v", gf[t.idx], err)
			}
		}
		t.Seen("%s/%d", gf[t.idx], r.Code)
	})
}

func mustReadOr(fn string) []byte { b, _ := os.ReadFile(fn); return b }

// all of these must fail
var impossible = []string{
	"", "frobnicate", "enc", "sign", "sign --no-password rx.key", "sign --no-password nosuch in", "sign --no-password rx.pub in", "sign --no-password in in",
	"sign --no-password locked.key in", "sign -E PW locked.key in", "sign -E NOSUCHVAR locked.key in", "sign --no-password rx.key nosuch", "sign --no-password -o nodir/x rx.key in",
	"sign --bad rx.key in", "sign --no-password -o good.sig rx.key in",
	"sign --no-password --bad rx.key in", "sign --no-password -o new.sig -Z rx.key in", "verify --bad snd.pub good.sig in", "verify -q -Z snd.pub good.sig in",
	"encrypt -Z rx.pub in", "encrypt -o new --bad=yes rx.pub in", "decrypt --bad --no-password rx.key in.enc", "decrypt --no-password -Z rx.key in.enc", "decrypt -t --bad --no-password rx.key in.enc",
	"generate --bad --no-password x",
	"sign --no-password --bad=1 rx.key in", "sign --no-password rx.key in --bad", "verify --bad=1 snd.pub good.sig in", "verify snd.pub good.sig in --bad", "encrypt --bad=1 rx.pub in", "encrypt rx.pub in --bad",
	"decrypt --no-password --bad=1 rx.key in.enc", "decrypt --no-password rx.key in.enc --bad", "generate --no-password --bad=1 x", "generate --no-password x --bad", "generate --no-password x -Z",
	"verify --quiet=maybe snd.pub good.sig in", "sign --no-password=maybe rx.key in", "encrypt --overwrite=maybe rx.pub in", "encrypt -B", "encrypt rx.pub in -B", "decrypt --no-password rx.key in.enc -o", "sign --no-password rx.key in -o", "generate -Z --no-password x", "--bad sign --no-password rx.key in", "--bad verify snd.pub good.sig in", "-Z decrypt --no-password rx.key in.enc",
	"verify", "verify snd.pub", "verify snd.pub good.sig", "verify nosuch good.sig in", "verify snd.pub nosuch in", "verify snd.pub good.sig nosuch", "verify -q snd.pub good.sig nosuch", "verify -q snd.pub nosuch in", "verify -q nosuch good.sig in", "verify -q snd.pub good.sig .", "verify snd.pub good.sig .", "verify -q snd.pub in in", "verify --quiet snd.pub empty in", "verify -q snd.key good.sig in",
	"verify snd.key good.sig in", "verify snd.pub in in", "verify snd.pub in.enc in", "verify empty good.sig in", "verify snd.pub empty in", "verify AAAA good.sig in",
	"encrypt", "encrypt rx.pub", "encrypt nosuch in", "encrypt rx.pub nosuch", "encrypt rx.key in", "encrypt empty in", "encrypt rx.pub nosuch in", "encrypt in.enc rx.pub in",
	"encrypt nobody@nowhere in", "encrypt -s nosuch --no-password rx.pub in", "encrypt -s locked.key --no-password rx.pub in", "encrypt -E PW -s locked.key rx.pub in",
	"encrypt -s rx.pub --no-password rx.pub in", "encrypt -B x rx.pub in", "encrypt -B 10z rx.pub in", "encrypt -o nodir/x rx.pub in", "encrypt -o good.sig rx.pub in",
	"encrypt -o in --overwrite rx.pub in", "encrypt --bad rx.pub in",
	"decrypt", "decrypt nosuch in.enc", "decrypt --no-password rx.key nosuch", "decrypt --no-password rx.key in", "decrypt --no-password rx.key empty",
	"decrypt --no-password snd.key in.enc", "decrypt --no-password rx.key bad.enc", "decrypt --no-password rx.key cut.enc", "decrypt -t --no-password rx.key bad.enc",
	"decrypt -t --no-password rx.key cut.enc", "decrypt -t --no-password snd.key in.enc", "decrypt --no-password locked.key in.enc", "decrypt -E PW locked.key in.enc",
	"decrypt --no-password -v snd.pub rx.key in.enc", "decrypt --no-password -v rx.pub rx.key sin.enc", "decrypt --no-password -v nosuch rx.key sin.enc", "decrypt --no-password rx.key sin.enc",
	"decrypt --no-password -v in rx.key sin.enc", "decrypt --no-password -v nosuch rx.key in.enc", "decrypt --no-password -v in rx.key in.enc", "decrypt -t --no-password -v empty rx.key in.enc", "decrypt --no-password -v rx.key rx.key in.enc", "decrypt --no-password -o nodir/x rx.key in.enc", "decrypt --no-password -o in rx.key in.enc",
	"decrypt --no-password -o in.enc --overwrite rx.key in.enc", "decrypt --no-password rx.pub in.enc", "decrypt -t --no-password -v rx.pub rx.key sin.enc",
	"generate", "generate --no-password nodir/k", "generate --no-password rx", "generate --bad x",
}

// noReader waits until nobody holds the reading end of a pipe any more: a
// process that is being started elsewhere may have it for a moment.
func noReader(w *os.File) bool {
	for i := 0; i < 2000; i++ {
		p := struct {
			fd              int32
			events, revents int16
		}{fd: int32(w.Fd())}
		syscall.Syscall(syscall.SYS_POLL, uintptr(unsafe.Pointer(&p)), 1, 0)
		if p.revents&8 != 0 { // POLLERR
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}
