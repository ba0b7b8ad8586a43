package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/opencoff/sigtool/sign"
)

// C20: a crash leaves every output old or complete
func init() {
	children["c20-serialize"] = c20Serialize
	register("C20", &Prop{MinEval: 300,
		Rule:   "commands killed by a signal delivered at the N-th occurrence of each system call that touches files (per thread, swept over N), and at each piece of an input that is fed slowly through a pipe; the output path is then judged: unchanged, or complete new content according to the reference implementation; the command is run again afterwards and must succeed. The same for library key and signature files. Concurrent readers poll the output path during overwriting runs and every content they see is judged. Distinct: (command, state of the output, system call, N, outcome).",
		Assume: []string{"a crash is a process kill; the loss of unsynced pages by a machine crash is not simulated"},
		Run:    runC20})
}

// judgeOld decides whether the output is old or complete new content.
func (l *lab) judgeOld(what string, c *labCmd, out string, old []byte, existed bool) string {
	t := l.t
	b, err := os.ReadFile(l.path(out))
	if err != nil {
		if !errors.Is(err, os.ErrNotExist) {
			herr("read %s: %v", out, err)
		}
		if existed {
			t.Failf("%s: the old output %s is gone", what, out)
		}
		return "absent"
	}
	if existed && bytes.Equal(b, old) {
		return "old"
	}
	if err := c.judge(b); err != nil {
		t.Failf("%s: output %s is neither old nor complete (%d bytes): %v", what, out, len(b), err)
	}
	return "new"
}

func runC20(c *Ctx) {
	strace := straceOK()
	if !strace {
		fmt.Fprintln(os.Stderr, "C20: strace is not usable here; kills at system calls are left out")
	}
	sigs := []string{"KILL", "TERM", "INT"}
	calls := []string{"openat", "write", "fsync", "renameat", "close", "read", "fchmod", "newfstatat", "unlinkat", "mmap", "futex", "fcntl", "munmap", "copy_file_range", "ftruncate", "linkat"}
	states := []string{"absent", "file", "big", "hardlink"}
	type kp struct{ ci, st, call, n int }
	var ks []kp
	mx := c.n(7, 30)
	for ci := 0; ci < 5; ci++ {
		for st := range states {
			for call := range calls {
				k := mx
				switch calls[call] {
				case "fsync", "renameat", "unlinkat", "fchmod", "copy_file_range", "ftruncate", "linkat":
					k = 2
				case "write":
					k = 2 * mx
				}
				for n := 1; n <= k; n++ {
					ks = append(ks, kp{ci, st, call, n})
				}
			}
		}
	}
	if strace {
		stride := c.n(3, 1)
		c.Cases("kill-at-syscall", len(ks)/stride, func(t *T) {
			k := ks[t.idx*stride+int(c.Seed)%stride]
			l := t.newLab(4000+t.R.Intn(4000), 900)
			cmd := l.commands()[k.ci]
			out := "out"
			o := out
			if cmd.defOut != "" && t.R.Intn(2) == 0 {
				out, o = cmd.defOut, ""
			}
			st := states[k.st]
			l.outState(st, out)
			var old []byte
			if st != "absent" {
				old = mustRead(l.path(out))
			}
			sig := sigs[t.R.Intn(3)]
			w := inject(fmt.Sprintf("%s:signal=%s:when=%d", calls[k.call], sig, k.n))
			env := []string{fmt.Sprintf("GOMAXPROCS=%d", pick(t.R, 1, 1, 4))}
			r := t.CLI(Run{Args: cmd.with(o, st != "absent"), Dir: l.W, Wrap: w, Env: env})
			what := fmt.Sprintf("%s killed with SIG%s at %s %d", cmd.name, sig, calls[k.call], k.n)
			t.Set("kill", what)
			t.Set("state", st)
			res := l.judgeOld(what, cmd, out, old, st != "absent")
			if r.Sig != 0 {
				t.Count("killed", 1)
			}
			if r.Code == 0 && res != "new" {
				t.Failf("%s: reported success but the output is %s", what, res)
			}
			t.Count("state_"+res, 1)
			// nothing else may have changed, and the command still works
			for _, f := range []string{cmd.in, "rx.pub", "snd.key"} {
				if !exists(l.path(f)) {
					t.Failf("%s: %s is gone", what, f)
				}
			}
			if t.idx%4 == 0 {
				r = t.OK(Run{Args: cmd.with(o, true), Dir: l.W})
				if err := cmd.judge(mustRead(l.path(out))); err != nil {
					t.Failf("%s, then run again: output is wrong: %v; %v", what, err, r)
				}
				t.Count("reruns", 1)
			}
			t.Seen("%s/%s/%s/%d/%s/%v", cmd.name, st, calls[k.call], k.n, res, r.Sig)
			t.Sample(map[string]any{"what": what, "state": st, "left": res})
		})

		// failing system calls: output old or complete, whatever is reported
		c.Cases("faults", c.n(200, 6000), func(t *T) {
			l := t.newLab(4000+t.R.Intn(4000), 900)
			cmd := l.commands()[t.idx%5]
			st := states[t.R.Intn(4)]
			l.outState(st, "out")
			var old []byte
			if st != "absent" {
				old = mustRead(l.path("out"))
			}
			w := []string{randFault(t.R)}
			if t.R.Intn(3) == 0 {
				// a failed rename must not lead to an unsafe way of replacing
				w = []string{"renameat:error=" + pick(t.R, "EXDEV", "EACCES", "EPERM", "EBUSY", "EEXIST", "EIO", "ENOSPC"),
					fmt.Sprintf("%s:signal=KILL:when=%d", pick(t.R, "write", "write", "openat", "copy_file_range", "fsync", "close"), 1+t.R.Intn(24))}
			} else if t.R.Intn(3) == 0 {
				w = append(w, fmt.Sprintf("%s:signal=KILL:when=%d", pick(t.R, "unlinkat", "close", "renameat", "munmap", "fsync"), 1+t.R.Intn(3)))
			}
			r := t.CLI(Run{Args: cmd.with("out", st != "absent"), Dir: l.W, Wrap: inject(w...)})
			t.Set("fault", w)
			res := l.judgeOld(fmt.Sprintf("%s with %v", cmd.name, w), cmd, "out", old, st != "absent")
			if r.Code == 0 && res != "new" {
				t.Failf("%s with %v: reported success but the output is %s", cmd.name, w, res)
			}
			t.Count("state_"+res, 1)
			t.Seen("%s/%s/%v/%d/%s", cmd.name, st, w, r.Code, res)
		})

		// every single failing call of the ones that come before the output
		sweep := []string{"openat", "read", "fstat", "newfstatat", "mmap", "getrandom", "fchmod", "fcntl", "munmap", "lseek"}
		type fp struct {
			ci, n int
			call  string
		}
		var fs []fp
		for ci := 0; ci < 5; ci++ {
			for _, call := range sweep {
				for n := 1; n <= 14; n++ {
					if n <= 4 || call == "openat" || call == "read" {
						fs = append(fs, fp{ci, n, call})
					}
				}
			}
		}
		fst := c.n(2, 1)
		c.Cases("faults-swept", len(fs)/fst, func(t *T) {
			k := fs[t.idx*fst+int(c.Seed)%fst]
			l := t.newLab(4000+t.R.Intn(4000), 900)
			cmd := l.commands()[k.ci]
			st := states[t.R.Intn(4)]
			l.outState(st, "out")
			var old []byte
			if st != "absent" {
				old = mustRead(l.path("out"))
			}
			w := fmt.Sprintf("%s:error=%s:when=%d", k.call, pick(t.R, "EIO", "ENOMEM", "EACCES"), k.n)
			r := t.CLI(Run{Args: cmd.with("out", st != "absent"), Dir: l.W, Wrap: inject(w), Env: []string{"GOMAXPROCS=1"}})
			t.Set("fault", w)
			res := l.judgeOld(fmt.Sprintf("%s with %v", cmd.name, w), cmd, "out", old, st != "absent")
			if r.Code == 0 && res != "new" {
				t.Failf("%s with %v: reported success but the output is %s", cmd.name, w, res)
			}
			t.Count("state_"+res, 1)
			t.Seen("%s/%s/%v/%d/%s", cmd.name, st, w, r.Code, res)
		})

		// generate: each of the two files
		gk := []string{"write:signal=KILL:when=1", "write:signal=KILL:when=2", "fsync:signal=KILL:when=1", "fsync:signal=KILL:when=2",
			"renameat:signal=KILL:when=1", "renameat:signal=KILL:when=2", "close:signal=KILL:when=6", "close:signal=KILL:when=7", "write:signal=INT:when=3", "exit_group:signal=KILL:when=1"}
		c.casesN("generate-killed", len(gk)*c.n(1, 6), 4, func(t *T) {
			f := gk[t.idx%len(gk)]
			over := t.R.Intn(2) == 0
			oldk := refKey(t.R)
			var okey, opub []byte
			if over {
				okey, opub = quickPriv(t.R, oldk, nil, "old"), refPubFile(oldk.PK, "old")
				t.write("k.key", okey, 0600)
				t.write("k.pub", opub, 0644)
			}
			args := []string{"generate", "--no-password", t.Path("k")}
			if over {
				args = append([]string{"generate", "--overwrite", "--no-password"}, t.Path("k"))
			}
			r := t.CLI(Run{Args: args, Wrap: inject(f)})
			t.Set("kill", f)
			var nk *RefKey
			var npk []byte
			b, err := os.ReadFile(t.Path("k.key"))
			switch {
			case err != nil && over:
				t.Failf("generate killed (%s): old private key gone: %v", f, r)
			case err == nil && !(over && bytes.Equal(b, okey)):
				if nk, _, err = refReadPriv(b, nil); err != nil {
					t.Failf("generate killed (%s): private key file is neither old nor complete (%d bytes): %v", f, len(b), err)
				}
			}
			b, err = os.ReadFile(t.Path("k.pub"))
			switch {
			case err != nil && over:
				t.Failf("generate killed (%s): old public key gone: %v", f, r)
			case err == nil && !(over && bytes.Equal(b, opub)):
				if npk, _, err = refReadPub(b); err != nil || len(npk) != 32 {
					t.Failf("generate killed (%s): public key file is neither old nor complete (%d bytes): %v", f, len(b), err)
				}
			}
			if nk != nil && npk != nil && !bytes.Equal(npk, nk.PK) {
				t.Failf("generate killed (%s): new files do not belong together", f)
			}
			t.Seen("%s/%v/%d/%v/%v", f, over, r.Code, nk != nil, npk != nil)
		})

		// library: key and signature files
		sc := []string{"write", "fsync", "renameat", "close", "openat", "fchmod"}
		kinds := []string{"pub", "sig", "key"}
		c.Cases("serialize-killed", c.n(100, 1000), func(t *T) {
			kind := kinds[t.R.Intn(2)]
			if t.idx%35 == 0 {
				kind = "key"
			}
			call := sc[t.R.Intn(len(sc))]
			n := 1 + t.R.Intn(pick(t.R, 2, 4, 10))
			k := refKey(t.R)
			t.write("sk", quickPriv(t.R, k, nil, ""), 0600)
			data := randBytes(t.R, 100)
			t.write("in", data, 0644)
			state := pick(t.R, "absent", "absent", "file", "big")
			ow := fmt.Sprint(state != "absent" || t.R.Intn(2) == 0)
			out := t.Path("out")
			old := map[string][]byte{"file": []byte("an older file\n"), "big": bytes.Repeat([]byte("old data "), 9000)}[state]
			if old != nil {
				t.write("out", old, 0644)
			}
			r := t.child("c20-serialize", Run{Args: []string{kind, t.Path("sk"), t.Path("in"), out, ow}, Wrap: inject(fmt.Sprintf("%s:signal=KILL:when=%d", call, n))})
			what := fmt.Sprintf("process that writes a %s killed at %s %d", kind, call, n)
			t.Set("kill", what)
			b, err := os.ReadFile(out)
			res := "new"
			switch {
			case err != nil && old != nil:
				t.Failf("%s: the old file is gone", what)
			case err != nil:
				res = "absent"
			case old != nil && bytes.Equal(b, old):
				res = "old"
			default:
				if err := c20Judge(kind, b, k, data); err != nil {
					t.Failf("%s: file is neither old nor complete (%d bytes): %v", what, len(b), err)
				}
			}
			t.Count("state_"+res, 1)
			t.Seen("%s/%s/%s/%s/%d/%s/%v", kind, state, ow, call, n, res, r.Sig)
		})
	}

	// commands that fail in ordinary ways, also ones that find out late
	c.Cases("failing", c.n(80, 1000), func(t *T) {
		l := t.newLab(4000+t.R.Intn(4000), 900)
		cmd := l.commands()[t.idx%5]
		st := states[1+t.R.Intn(3)]
		if t.R.Intn(4) == 0 {
			st = "absent"
		}
		l.outState(st, "out")
		var old []byte
		if st != "absent" {
			old = mustRead(l.path("out"))
		}
		way := []string{"input", "key", "passphrase", "damage", "truncate"}[t.idx/5%5]
		args := cmd.with("out", true)
		switch way {
		case "input":
			must(os.Mkdir(l.path("adir"), 0755))
			args = replaceArg(args, cmd.in, pick(t.R, "nosuchfile", "adir"))
		case "key":
			for _, k := range []string{"rx.key", "snd.key", "rx.pub"} {
				args = replaceArg(args, k, pick(t.R, "nosuchkey", "in.enc", "/dev/null"))
			}
		case "passphrase":
			l.put("rx.key", quickPriv(t.R, l.rx, []byte("pass"), ""), 0600)
			l.put("snd.key", quickPriv(t.R, l.snd, []byte("pass"), ""), 0600)
		case "damage", "truncate":
			b := append([]byte(nil), mustRead(l.path(cmd.in))...)
			if way == "damage" {
				b[t.R.Intn(len(b))] ^= 1 << t.R.Intn(8)
			} else {
				b = b[:t.R.Intn(len(b))]
			}
			if cmd.in != "in" {
				l.put(cmd.in, b, 0644)
			} else {
				args = replaceArg(args, "rx.pub", "nobody@nowhere")
				args = replaceArg(args, "snd.key", "rx.pub")
			}
		}
		r := t.CLI(Run{Args: args, Dir: l.W})
		what := fmt.Sprintf("%s (%s)", cmd.name, way)
		res := l.judgeOld(what, cmd, "out", old, st != "absent")
		if r.Code == 0 && res != "new" {
			t.Failf("%s: reported success but the output is %s: %v", what, res, r)
		}
		if r.Code != 0 && res == "new" {
			t.Failf("%s: reported failure but put a new output in place: %v", what, r)
		}
		t.Count("state_"+res, 1)
		t.Seen("%s/%s/%s/%d/%s", cmd.name, way, st, r.Code, res)
	})

	// a slow input: the output must not change before it is complete
	c.Cases("slow-input", c.n(60, 1500), func(t *T) {
		blk := pick(t.R, 100, 1000, 65536)
		l := t.newLab(blk*5+t.R.Intn(blk*5), blk)
		cmds := l.commands()
		cmd := cmds[t.idx%4]
		st := states[t.idx/4%4]
		l.outState(st, "out")
		var old []byte
		if st != "absent" {
			old = mustRead(l.path("out"))
		}
		kill := t.R.Intn(2) == 0
		in := mustRead(l.path(cmd.in))
		args := replaceArg(cmd.with("out", st != "absent"), cmd.in, "-")
		pr, pw, err := os.Pipe()
		must(err)
		p := exec.Command(t.c.Bin, args...)
		p.Dir, p.Stdin = l.W, pr
		var se bytes.Buffer
		p.Stderr = &se
		p.Env = []string{"HOME=" + l.W, "PATH=" + os.Getenv("PATH")}
		must(p.Start())
		pr.Close()
		end := len(in)
		if kill {
			end = t.R.Intn(len(in))
		}
		pieces := 0
		for off := 0; off < end; {
			n := min(1+t.R.Intn(blk*2), end-off)
			pw.SetWriteDeadline(time.Now().Add(60 * time.Second))
			if _, err := pw.Write(in[off : off+n]); err != nil {
				p.Process.Kill()
				p.Wait()
				t.Failf("command stopped reading its input: %v; stderr %q", err, se.String())
			}
			off += n
			pieces++
			if off < len(in) {
				if b, err := os.ReadFile(l.path("out")); err == nil && old == nil || err == nil && !bytes.Equal(b, old) || err != nil && old != nil {
					p.Process.Kill()
					p.Wait()
					t.Failf("%s: output path changed when only %d of %d bytes of input were there (%d bytes, %v)", cmd.name, off, len(in), len(b), err)
				}
				t.Count("looks_while_running", 1)
			}
		}
		if kill {
			sig := pick(t.R, syscall.SIGKILL, syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP)
			if t.R.Intn(2) == 0 {
				time.Sleep(2 * time.Millisecond)
			}
			p.Process.Signal(sig)
			hang := time.AfterFunc(120*time.Second, func() { p.Process.Kill() })
			p.Wait()
			hang.Stop()
			pw.Close()
			t.Count("killed", 1)
			res := l.judgeOld(fmt.Sprintf("%s, killed with %v after %d of %d bytes", cmd.name, sig, end, len(in)), cmd, "out", old, st != "absent")
			if res == "new" {
				t.Failf("%s: produced its output before its input ended", cmd.name)
			}
			t.Seen("%s/%s/%d/killed/%v/%s", cmd.name, st, blk, sig, res)
			return
		}
		pw.Close()
		if err := p.Wait(); err != nil {
			t.Failf("%s from a slow pipe failed: %v %q", cmd.name, err, se.String())
		}
		if res := l.judgeOld(cmd.name, cmd, "out", old, st != "absent"); res != "new" {
			t.Failf("%s: succeeded but the output is %s", cmd.name, res)
		}
		t.Seen("%s/%s/%d/%d/done", cmd.name, st, blk, pieces)
	})

	// readers of the output path while it is replaced again and again
	c.casesN("readers", c.n(15, 150), 3, func(t *T) {
		l := t.newLab(300000+t.R.Intn(200000), 700+t.R.Intn(3000))
		cmd := l.commands()[t.idx%5]
		old := bytes.Repeat([]byte("this was here before. "), 5000)
		if t.idx/5%3 != 0 {
			l.put("out", old, 0644)
		} else {
			old = nil
		}
		var w []string
		mayFail := false
		if strace && t.idx/5%3 == 2 {
			w = inject("renameat:error="+pick(t.R, "EXDEV", "EACCES", "EPERM", "EBUSY"), "write:delay_enter=300", "copy_file_range:delay_enter=1000", "openat:delay_exit=300")
			mayFail = true
		} else if strace && t.idx/5%3 == 1 {
			w = inject("write:delay_enter=300", "fsync:delay_exit=2000", "renameat:delay_enter=2000:delay_exit=1000", "openat:delay_exit=300")
		}
		_, looks, seen := l.watch("out", func() {
			for i := 0; i < 6; i++ {
				r := t.CLI(Run{Args: cmd.with("out", true), Dir: l.W, Wrap: w})
				if r.Code != 0 && !mayFail {
					t.Failf("command failed: %v", r)
				}
				if len(w) > 0 {
					break
				}
			}
		}, old != nil)
		news := 0
		for _, b := range seen {
			if old != nil && bytes.Equal(b, old) {
				continue
			}
			if err := cmd.judge(b); err != nil {
				t.Failf("%s: a concurrent reader saw %d bytes that are neither old nor complete: %v", cmd.name, len(b), err)
			}
			news++
		}
		t.Count("looks_while_running", looks)
		t.Count("distinct_contents_seen", len(seen))
		t.Seen("%s/%v/%v/%d", cmd.name, old != nil, w != nil, news)
	})

	// the same for library files
	c.casesN("serialize-readers", c.n(9, 90), 3, func(t *T) {
		k := t.newKey()
		l := &lab{t: t, W: t.Dir()}
		l.mayGo = t.idx%3 == 2
		kind := []string{"pub", "sig"}[t.idx%2]
		// every third: files that are created, not replaced
		fresh := t.idx%3 == 2
		data := randBytes(t.R, 64)
		sig, err := k.sk.SignMessage(refFileCksum(data), "c")
		must(err)
		_, looks, seen := l.watch("out", func() {
			for i := 0; i < 150; i++ {
				comment := fmt.Sprintf("%d %s", i, bytes.Repeat([]byte("x"), t.R.Intn(20000)))
				if fresh {
					os.Remove(t.Path("out"))
				}
				var err error
				if kind == "pub" {
					err = k.pk.Serialize(t.Path("out"), comment, !fresh)
				} else {
					err = sig.Serialize(t.Path("out"), comment, !fresh)
				}
				if err != nil {
					t.Failf("serialising a %s with overwrite failed: %v", kind, err)
				}
			}
		}, false)
		for _, b := range seen {
			if err := c20Judge(kind, b, k.RefKey, data); err != nil {
				t.Failf("a concurrent reader of a %s file saw %d bytes that are no complete file: %v", kind, len(b), err)
			}
		}
		t.Count("looks_while_running", looks)
		t.Count("distinct_contents_seen", len(seen))
		t.Seen("%s/%d", kind, min(len(seen), 20))
	})
}

// watch reads a path in a loop while f runs, and returns every content seen.
func (l *lab) watch(name string, f func(), mustExist bool) (absent, looks int, seen [][]byte) {
	var stop atomic.Bool
	var wg sync.WaitGroup
	var mu sync.Mutex
	m := map[string][]byte{}
	var bad atomic.Pointer[string]
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			there := mustExist
			for !stop.Load() {
				b, err := os.ReadFile(filepath.Join(l.W, name))
				mu.Lock()
				looks++
				if err != nil {
					absent++
					if there && !l.mayGo {
						s := fmt.Sprintf("a concurrent reader found %s missing although it existed before: %v", name, err)
						bad.Store(&s)
					}
				} else {
					there = true
					h := string(sum8(b)) + fmt.Sprint(len(b))
					if m[h] == nil {
						m[h] = b
					}
				}
				mu.Unlock()
				runtime.Gosched()
			}
		}()
	}
	func() {
		defer func() { stop.Store(true); wg.Wait() }()
		f()
	}()
	if s := bad.Load(); s != nil {
		l.t.Failf("%s", *s)
	}
	for _, k := range sortedKeys(m) {
		seen = append(seen, m[k])
	}
	return
}

func c20Judge(kind string, b []byte, k *RefKey, data []byte) error {
	switch kind {
	case "pub":
		pk, _, err := refReadPub(b)
		if err == nil && !bytes.Equal(pk, k.PK) {
			err = fmt.Errorf("wrong key")
		}
		return err
	case "sig":
		sg, h, _, err := refReadSig(b)
		if err == nil && (!bytes.Equal(h, refHash(k.PK)) || !refVerifyMsg(k.PK, refFileCksum(data), sg)) {
			err = fmt.Errorf("signature does not verify")
		}
		return err
	}
	x, _, err := refReadPriv(b, nil)
	if err == nil && !bytes.Equal(x.PK, k.PK) {
		err = fmt.Errorf("wrong key")
	}
	return err
}

// child: KIND KEYFILE DATAFILE OUT OVERWRITE
func c20Serialize(a []string) {
	die := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
	sk, err := sign.ReadPrivateKey(a[1], func() ([]byte, error) { return nil, nil })
	die(err)
	switch a[0] {
	case "pub":
		err = sk.PublicKey().Serialize(a[3], "comment", a[4] == "true")
	case "sig":
		var sg *sign.Signature
		sg, err = sk.SignFile(a[2])
		die(err)
		err = sg.Serialize(a[3], "comment", a[4] == "true")
	case "key":
		err = sk.Serialize(a[3], "comment", a[4] == "true", nil)
	}
	die(err)
}
