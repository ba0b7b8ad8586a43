package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/opencoff/sigtool/sign"
)

// C22: nothing is left behind in the process or the file system
func init() {
	register("C22", &Prop{MinEval: 300,
		Rule: "every library operation that touches files or contexts, succeeding and failing in every way that can be provoked (missing, directory, empty, pipe, unreadable kinds of file, wrong passphrase, damaged and truncated data, failing source and destination, existing or impossible output), with the garbage collector switched off so that finalizers close nothing; the descriptor table, the file mappings, the goroutines and all directories concerned are compared before and after each operation and after many repetitions. Distinct: (operation, way, outcome).",
		Run:  runC22})
}

type resources struct {
	fds   map[string]string
	maps  map[string]int
	gor   int
	files map[string]bool
}

func takeResources(dirs ...string) *resources {
	r := &resources{fds: map[string]string{}, maps: map[string]int{}, files: map[string]bool{}}
	es, err := os.ReadDir("/proc/self/fd")
	must(err)
	for _, e := range es {
		to, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && !strings.HasPrefix(to, "/proc/") {
			r.fds[e.Name()] = to
		}
	}
	b, err := os.ReadFile("/proc/self/maps")
	must(err)
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.IndexByte(l, '/'); i > 0 {
			r.maps[l[i:]]++
		}
	}
	r.gor = runtime.NumGoroutine()
	for _, d := range dirs {
		filepath.WalkDir(d, func(p string, _ os.DirEntry, err error) error {
			if err == nil && p != d {
				r.files[p] = true
			}
			return nil
		})
	}
	return r
}

// more lists what b holds beyond a; files in allow are expected.
func (a *resources) more(b *resources, allow map[string]bool) []string {
	var v []string
	for fd, to := range b.fds {
		if a.fds[fd] != to {
			v = append(v, fmt.Sprintf("open file %s -> %s", fd, to))
		}
	}
	for p, n := range b.maps {
		if n > a.maps[p] {
			v = append(v, fmt.Sprintf("mapping of %s", p))
		}
	}
	if b.gor > a.gor {
		v = append(v, fmt.Sprintf("%d goroutines", b.gor-a.gor))
	}
	for p := range b.files {
		if !a.files[p] && !allow[p] {
			v = append(v, "file "+p)
		}
	}
	sort.Strings(v)
	return v
}

type leakCase struct {
	name string
	prep func(e *leakEnv) // outside of the measurement
	f    func(e *leakEnv) error
	out  string // file that may appear on success
	ok   bool   // must succeed
	slow bool
}

type leakEnv struct {
	t            *T
	d            string
	k, rx        *Key
	sig, bad     *sign.Signature
	pt, ct, sct  []byte
	blk          int
	src          *os.File
	dst          *os.File
	sy           []byte
	in           func(string) string
	sigf         string
	contentEmpty bool
}

var errNoPw = errors.New("no passphrase")

func (t *T) newLeakEnv() *leakEnv {
	e := &leakEnv{t: t, d: t.Path("files"), k: t.newKey(), rx: t.newKey(), blk: pick(t.R, 64, 1000, 8192)}
	must(os.MkdirAll(e.d, 0755))
	e.in = func(n string) string { return filepath.Join(e.d, n) }
	content := randBytes(t.R, 1+t.R.Intn(20000))
	t.write(e.in("content"), content, 0644)
	t.write(e.in("empty"), nil, 0644)
	must(os.Mkdir(e.in("dir"), 0755))
	t.write(e.in("dir/x"), []byte("x"), 0644)
	must(os.Symlink("dangling-target", e.in("dangling")))
	must(os.Symlink("loop", e.in("loop")))
	ck := refFileCksum(content)
	raw := refSigFile(e.k.RefKey, ck, "")
	t.write(e.in("sig"), raw, 0644)
	t.write(e.in("garbage"), []byte("garbage: [}\n\x00"), 0644)
	t.write(e.in("short"), []byte("comment: x\nsignature: AAAA\n"), 0644)
	t.write(e.in("key"), quickPriv(t.R, e.k.RefKey, []byte("pw"), ""), 0600)
	t.write(e.in("nopw"), quickPriv(t.R, e.k.RefKey, nil, ""), 0600)
	t.write(e.in("pub"), refPubFile(e.k.PK, ""), 0644)
	t.write(e.in("ssh.pub"), []byte(sshPubLine(e.k.PK, "a@b")+"\n"), 0644)
	e.sig, e.bad = &sign.Signature{}, &sign.Signature{}
	must(e.sig.UnmarshalBinary(raw))
	must(e.bad.UnmarshalBinary(refSigFile(e.k.RefKey, []byte("other"), "")))
	e.pt = patterned(t.R, t.R.Intn(6*e.blk))
	f := newRefFile(t.R, uint32(e.blk), nil)
	f.addRx(t.R, e.rx.PK)
	e.ct = f.Encrypt(t.R, e.pt)
	f = newRefFile(t.R, uint32(e.blk), e.k.RefKey)
	f.addRx(t.R, e.rx.PK)
	e.sct = f.Encrypt(t.R, e.pt)
	t.write(e.in("pt"), e.pt, 0644)
	t.write(e.in("ct"), e.ct, 0644)
	return e
}

func pwOf(s string) func() ([]byte, error) { return func() ([]byte, error) { return []byte(s), nil } }

func (e *leakEnv) enc(signed, stream bool, rd io.Reader, wr io.WriteCloser) error {
	var sk *sign.PrivateKey
	if signed {
		sk = e.k.sk
	}
	en, err := sign.NewEncryptor(sk, uint64(e.blk))
	if err != nil {
		return err
	}
	if err := en.AddRecipient(e.rx.pk); err != nil {
		return err
	}
	if !stream {
		return en.Encrypt(rd, wr)
	}
	w, err := en.NewStreamWriter(wr)
	if err != nil {
		return err
	}
	_, err = io.Copy(w, rd)
	if err2 := w.Close(); err == nil {
		err = err2
	}
	return err
}

func (e *leakEnv) dec(sk *sign.PrivateKey, pk *sign.PublicKey, stream bool, rd io.Reader, wr io.Writer, limit int64) error {
	d, err := sign.NewDecryptor(rd)
	if err != nil {
		return err
	}
	if err := d.SetPrivateKey(sk, pk); err != nil {
		return err
	}
	if !stream {
		return d.Decrypt(wr)
	}
	r, err := d.NewStreamReader()
	if err != nil {
		return err
	}
	if limit > 0 {
		_, err = io.CopyN(wr, r, limit)
		if err == io.EOF {
			err = nil
		}
		return err
	}
	_, err = io.Copy(wr, r)
	return err
}

func leakCases() []leakCase {
	var v []leakCase
	add := func(name string, ok bool, f func(e *leakEnv) error) {
		v = append(v, leakCase{name: name, ok: ok, f: f})
	}
	files := []string{"content", "empty", "dir", "missing", "dangling", "loop", "content/x"}
	for _, fn := range files {
		add("sign-file/"+fn, fn == "content" || fn == "empty", func(e *leakEnv) error { _, err := e.k.sk.SignFile(e.in(fn)); return err })
		add("verify-file/"+fn, fn == "content" || fn == "empty", func(e *leakEnv) error { _, err := e.k.pk.VerifyFile(e.in(fn), e.sig); return err })
	}
	for _, fn := range []string{"/dev/null", "/proc/self/status", "/proc/version"} {
		add("sign-file"+fn, true, func(e *leakEnv) error { _, err := e.k.sk.SignFile(fn); return err })
		add("verify-file"+fn, true, func(e *leakEnv) error { _, err := e.k.pk.VerifyFile(fn, e.sig); return err })
	}
	add("verify-file/bad-signature", true, func(e *leakEnv) error { _, err := e.k.pk.VerifyFile(e.in("content"), e.bad); return err })
	add("verify-file/wrong-key", true, func(e *leakEnv) error { _, err := e.rx.pk.VerifyFile(e.in("content"), e.sig); return err })
	add("sign-file/long-name", false, func(e *leakEnv) error {
		_, err := e.k.sk.SignFile(e.in(strings.Repeat("n", 300)))
		return err
	})
	add("sign-file/nul-name", false, func(e *leakEnv) error { _, err := e.k.sk.SignFile(e.in("a\x00b")); return err })
	for _, fn := range []string{"sig", "garbage", "short", "dir", "missing", "empty", "key", "dangling"} {
		add("read-sig/"+fn, fn == "sig", func(e *leakEnv) error { _, err := sign.ReadSignature(e.in(fn)); return err })
		add("read-pub/"+fn, false, func(e *leakEnv) error { _, err := sign.ReadPublicKey(e.in(fn)); return err })
		add("read-priv/"+fn, fn == "key", func(e *leakEnv) error { _, err := sign.ReadPrivateKey(e.in(fn), pwOf("pw")); return err })
	}
	add("read-pub/pub", true, func(e *leakEnv) error { _, err := sign.ReadPublicKey(e.in("pub")); return err })
	add("read-pub/ssh", true, func(e *leakEnv) error { _, err := sign.ReadPublicKey(e.in("ssh.pub")); return err })
	add("read-priv/wrong-passphrase", false, func(e *leakEnv) error { _, err := sign.ReadPrivateKey(e.in("key"), pwOf("no")); return err })
	add("read-priv/asking-fails", false, func(e *leakEnv) error {
		_, err := sign.ReadPrivateKey(e.in("key"), func() ([]byte, error) { return nil, errNoPw })
		return err
	})
	ser := func(name, out string, ok, ovw bool, prep func(e *leakEnv)) {
		o := out
		if !ok {
			o = ""
		}
		v = append(v, leakCase{name: "serialize-pub/" + name, ok: ok, out: o, prep: prep, f: func(e *leakEnv) error { return e.k.pk.Serialize(e.in(out), "c", ovw) }})
		v = append(v, leakCase{name: "serialize-sig/" + name, ok: ok, out: o, prep: prep, f: func(e *leakEnv) error { return e.sig.Serialize(e.in(out), "c", ovw) }})
		v = append(v, leakCase{name: "serialize-priv/" + name, ok: ok, out: o, prep: prep, slow: true, f: func(e *leakEnv) error { return e.k.sk.Serialize(e.in(out), "c", ovw, []byte("x")) }})
	}
	ser("new", "new", true, false, func(e *leakEnv) { os.Remove(e.in("new")) })
	ser("exists", "garbage", false, false, nil)
	ser("overwrite", "over", true, true, func(e *leakEnv) { e.t.write(e.in("over"), []byte("x"), 0644) })
	ser("onto-dir", "dir", false, false, nil)
	ser("onto-dir-overwrite", "dir", false, true, nil)
	ser("no-dir", "nodir/x", false, false, nil)
	ser("no-dir-overwrite", "nodir/x", false, true, nil)
	ser("file-as-dir", "content/x", false, true, nil)
	ser("long-name", strings.Repeat("n", 300), false, true, nil)
	full := func(n int64, f func(e *leakEnv) error) func(e *leakEnv) error {
		return func(e *leakEnv) error {
			var old syscall.Rlimit
			must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
			lim := old
			lim.Cur = uint64(n)
			must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim))
			defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
			return f(e)
		}
	}
	for _, ovw := range []bool{false, true} {
		for _, n := range []int64{0, 1, 50} {
			add(fmt.Sprintf("serialize-pub/disk-full-%d-%v", n, ovw), false, full(n, func(e *leakEnv) error { return e.k.pk.Serialize(e.in("unwritable"), "c", ovw) }))
			add(fmt.Sprintf("serialize-sig/disk-full-%d-%v", n, ovw), false, full(n, func(e *leakEnv) error { return e.sig.Serialize(e.in("unwritable"), "c", ovw) }))
			add(fmt.Sprintf("serialize-pub/disk-full-existing-%d-%v", n, ovw), false, full(n, func(e *leakEnv) error { return e.k.pk.Serialize(e.in("pub"), "c", ovw) }))
		}
		v = append(v, leakCase{name: fmt.Sprintf("serialize-priv/disk-full-%v", ovw), slow: true, f: full(50, func(e *leakEnv) error { return e.k.sk.Serialize(e.in("unwritable"), "c", ovw, []byte("x")) })})
	}
	for _, signed := range []bool{false, true} {
		for _, stream := range []bool{false, true} {
			sx := map[bool]string{false: "bulk", true: "stream"}[stream] + map[bool]string{true: "-signed"}[signed]
			var spk func(e *leakEnv) *sign.PublicKey = func(e *leakEnv) *sign.PublicKey { return nil }
			file := func(e *leakEnv) []byte { return e.ct }
			if signed {
				spk = func(e *leakEnv) *sign.PublicKey { return e.k.pk }
				file = func(e *leakEnv) []byte { return e.sct }
			}
			add("encrypt/"+sx, true, func(e *leakEnv) error { return e.enc(signed, stream, newSrc(e.pt), &Dst{discard: true}) })
			v = append(v, leakCase{name: "encrypt-files/" + sx, ok: true, out: "enc-out", prep: func(e *leakEnv) { os.Remove(e.in("enc-out")) }, f: func(e *leakEnv) error {
				in, err := os.Open(e.in("pt"))
				must(err)
				defer in.Close()
				// closed by the encryption itself
				out, err := os.Create(e.in("enc-out"))
				must(err)
				return e.enc(signed, stream, in, out)
			}})
			add("encrypt-source-fails/"+sx, false, func(e *leakEnv) error {
				s := newSrc(e.pt)
				s.seg = func() int { return 1 + e.blk/2 }
				s.fault, s.faultAtEOF, s.err = 1+e.t.R.Intn(4), true, errInjected
				return e.enc(signed, stream, s, &Dst{discard: true})
			})
			add("encrypt-destination-fails/"+sx, false, func(e *leakEnv) error {
				return e.enc(signed, stream, newSrc(e.pt), &Dst{discard: true, fault: 1 + e.t.R.Intn(2), failForever: true, err: errInjected})
			})
			add("encrypt-close-fails/"+sx, false, func(e *leakEnv) error {
				return e.enc(signed, stream, newSrc(e.pt), &Dst{discard: true, closeErr: errInjected})
			})
			add("decrypt/"+sx, true, func(e *leakEnv) error { return e.dec(e.rx.sk, spk(e), stream, newSrc(file(e)), &Dst{discard: true}, 0) })
			add("decrypt-wrong-key/"+sx, false, func(e *leakEnv) error { return e.dec(e.k.sk, spk(e), stream, newSrc(file(e)), &Dst{discard: true}, 0) })
			add("decrypt-wrong-sender/"+sx, false, func(e *leakEnv) error {
				return e.dec(e.rx.sk, e.rx.pk, stream, newSrc(file(e)), &Dst{discard: true}, 0)
			})
			add("decrypt-truncated/"+sx, false, func(e *leakEnv) error {
				f := file(e)
				return e.dec(e.rx.sk, spk(e), stream, newSrc(f[:e.t.R.Intn(len(f))]), &Dst{discard: true}, 0)
			})
			add("decrypt-damaged/"+sx, false, func(e *leakEnv) error {
				f := append([]byte(nil), file(e)...)
				f[e.t.R.Intn(len(f))] ^= 1 << e.t.R.Intn(8)
				return e.dec(e.rx.sk, spk(e), stream, newSrc(f), &Dst{discard: true}, 0)
			})
			add("decrypt-source-fails/"+sx, false, func(e *leakEnv) error {
				s := newSrc(file(e))
				s.seg = func() int { return 100 }
				s.fault, s.faultAtEOF, s.err = 1+e.t.R.Intn(20), true, errInjected
				return e.dec(e.rx.sk, spk(e), stream, s, &Dst{discard: true}, 0)
			})
			if stream {
				add("decrypt-abandoned/"+sx, true, func(e *leakEnv) error {
					return e.dec(e.rx.sk, spk(e), stream, newSrc(file(e)), &Dst{discard: true}, int64(1+len(e.pt)/2))
				})
			} else {
				add("decrypt-destination-fails/"+sx, false, func(e *leakEnv) error {
					return e.dec(e.rx.sk, spk(e), stream, newSrc(file(e)), &Dst{discard: true, fault: 1, failForever: true, err: errInjected}, 0)
				})
			}
		}
	}
	add("decrypt-file", true, func(e *leakEnv) error {
		in, err := os.Open(e.in("ct"))
		must(err)
		defer in.Close()
		return e.dec(e.rx.sk, nil, false, in, &Dst{discard: true}, 0)
	})
	add("new-key", true, func(e *leakEnv) error {
		sk, err := sign.NewPrivateKey()
		if err == nil {
			sk.ToCurve25519SK()
			sk.PublicKey().ToCurve25519PK()
		}
		return err
	})
	add("authorized-keys", true, func(e *leakEnv) error {
		_, err := sign.ParseAuthorizedKeys(bytes.Repeat([]byte(sshPubLine(e.k.PK, "a@b")+"\nrubbish\n"), 20))
		return err
	})
	add("encryptor-refused", false, func(e *leakEnv) error {
		en, err := sign.NewEncryptor(nil, 100)
		must(err)
		if err = en.Encrypt(newSrc(e.pt), &Dst{}); err != nil {
			return err
		}
		return errors.New("zero recipients")
	})
	return v
}

func runC22(c *Ctx) {
	cs := leakCases()
	compare := func(t *T, e *leakEnv, lc leakCase, before *resources, what string) {
		allow := map[string]bool{}
		if lc.out != "" {
			allow[e.in(lc.out)] = true
		}
		var d []string
		for i := 0; i < 60; i++ {
			if d = before.more(takeResources(t.Dir(), t.c.Scratch), allow); len(d) == 0 {
				return
			}
			time.Sleep(time.Duration(1+i) * time.Millisecond)
		}
		t.Failf("%s leaves behind: %s", what, strings.Join(d, ", "))
	}
	run := func(t *T, lc leakCase, reps int) {
		defer debug.SetGCPercent(debug.SetGCPercent(-1))
		e := t.newLeakEnv()
		// once, for what is set up on first use
		if lc.prep != nil {
			lc.prep(e)
		}
		if !lc.slow {
			lc.f(e)
		}
		start := takeResources(t.Dir(), t.c.Scratch)
		failed := 0
		for i := 0; i < reps; i++ {
			if lc.prep != nil {
				lc.prep(e)
			}
			before := start
			if i < 3 {
				before = takeResources(t.Dir(), t.c.Scratch)
			}
			err := lc.f(e)
			if err != nil {
				failed++
			}
			if lc.ok && err != nil {
				t.Failf("%s failed: %v", lc.name, err)
			}
			if i < 3 {
				compare(t, e, lc, before, fmt.Sprintf("%s (result: %v)", lc.name, err))
				t.Count("inventories", 2)
			}
			t.Count("operations", 1)
		}
		compare(t, e, lc, start, fmt.Sprintf("%s, %d times", lc.name, reps))
		t.Seen("%s/%v", lc.name, failed > 0)
		t.Sample(map[string]any{"operation": lc.name, "repetitions": reps, "failed": failed})
	}
	var quick, slow []leakCase
	for _, lc := range cs {
		if lc.slow {
			slow = append(slow, lc)
		} else {
			quick = append(quick, lc)
		}
	}
	c.Serial("operations", len(quick)*c.n(3, 40), func(t *T) { run(t, quick[t.idx%len(quick)], 20) })
	// storing private keys takes seconds
	c.Serial("private-key-files", len(slow), func(t *T) { run(t, slow[t.idx], c.n(1, 3)) })

	// mixed sequences in one process
	c.Serial("sequences", c.n(20, 400), func(t *T) {
		defer debug.SetGCPercent(debug.SetGCPercent(-1))
		e := t.newLeakEnv()
		out := map[string]bool{}
		for _, lc := range quick {
			if lc.out != "" {
				out[e.in(lc.out)] = true
			}
		}
		start := takeResources(t.Dir(), t.c.Scratch)
		var names []string
		for i := 0; i < 100; i++ {
			lc := quick[t.R.Intn(len(quick))]
			if lc.prep != nil {
				lc.prep(e)
			}
			err := lc.f(e)
			names = append(names, lc.name)
			t.Seen("%s/%v", lc.name, err != nil)
		}
		t.Set("operations", names)
		t.Count("operations", len(names))
		var d []string
		for i := 0; i < 60; i++ {
			if d = start.more(takeResources(t.Dir(), t.c.Scratch), out); len(d) == 0 {
				return
			}
			time.Sleep(time.Duration(1+i) * time.Millisecond)
		}
		t.Failf("a sequence of 100 operations leaves behind: %s", strings.Join(d, ", "))
	})
}
