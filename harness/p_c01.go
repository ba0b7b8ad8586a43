package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"os"
	"syscall"
	"time"

	"github.com/opencoff/sigtool/sign"
)

// C01: signatures verify for exactly the signed content
func init() {
	register("C01", &Prop{MinEval: 300,
		Rule: "messages and files of 0 bytes to 1 GiB + (sizes around powers of two), regular files, symbolic links, pipes, /dev/stdin and /proc files; every bit of the signature, other keys, single-bit key changes, malleated signatures, and content edits (flip at any position, cut, extend, swap) must fail; the reference implementation must agree about the signed bytes. Distinct: (size, kind of path, kind of edit).",
		Run:  runC01})
}

// other messages that some stage of signing msg might see
func derived(msg []byte) [][]byte {
	p := []byte("sigtool signed message")
	a, b, c := sha512.Sum512(msg), sha256.Sum256(msg), sha512.Sum512(p)
	d := sha512.Sum512(refFileCksum(msg))
	e := sha512.Sum512(signDigest(msg))
	return [][]byte{signDigest(msg), a[:], a[:32], b[:], c[:], d[:], e[:], refFileCksum(msg), signDigest(signDigest(msg)), signDigest(refFileCksum(msg)),
		append(append([]byte(nil), p...), msg...), append(append([]byte(nil), msg...), p...), []byte(hex.EncodeToString(a[:])), []byte(b64(msg) + "=")}
}

func runC01(c *Ctx) {
	c.Cases("messages", c.n(600, 20000), func(t *T) {
		k, other := t.newKey(), t.newKey()
		n := pick(t.R, 0, 1, 31, 32, 63, 64, 65, 127, 128, 129, t.R.Intn(5000))
		msg := patterned(t.R, n)
		orig := append([]byte(nil), msg...)
		sg, err := k.sk.SignMessage(msg, "comment")
		if err != nil {
			t.Failf("signing: %v", err)
		}
		if !bytes.Equal(msg, orig) {
			t.Failf("signing changed the message")
		}
		t.Set("len", n)
		if !k.pk.VerifyMessage(msg, sg) || !k.sk.PublicKey().VerifyMessage(msg, sg) {
			t.Failf("signature of %d bytes does not verify", n)
		}
		if !refVerifyMsg(k.PK, msg, sg.Sig) {
			t.Failf("signature is not over the documented digest")
		}
		if !k.pk.VerifyMessage(msg, &sign.Signature{Sig: refSignMsg(k.SK, msg)}) {
			t.Failf("signature made by the reference implementation refused")
		}
		no := func(what string, pk *sign.PublicKey, m, s []byte) {
			t.Count("rejections", 1)
			t.Seen("%d %s", n, what)
			if pk.VerifyMessage(m, &sign.Signature{Sig: s}) {
				t.Failf("verifies although altered: %s (message of %d bytes)", what, n)
			}
			// a signature object that verified before
			good := sg.Sig
			if t.R.Intn(16) == 0 && !k.pk.VerifyMessage(msg, sg) {
				t.Failf("own signature refused, the second time (message of %d bytes)", n)
			}
			sg.Sig = s
			if pk.VerifyMessage(m, sg) {
				t.Failf("verifies although altered, after it verified once: %s (message of %d bytes)", what, n)
			}
			sg.Sig = good
		}
		no("other key", other.pk, msg, sg.Sig)
		// one bit of the key
		kb := append([]byte(nil), k.PK...)
		kb[t.R.Intn(32)] ^= 1 << t.R.Intn(8)
		if bp, err := sign.MakePublicKey(refPubFile(kb, "")); err == nil {
			no("key bit", bp, msg, sg.Sig)
		}
		for i := 0; i < 512; i++ {
			s := append([]byte(nil), sg.Sig...)
			s[i/8] ^= 1 << (i % 8)
			no(fmt.Sprintf("signature bit %d", i), k.pk, msg, s)
		}
		for _, l := range []int{0, 1, 32, 63} {
			no("signature cut", k.pk, msg, sg.Sig[:l])
		}
		no("signature extended", k.pk, msg, append(append([]byte(nil), sg.Sig...), 0))
		no("zero signature", k.pk, msg, make([]byte, 64))
		// S + L is the same point equation, but another value
		no("malleated signature", k.pk, msg, malleate(sg.Sig))
		for e := 0; e < 12; e++ {
			m := append([]byte(nil), msg...)
			what := ""
			switch e % 6 {
			case 0:
				if n > 0 {
					m[t.R.Intn(n)] ^= 1 << t.R.Intn(8)
				}
				what = "flip"
			case 1:
				if n > 0 {
					m = m[:n-1]
				}
				what = "cut"
			case 2:
				m = append(m, byte(t.R.Intn(2)))
				what = "append"
			case 3:
				m = append([]byte{byte(t.R.Intn(2))}, m...)
				what = "prepend"
			case 4:
				m = nil
				what = "empty"
			case 5:
				if n > 1 {
					m[n-1] ^= 0x80
					m[0] ^= 1
				}
				what = "both ends"
			}
			if !bytes.Equal(m, msg) {
				no("message "+what, k.pk, m, sg.Sig)
			}
		}
		// the domain string is no part of what can be moved
		if d, err := k.sk.SignMessage(append([]byte("sigtool signed message"), msg...), ""); err == nil {
			no("domain prefix", k.pk, msg, d.Sig)
		}
		// nor is the signature one of something that is derived from the message
		for i, m := range derived(msg) {
			no(fmt.Sprintf("derived message %d", i), k.pk, m, sg.Sig)
			if d, err := k.sk.SignMessage(m, ""); err == nil {
				no(fmt.Sprintf("signature of derived message %d", i), k.pk, msg, d.Sig)
			}
			// made with the bare key
			no(fmt.Sprintf("bare signature of derived message %d", i), k.pk, m, ed25519.Sign(ed25519.PrivateKey(k.SK), m))
			if !bytes.Equal(m, signDigest(msg)) {
				no(fmt.Sprintf("bare signature %d", i), k.pk, msg, ed25519.Sign(ed25519.PrivateKey(k.SK), m))
			}
		}
		no("bare signature", k.pk, msg, ed25519.Sign(ed25519.PrivateKey(k.SK), msg))
		t.Sample(map[string]any{"len": n, "sig": fmt.Sprintf("%x", sg.Sig[:8])})
	})

	sizes := []int{0, 1, 2, 511, 512, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 100000, 1<<20 - 1, 1 << 20, 1<<20 + 1, 4<<20 + 1, 16<<20 - 1, 16 << 20, 33<<20 + 7}
	c.Cases("files", len(sizes)*c.n(4, 40), func(t *T) {
		k := t.newKey()
		n := sizes[t.idx%len(sizes)]
		if t.idx >= len(sizes)*2 && n < 1<<20 {
			n = t.R.Intn(n + 5000)
		}
		content := patterned(t.R, n)
		fn := t.write("f", content, 0644)
		t.Set("size", n)
		sg, err := k.sk.SignFile(fn)
		if err != nil {
			t.Failf("signing a file of %d bytes: %v", n, err)
		}
		if !refVerifyMsg(k.PK, refFileCksum(content), sg.Sig) {
			t.Failf("file of %d bytes: the signature is not over its complete content", n)
		}
		verify := func(kind, fn string, want bool) {
			ok, err := k.pk.VerifyFile(fn, sg)
			if err != nil {
				t.Failf("verifying %s of %d bytes: %v", kind, n, err)
			}
			if ok != want {
				t.Failf("verifying %s: %v (file of %d bytes)", kind, ok, n)
			}
			t.Count("file_verifications", 1)
			t.Seen("%d %s", n, kind)
		}
		verify("the file", fn, true)
		must(os.Symlink("f", t.Path("link")))
		verify("a symbolic link", t.Path("link"), true)
		must(os.Link(fn, t.Path("hard")))
		verify("a hard link", t.Path("hard"), true)
		// the same path, after its content was changed in place, and after
		// another file took its place; sizes and time stamps stay the same
		if n > 0 && n <= 1<<20 {
			old := time.Now().Add(-time.Hour).Truncate(time.Second)
			must(os.Chtimes(fn, old, old))
			verify("the file with an older time stamp", fn, true)
			b := append([]byte(nil), content...)
			b[t.R.Intn(n)] ^= 1 << t.R.Intn(8)
			for _, replace := range []bool{false, true} {
				put := func(b []byte) {
					if replace {
						x := t.write("x", b, 0644)
						must(os.Chtimes(x, old, old))
						must(os.Rename(x, fn))
						return
					}
					f, err := os.OpenFile(fn, os.O_WRONLY, 0)
					must(err)
					_, err = f.Write(b)
					must(err)
					must(f.Close())
					must(os.Chtimes(fn, old, old))
				}
				put(b)
				verify("a file changed since it was verified", fn, false)
				s2, err := k.sk.SignFile(fn)
				if err != nil || !refVerifyMsg(k.PK, refFileCksum(b), s2.Sig) {
					t.Failf("signature of a file changed since it was signed is not over its present content (%v)", err)
				}
				put(content)
				verify("the file changed back", fn, true)
			}
		}
		edit := func(kind string, f func(b []byte) []byte) {
			b := f(append([]byte(nil), content...))
			if bytes.Equal(b, content) {
				return
			}
			t.write("e", b, 0644)
			verify(kind, t.Path("e"), false)
		}
		m := 6
		if n > 1<<20 {
			m = 3
		}
		for i := 0; i < m && n > 0; i++ {
			at := pick(t.R, 0, n-1, n/2, t.R.Intn(n), t.R.Intn(n), (n-1)&^4095, (n-1)&^65535)
			edit(fmt.Sprintf("content with byte %d changed", at), func(b []byte) []byte { b[at] ^= 1 << t.R.Intn(8); return b })
		}
		edit("content with a byte appended", func(b []byte) []byte { return append(b, 0) })
		edit("content with a byte cut", func(b []byte) []byte { return b[:max(0, n-1)] })
		edit("content cut to 0", func(b []byte) []byte { return nil })
		edit("content with its length appended", func(b []byte) []byte { return append(b, be64(n)...) })
		if n > 4096 {
			edit("content with pages swapped", func(b []byte) []byte {
				x := append([]byte(nil), b[:2048]...)
				copy(b, b[2048:4096])
				copy(b[2048:], x)
				return b
			})
			edit("second half only", func(b []byte) []byte { return b[n/2:] })
			edit("first half only", func(b []byte) []byte { return b[:n/2] })
			edit("first page only", func(b []byte) []byte { return b[:4096] })
		}
		// a pipe delivering the same bytes, in pieces
		if n <= 4<<20+1 {
			t.fifo("p", content, func(p string) {
				verify("a pipe", p, true)
			})
			t.fifo("p2", content, func(p string) {
				s2, err := k.sk.SignFile(p)
				if err != nil {
					t.Failf("signing a pipe: %v", err)
				}
				if !refVerifyMsg(k.PK, refFileCksum(content), s2.Sig) {
					t.Failf("pipe with %d bytes: the signature is not over its complete content", n)
				}
			})
			if n > 0 {
				t.fifo("p3", content[:n-1], func(p string) { verify("a pipe one byte short", p, false) })
			}
			t.fifo("p4", nil, func(p string) { verify("an empty pipe", p, n == 0) })
		}
	})

	// files that span several mappings
	big := []int64{1<<30 + 12345}
	if c.thorough() {
		big = append(big, 1<<30-1, 1<<30, 1<<30+1, 2<<30, 2<<30+1, 3<<30+4097)
	}
	c.casesN("big-files", len(big), 2, func(t *T) {
		k := t.newKey()
		fn := t.Path("big")
		n := big[t.idx]
		f, err := os.Create(fn)
		must(err)
		must(f.Truncate(n))
		for _, at := range []int64{0, 1<<30 - 3, 1 << 30, n - 5} {
			if at+5 < n {
				f.WriteAt([]byte{1, 2, 3, 4, 5}, at)
			}
		}
		f.Close()
		sg, err := k.sk.SignFile(fn)
		if err != nil {
			t.Failf("signing a file of %d bytes: %v", n, err)
		}
		if !refVerifyMsg(k.PK, refCksumFile(fn), sg.Sig) {
			t.Failf("file of %d bytes: the signature is not over its complete content", n)
		}
		for _, at := range []int64{n - 1, 1<<30 + 1} {
			if at >= n || (at != n-1 && !c.thorough()) {
				continue
			}
			f, _ := os.OpenFile(fn, os.O_RDWR, 0)
			var b [1]byte
			f.ReadAt(b[:], at)
			b[0] ^= 4
			f.WriteAt(b[:], at)
			ok, err := k.pk.VerifyFile(fn, sg)
			if err != nil || ok {
				t.Failf("file of %d bytes with byte %d changed: %v, %v", n, at, ok, err)
			}
			b[0] ^= 4
			f.WriteAt(b[:], at)
			f.Close()
			t.Count("file_verifications", 1)
		}
		t.Seen("%d", n)
	})

	// what comes through a pipe may be long, too
	c.casesN("long-pipes", c.n(3, 12), 3, func(t *T) {
		k := t.newKey()
		n := int64([]int{33 << 20, 65<<20 + 1, 150 << 20}[t.idx%3]) + int64(t.R.Intn(5000))
		if t.c.thorough() && t.idx > 8 {
			n = 4<<30 + 100
		}
		want := newSHA512()
		io.CopyN(want, newGen(n, 0), n)
		want.Write(be64full(n))
		pipe := func(name string, n int64, f func(path string)) {
			p := t.Path(name)
			mkfifo(p)
			done := make(chan bool)
			go func() {
				defer close(done)
				w, err := os.OpenFile(p, os.O_WRONLY, 0)
				if err != nil {
					return
				}
				defer w.Close()
				io.CopyN(w, newGen(n, 0), n)
			}()
			f(p)
			if r, err := os.OpenFile(p, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
				r.Close() // for a writer nobody listened to
			}
			<-done
			os.Remove(p)
		}
		var sg *sign.Signature
		var err error
		pipe("sign", n, func(p string) { sg, err = k.sk.SignFile(p) })
		if err != nil || !refVerifyMsg(k.PK, want.Sum(nil), sg.Sig) {
			t.Failf("pipe with %d bytes: the signature is not over all that came (%v)", n, err)
		}
		good := &sign.Signature{Sig: refSignMsg(k.SK, want.Sum(nil))}
		for _, m := range []int64{n, n - 1, n + 1} {
			var ok bool
			pipe(fmt.Sprintf("verify%d", m), m, func(p string) { ok, err = k.pk.VerifyFile(p, good) })
			if ok != (m == n) || err != nil {
				t.Failf("signature of %d bytes, pipe with %d bytes: verified %v, %v", n, m, ok, err)
			}
			t.Count("file_verifications", 1)
		}
		t.Seen("pipe %d", n)
	})
	// beyond 4 GiB: sparse, all zeros; two files because each takes long
	c.casesN("huge-files", 2, 2, func(t *T) {
		k := t.loadKey(refKey(newRand(c.Seed, 4321)))
		fn := t.Path("huge")
		sparse(fn, hugeLen)
		if t.idx == 0 {
			sg, err := k.sk.SignFile(fn)
			if err != nil || !refVerifyMsg(k.PK, hugeCksum, sg.Sig) {
				t.Failf("file of %d bytes: the signature is not over its complete content (%v)", int64(hugeLen), err)
			}
		} else {
			f, err := os.OpenFile(fn, os.O_RDWR, 0)
			must(err)
			_, err = f.WriteAt([]byte{1}, hugeLen-1-int64(t.R.Intn(3)))
			must(err)
			f.Close()
			ok, err := k.pk.VerifyFile(fn, &sign.Signature{Sig: refSignMsg(k.SK, hugeCksum)})
			if err != nil || ok {
				t.Failf("file of %d bytes with a byte beyond 4 GiB changed: %v, %v", int64(hugeLen), ok, err)
			}
		}
		os.Remove(fn)
		t.Count("file_verifications", 1)
		t.Seen("huge %d", t.idx)
	})

	c.casesN("cli", c.n(12, 150), 8, func(t *T) {
		k := refKey(t.R)
		sk, pk := t.writeKey("k", k, "pw", "c")
		n := pick(t.R, 0, 1, t.R.Intn(3000), 70000)
		content := patterned(t.R, n)
		fn := t.write("data", content, 0644)
		t.OK(Run{Args: []string{"sign", "-E", "PW", sk, fn}, Env: []string{"PW=pw"}})
		sg, _, _, err := refReadSig(mustRead(fn + ".sig"))
		if err != nil || !refVerifyMsg(k.PK, refFileCksum(content), sg) {
			t.Failf("sign command: signature not over the file's content (%v)", err)
		}
		t.OK(Run{Args: []string{"verify", pk, fn + ".sig", fn}})
		// through standard input and a pipe
		t.OK(Run{Args: []string{"verify", pk, fn + ".sig", "/dev/stdin"}, In: content})
		x := t.OK(Run{Args: []string{"sign", "-E", "PW", "-o", "-", sk, "/dev/stdin"}, Env: []string{"PW=pw"}, In: content})
		sg, _, _, err = refReadSig(x.Out)
		if err != nil || !refVerifyMsg(k.PK, refFileCksum(content), sg) {
			t.Failf("sign command: signature of %d bytes of standard input not over them (%v)", n, err)
		}
		t.fifo("pipe", content, func(p string) { t.OK(Run{Args: []string{"verify", pk, fn + ".sig", p}}) })
		bad := append(append([]byte(nil), content...), 'x')
		if n > 0 && t.R.Intn(2) == 0 {
			bad = append([]byte(nil), content...)
			bad[t.R.Intn(n)] ^= 1
		}
		t.write("bad", bad, 0644)
		for what, r := range map[string]Run{
			"altered file":        {Args: []string{"verify", pk, fn + ".sig", t.Path("bad")}},
			"altered file, quiet": {Args: []string{"verify", "-q", pk, fn + ".sig", t.Path("bad")}},
			"altered stdin":       {Args: []string{"verify", pk, fn + ".sig", "/dev/stdin"}, In: bad},
			"missing file":        {Args: []string{"verify", pk, fn + ".sig", t.Path("nosuch")}},
			"directory":           {Args: []string{"verify", pk, fn + ".sig", t.Dir()}},
		} {
			if x := t.CLI(r); x.Code == 0 {
				t.Failf("%s verifies: %v", what, x)
			}
			t.Seen("cli %s %d", what, n)
		}
		t.fifo("pipe2", bad, func(p string) {
			if x := t.CLI(Run{Args: []string{"verify", pk, fn + ".sig", p}}); x.Code == 0 {
				t.Failf("altered pipe verifies: %v", x)
			}
		})
	})
	// files that say they are empty but are not
	c.Cases("proc", 3, func(t *T) {
		k := t.newKey()
		fn := []string{"/proc/version", "/proc/cpuinfo", "/proc/filesystems"}[t.idx]
		a, err := os.ReadFile(fn)
		if err != nil || len(a) == 0 || t.idx == 1 && len(a) == 0 {
			return
		}
		sg, err := k.sk.SignFile(fn)
		if err != nil {
			t.Failf("signing %s: %v", fn, err)
		}
		b, _ := os.ReadFile(fn)
		if !bytes.Equal(a, b) {
			return // it changes
		}
		if !refVerifyMsg(k.PK, refFileCksum(a), sg.Sig) {
			t.Failf("%s (%d bytes): the signature is not over its content", fn, len(a))
		}
		t.Seen("%s", fn)
	})
}

func be64(n int) []byte {
	return []byte{0, 0, 0, 0, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
}

// malleate replaces S by S + L
func malleate(sig []byte) []byte {
	l, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	s := append([]byte(nil), sig...)
	be := make([]byte, 32)
	for i := range be {
		be[i] = s[63-i]
	}
	x := new(big.Int).SetBytes(be)
	x.Add(x, l)
	x.FillBytes(be)
	for i := range be {
		s[63-i] = be[i]
	}
	return s
}

func refCksumFile(fn string) []byte {
	f, err := os.Open(fn)
	must(err)
	defer f.Close()
	h := newSHA512()
	n, err := io.Copy(h, f)
	must(err)
	h.Write(be64full(n))
	return h.Sum(nil)
}

func be64full(n int64) []byte {
	b := make([]byte, 8)
	for i := range b {
		b[7-i] = byte(n >> (8 * i))
	}
	return b
}

// fifo makes a named pipe that delivers content while f runs
func (t *T) fifo(name string, content []byte, f func(path string)) {
	p := t.Path(name)
	must(syscall.Mkfifo(p, 0600))
	done := make(chan struct{})
	go func() {
		defer close(done)
		w, err := os.OpenFile(p, os.O_WRONLY, 0)
		if err != nil {
			return
		}
		defer w.Close()
		for b := content; len(b) > 0; {
			n := min(len(b), 30000)
			if _, err := w.Write(b[:n]); err != nil {
				return
			}
			b = b[n:]
		}
	}()
	defer func() {
		// unblock a writer nobody listens to
		for {
			select {
			case <-done:
				os.Remove(p)
				return
			default:
				if r, err := os.OpenFile(p, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
					select {
					case <-done:
					default:
						buf := make([]byte, 65536)
						r.Read(buf)
					}
					r.Close()
				}
			}
		}
	}()
	f(p)
}

var _ = ed25519.PublicKeySize

const oNonblock = syscall.O_NONBLOCK

func mkfifo(p string) { must(syscall.Mkfifo(p, 0600)) }

// a file of hugeLen zeros and its checksum
const hugeLen = 1<<32 + 3

var hugeCksum = unhex("d17edc20e456a71def50c3a4be95d9670ab0effa760f4b86ee6d3dd21f6a1cf32ea21f50a3d98e8f6d067a701c976faa580487f642dcd7d8b362eb466e352388")

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	must(err)
	return b
}

func sparse(fn string, n int64) {
	f, err := os.Create(fn)
	must(err)
	must(f.Truncate(n))
	must(f.Close())
}
