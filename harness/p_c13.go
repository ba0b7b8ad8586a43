package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"

	"github.com/opencoff/sigtool/sign"
)

// C13: I/O failures are always reported
func init() {
	register("C13", &Prop{Level: "fault_enumeration", MinEval: 300,
		Rule: "for each of many (length, block size, API, segmentation) shapes the number of I/O operations of a fault-free run is measured, then one run per operation fails exactly that operation: source reads (19 kinds of error, with and without data, and instead of the end), destination writes (nothing, part or all accepted, once or for ever), destination close; plus sources that end early and random segmentation on both sides. Distinct: (shape, operation, position, error kind) whose fault actually fired.",
		Run:  runC13})
}

var ioErrors = []error{errInjected, io.ErrUnexpectedEOF, syscall.EIO, syscall.ENOSPC, os.ErrClosed, fmt.Errorf("wrapped: %w", io.EOF),
	io.ErrNoProgress, os.ErrDeadlineExceeded, context.Canceled, syscall.EAGAIN, syscall.EINTR, &net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}, context.DeadlineExceeded, syscall.EPIPE, fmt.Errorf("wrapped: %w", io.ErrClosedPipe), &os.PathError{Op: "read", Path: "x", Err: syscall.EINTR}, io.ErrShortBuffer, errors.New("EOF"), io.ErrShortWrite}

func runC13(c *Ctx) {
	type shape struct {
		n      int
		blk    int
		stream bool
		sender bool
		seg    int
	}
	var shapes []shape
	for _, blk := range []int{8, 64} {
		for _, n := range []int{0, 1, blk - 1, blk, blk + 1, 2 * blk, 3*blk + 2} {
			for k := 0; k < 4; k++ {
				shapes = append(shapes, shape{n, blk, k&1 != 0, k&2 != 0, []int{0, 2}[n%2]})
			}
		}
	}
	shapes = append(shapes, shape{300000, 65536, false, true, 4}, shape{300000, 65536, true, false, 4})
	reps := c.n(1, 12)

	encode := func(t *T, s shape, k *Key, snd *Key, pt []byte, src *Src, d *Dst) error {
		var ssk *sign.PrivateKey
		if snd != nil {
			ssk = snd.sk
		}
		e, err := sign.NewEncryptor(ssk, uint64(s.blk))
		if err != nil {
			t.Failf("%v", err)
		}
		if err := e.AddRecipient(k.pk); err != nil {
			t.Failf("%v", err)
		}
		if !s.stream {
			return e.Encrypt(src, d)
		}
		w, err := e.NewStreamWriter(d)
		if err != nil {
			return err
		}
		var first error
		for b := pt; len(b) > 0; {
			n := len(b)
			if src.seg != nil {
				n = min(n, src.seg())
			}
			m, err := w.Write(b[:n])
			if err != nil {
				first = err
				break
			}
			if m != n {
				t.Failf("Write returned %d of %d without error", m, n)
			}
			b = b[n:]
		}
		err = w.Close()
		if first != nil && err == nil {
			t.Failf("Write failed (%v), but Close reports success", first)
		}
		if first != nil {
			return first
		}
		return err
	}

	c.Cases("encrypt", len(shapes)*reps, func(t *T) {
		s := shapes[t.idx%len(shapes)]
		k := t.newKey()
		var snd *Key
		if s.sender {
			snd = t.newKey()
		}
		pt := patterned(t.R, s.n)
		t.Set("shape", fmt.Sprintf("%+v", s))
		mk := func() (*Src, *Dst) {
			a := newSrc(pt)
			a.seg = segs(t.R, s.seg)
			return a, &Dst{}
		}
		check := func(d *Dst, what string) {
			o, err := refOpen(d.Bytes(), k.RefKey, nil)
			if err != nil {
				t.Failf("%s: success reported, but the output is not a complete file: %v", what, err)
			}
			if x := diffBytes(o.PT, pt); x != "" {
				t.Failf("%s: success reported, but %s", what, x)
			}
			if d.closes != 1 {
				t.Failf("%s: success reported, destination closed %d times", what, d.closes)
			}
		}
		a, d := mk()
		if err := encode(t, s, k, snd, pt, a, d); err != nil {
			t.Failf("fault-free run failed: %v", err)
		}
		check(d, "fault-free run")
		nr, nw := a.reads, d.writes
		t.Count("fault_free", 1)
		run := func(what string, set func(a *Src, d *Dst), fired func(a *Src, d *Dst) bool) {
			a, d := mk()
			set(a, d)
			err := encode(t, s, k, snd, pt, a, d)
			if !fired(a, d) {
				t.Count("fault_not_reached", 1)
				if err != nil {
					t.Failf("%s: failed without a fault: %v", what, err)
				}
				check(d, what)
				return
			}
			t.Count("faults_injected", 1)
			t.Seen("%+v %s", s, what)
			if err == nil {
				t.Failf("%s was not reported (length %d, block size %d, stream %v)", what, s.n, s.blk, s.stream)
			}
		}
		step := 1
		if nr > 60 {
			step = nr / 60
		}
		if !s.stream {
			for i := 1; i <= nr; i += step {
				for ei, e := range ioErrors {
					if step > 1 && ei != i%len(ioErrors) {
						continue
					}
					for _, p := range []int{0, 1, 1 << 20} {
						run(fmt.Sprintf("read %d failing with %q after %d bytes", i, e, p), func(a *Src, d *Dst) { a.fault, a.err, a.partial = i, e, p },
							func(a *Src, d *Dst) bool { return a.fired })
						if p > 0 {
							// the source reports its failure once only, and then goes on, or ends
							run(fmt.Sprintf("read %d failing once with %q after %d bytes", i, e, p), func(a *Src, d *Dst) { a.fault, a.err, a.partial, a.once = i, e, p, true },
								func(a *Src, d *Dst) bool { return a.fired })
							run(fmt.Sprintf("read %d failing once with %q after %d bytes, then ending", i, e, p), func(a *Src, d *Dst) { a.fault, a.err, a.partial, a.once, a.thenEnd = i, e, p, true, true },
								func(a *Src, d *Dst) bool { return a.fired })
						}
					}
				}
			}
			for _, e := range ioErrors {
				run(fmt.Sprintf("%q instead of the end", e), func(a *Src, d *Dst) { a.faultAtEOF, a.err = true, e }, func(a *Src, d *Dst) bool { return a.fired })
			}
		}
		for i := 1; i <= nw; i++ {
			for _, acc := range []int{0, 1, 1 << 20} {
				for ej := 0; ej < 2*len(ioErrors); ej++ {
					e, ev := ioErrors[ej/2], ej%2 == 1
					run(fmt.Sprintf("write %d failing with %q (accepts %d, for ever %v)", i, e, acc, ev),
						func(a *Src, d *Dst) { d.fault, d.err, d.accept, d.failForever = i, e, acc, ev }, func(a *Src, d *Dst) bool { return d.fired })
				}
			}
			run(fmt.Sprintf("write %d failing with EOF", i), func(a *Src, d *Dst) { d.fault, d.err = i, io.EOF }, func(a *Src, d *Dst) bool { return d.fired })
		}
		for _, e := range append([]error{io.EOF}, ioErrors...) {
			run(fmt.Sprintf("close failing with %q", e), func(a *Src, d *Dst) { d.closeErr = e }, func(a *Src, d *Dst) bool { return d.closes > 0 })
		}
	})

	c.Cases("pieces", c.n(300, 8000), func(t *T) {
		k := t.newKey()
		blk := 1 + t.R.Intn(300)
		pt := patterned(t.R, t.R.Intn(4*blk+2))
		s := shape{len(pt), blk, t.R.Intn(2) == 0, false, 0}
		a := newSrc(pt)
		a.seg = segs(t.R, 1+t.R.Intn(4))
		a.eofAt = t.R.Intn(2) == 0
		if t.R.Intn(2) == 0 {
			a.zero = 2 + t.R.Intn(3)
		}
		d := &Dst{}
		if t.R.Intn(2) == 0 {
			d.short = func(n int) int { return 1 + t.R.Intn(n) }
		}
		if err := encode(t, s, k, nil, pt, a, d); err != nil {
			t.Failf("legal source and destination refused: %v", err)
		}
		o, err := refOpen(d.Bytes(), k.RefKey, nil)
		if err != nil {
			t.Failf("output incomplete: %v", err)
		}
		if x := diffBytes(o.PT, pt); x != "" {
			t.Failf("%s", x)
		}
		// and back
		b := newSrc(d.Bytes())
		b.seg = segs(t.R, 1+t.R.Intn(4))
		b.eofAt = t.R.Intn(2) == 0
		if t.R.Intn(2) == 0 {
			b.zero = 2 + t.R.Intn(3)
		}
		de, err := sign.NewDecryptor(b)
		if err != nil {
			t.Failf("pieces: %v", err)
		}
		if err = de.SetPrivateKey(k.sk, nil); err != nil {
			t.Failf("pieces: %v", err)
		}
		out := &Dst{}
		if t.R.Intn(2) == 0 {
			out.short = func(n int) int { return 1 + t.R.Intn(n) }
		}
		if err := de.Decrypt(out); err != nil {
			t.Failf("pieces: %v", err)
		}
		if x := diffBytes(out.Bytes(), pt); x != "" {
			t.Failf("pieces: %s", x)
		}
		t.Seen("pieces %d %d", blk, len(pt))
	})

	c.Cases("decrypt", len(shapes)*reps, func(t *T) {
		s := shapes[t.idx%len(shapes)]
		k := t.newKey()
		var snd *Key
		var spk *sign.PublicKey
		if s.sender {
			snd = t.newKey()
			spk = snd.pk
		}
		pt := patterned(t.R, s.n)
		t.Set("shape", fmt.Sprintf("%+v", s))
		ct := t.encrypt(encOpt{rx: []*Key{k}, sender: snd, blk: uint64(s.blk)}, pt)
		run := func(a *Src, d *Dst) (out []byte, err error) {
			de, err := sign.NewDecryptor(a)
			if err != nil {
				return nil, err
			}
			if err = de.SetPrivateKey(k.sk, spk); err != nil {
				return nil, err
			}
			if !s.stream {
				err = de.Decrypt(d)
				return d.Bytes(), err
			}
			r, err := de.NewStreamReader()
			if err != nil {
				return nil, err
			}
			out, err, breach := readAllSized(r, func() int { return 1 + t.R.Intn(100) }, len(pt)+1)
			if breach != "" {
				t.Failf("%s", breach)
			}
			if err == io.EOF {
				err = nil
			} else {
				// errors stick
				if n, e2 := r.Read(make([]byte, 10)); n > 0 || e2 == nil || e2 == io.EOF {
					t.Failf("after error %v the stream returned %d, %v", err, n, e2)
				}
			}
			return out, err
		}
		mk := func() *Src {
			a := newSrc(ct)
			a.seg = segs(t.R, s.seg)
			return a
		}
		a, d := mk(), &Dst{}
		out, err := run(a, d)
		if err != nil || !bytes.Equal(out, pt) {
			t.Failf("fault-free decryption: %v", err)
		}
		nr, nw := a.reads, d.writes
		try := func(what string, a *Src, d *Dst, fired func() bool) {
			out, err := run(a, d)
			if !bytes.HasPrefix(pt, out) {
				t.Failf("%s: released data that is no prefix", what)
			}
			if !fired() {
				if err != nil || len(out) != len(pt) {
					t.Failf("%s: failed without a fault: %v", what, err)
				}
				t.Count("fault_not_reached", 1)
				return
			}
			t.Count("faults_injected", 1)
			t.Seen("%+v %s", s, what)
			if err == nil {
				t.Failf("%s was not reported: %d of %d bytes (length %d, block size %d, stream %v)", what, len(out), len(pt), s.n, s.blk, s.stream)
			}
		}
		step := 1
		if nr > 80 {
			step = nr / 80
		}
		for i := 1; i <= nr; i += step {
			for ei, e := range append([]error{io.EOF}, ioErrors...) {
				if step > 1 && ei != i%len(ioErrors) {
					continue
				}
				a := mk()
				a.fault, a.err = i, e
				if i%2 == 0 {
					a.partial = 1
				}
				try(fmt.Sprintf("read %d failing with %q", i, e), a, &Dst{}, func() bool { return a.fired && a.off < len(ct) })
			}
		}
		// the end comes early: every length
		st := 1
		if len(ct) > 3000 {
			st = len(ct) / 1500
		}
		for i := 0; i < len(ct); i += st {
			a := newSrc(ct[:i])
			a.eofAt = i%2 == 0
			try(fmt.Sprintf("source ending after %d of %d bytes", i, len(ct)), a, &Dst{}, func() bool { return true })
		}
		if !s.stream {
			for i := 1; i <= nw; i++ {
				for _, acc := range []int{0, 1, 1 << 20} {
					for _, e := range append([]error{io.EOF}, ioErrors...) {
						d := &Dst{fault: i, err: e, accept: acc, failForever: acc == 0}
						try(fmt.Sprintf("write %d failing with %q (accepts %d)", i, e, acc), mk(), d, func() bool { return d.fired })
					}
				}
			}
		}
		t.Sample(map[string]any{"shape": fmt.Sprintf("%+v", s), "reads": nr, "writes": nw})
	})

	// signing and verifying files that can't be read
	c.Cases("sign", 20, func(t *T) {
		k := t.newKey()
		dir := t.Dir()
		for _, p := range []string{dir, dir + "/missing", dir + "/x/y", "/proc/self/mem"} {
			if s, err := k.sk.SignFile(p); err == nil {
				t.Failf("signing %s, which can't be read, succeeded: %v", p, s != nil)
			}
			sg := &sign.Signature{Sig: make([]byte, 64)}
			if ok, err := k.pk.VerifyFile(p, sg); err == nil || ok {
				t.Failf("verifying %s, which can't be read: %v, %v", p, ok, err)
			}
			t.Seen("sign %s", p)
		}
	})
	// saving keys and signatures where they can't be stored
	c.Cases("save", 6, func(t *T) {
		k := t.newKey()
		for _, p := range []string{t.Path("no/such/dir"), t.Path("f") + "/x", t.Dir()} {
			t.write("f", nil, 0600)
			sg, err := k.sk.SignMessage([]byte("x"), "")
			if err != nil {
				t.Failf("%v", err)
			}
			for _, ov := range []bool{false, true} {
				if err := k.pk.Serialize(p, "c", ov); err == nil {
					t.Failf("public key saved to %s", p)
				}
				if err := sg.Serialize(p, "c", ov); err == nil {
					t.Failf("signature saved to %s", p)
				}
				t.Seen("save %s %v", p, ov)
			}
		}
	})
}
