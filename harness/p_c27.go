package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing/iotest"

	"github.com/opencoff/sigtool/sign"
)

// C27: contracts of the streams
func init() {
	register("C27", &Prop{MinEval: 400,
		Rule:   "streams driven with random and boundary sequences of write and read sizes over all shapes of data; the buffers handed in are compared after each call, then overwritten, and lie inside larger arrays whose other bytes are watched; after every write what was emitted so far is offered to the reference implementation and to the code under test as if it were complete; closes are counted, streams are used on after close, end and errors; the reader is also run through the standard library's reader test. Distinct: (stream, block size, shape of the data, sizes, outcome).",
		Assume: []string{"after a failing write, Close may or may not close the destination (at most once)"},
		Run:    runC27})
}

// guarded is a buffer inside of a larger array
type guarded struct{ all, b []byte }

func (t *T) guard(data []byte) *guarded {
	pre, post := t.R.Intn(40), 1+t.R.Intn(600)
	all := randBytes(t.R, pre+len(data)+post)
	copy(all[pre:], data)
	return &guarded{all, all[pre : pre+len(data)]} // capacity reaches beyond
}

func runC27(c *Ctx) {
	lens := func(t *T, blk int) int {
		if t.R.Intn(3) > 0 {
			v := boundaryLens(blk)
			return v[t.R.Intn(len(v))]
		}
		return t.R.Intn(7 * blk)
	}

	c.Cases("writer", c.n(500, 20000), func(t *T) {
		blk := pick(t.R, 1, 2, 16, 100, 1000, 4096)
		n := lens(t, blk)
		pt := patterned(t.R, n)
		k := t.newKey()
		var snd *Key
		if t.R.Intn(3) == 0 {
			snd = t.newKey()
		}
		var sk *sign.PrivateKey
		var spk []byte
		if snd != nil {
			sk, spk = snd.sk, snd.PK
		}
		e, err := sign.NewEncryptor(sk, uint64(blk))
		must(err)
		must(e.AddRecipient(k.pk))
		d := &Dst{}
		w, err := e.NewStreamWriter(d)
		if err != nil {
			t.Failf("NewStreamWriter: %v", err)
		}
		mode := t.R.Intn(5)
		size := func(left int) int {
			switch mode {
			case 0:
				return left
			case 1:
				return blk
			case 2:
				return 1 + t.R.Intn(3*blk)
			case 3:
				return pick(t.R, 1, blk-1, blk, blk+1, 2*blk)
			}
			return 1 + t.R.Intn(max(1, blk/3+1))
		}
		incomplete := func(when string) {
			b := d.Bytes()
			if o, err := refOpen(b, k.RefKey, spk); err == nil {
				t.Failf("%s, before the stream is closed, what was emitted (%d bytes) decrypts as a complete file of %d bytes", when, len(b), len(o.PT))
			}
			var sp *sign.PublicKey
			if snd != nil {
				sp = snd.pk
			}
			if p, _, err := t.decrypt(decOpt{sk: k.sk, sender: sp, stream: t.R.Intn(2) == 0}, b); err == nil {
				t.Failf("%s, before the stream is closed, what was emitted (%d bytes) is accepted as a complete file of %d bytes", when, len(b), len(p))
			}
			t.Count("prefixes_judged", 1)
		}
		incomplete("at the beginning")
		writes := 0
		looks := 0
		for off := 0; off < n; {
			if t.R.Intn(6) == 0 {
				if m, err := w.Write(pick(t.R, nil, []byte{})); m != 0 || err != nil {
					t.Failf("empty write: %d, %v", m, err)
				}
			}
			m := min(max(1, size(n-off)), n-off)
			g := t.guard(pt[off : off+m])
			before := append([]byte(nil), g.all...)
			got, err := w.Write(g.b)
			if err != nil || got != m {
				t.Failf("Write of %d bytes: %d, %v", m, got, err)
			}
			if !bytes.Equal(before, g.all) {
				t.Failf("Write of %d bytes changed the caller's buffer or its surroundings", m)
			}
			t.R.Read(g.all) // the caller uses its buffer for something else
			off += m
			writes++
			if looks < 12 || off == n {
				looks++
				incomplete(fmt.Sprintf("after %d of %d bytes", off, n))
			}
		}
		if d.closes != 0 {
			t.Failf("destination closed before the stream is")
		}
		if err := w.Close(); err != nil {
			t.Failf("Close: %v", err)
		}
		if d.closes != 1 {
			t.Failf("destination closed %d times by Close", d.closes)
		}
		total := d.total
		for i := 0; i < 3; i++ {
			if t.R.Intn(2) == 0 {
				w.Close()
			} else if m, err := w.Write(make([]byte, 1+t.R.Intn(2*blk))); err == nil || m != 0 {
				t.Failf("Write after Close: %d, %v", m, err)
			}
		}
		if d.closes != 1 || d.afterClose > 0 || d.total != total {
			t.Failf("using the stream after Close reached the destination (closed %d times, %d more bytes)", d.closes, d.total-total)
		}
		o, err := refOpen(d.Bytes(), k.RefKey, spk)
		if err != nil {
			t.Failf("result can't be decrypted: %v", err)
		}
		if s := diffBytes(o.PT, pt); s != "" {
			t.Failf("result decrypts to something else: %s", s)
		}
		t.Count("writes", writes)
		t.Seen("%d/%d/%d/%d/%v", blk, n/blk, n%blk, mode, snd != nil)
		t.Sample(map[string]any{"block": blk, "bytes": n, "writes": writes})
	})

	// the destination fails
	c.Cases("writer-failing", c.n(300, 10000), func(t *T) {
		blk := pick(t.R, 1, 16, 100, 1000)
		n := blk*2 + t.R.Intn(5*blk)
		k := t.newKey()
		e, err := sign.NewEncryptor(nil, uint64(blk))
		must(err)
		must(e.AddRecipient(k.pk))
		d := &Dst{fault: 2 + t.R.Intn(6), failForever: t.R.Intn(2) == 0, err: errInjected}
		w, err := e.NewStreamWriter(d)
		var werr error
		if err != nil {
			t.Seen("at start")
			return
		}
		for off := 0; off < n; {
			g := t.guard(patterned(t.R, min(n-off, 1+t.R.Intn(3*blk))))
			before := append([]byte(nil), g.all...)
			m, err := w.Write(g.b)
			if !bytes.Equal(before, g.all) {
				t.Failf("failing Write changed the caller's buffer")
			}
			if m < 0 || m > len(g.b) || err == nil && m != len(g.b) {
				t.Failf("Write of %d bytes returned %d, %v", len(g.b), m, err)
			}
			if werr != nil && err == nil {
				t.Failf("a write is accepted after a write that failed with %v", werr)
			}
			if werr != nil && m != 0 {
				t.Failf("a write after a write that failed with %v claims %d bytes", werr, m)
			}
			if d.fired && err == nil {
				t.Failf("the destination failed but Write reports success")
			}
			if err != nil {
				werr = err
				if t.R.Intn(2) == 0 {
					break
				}
			}
			off += len(g.b)
		}
		cerr := w.Close()
		if (werr != nil || d.fired) && cerr == nil {
			t.Failf("Close reports success after a failure (%v)", werr)
		}
		if d.closes > 1 {
			t.Failf("destination closed %d times", d.closes)
		}
		w.Close()
		if d.closes > 1 {
			t.Failf("destination closed %d times", d.closes)
		}
		if d.fired {
			if o, err := refOpen(d.Bytes(), k.RefKey, nil); err == nil {
				t.Failf("stream that failed decrypts as a complete file of %d bytes", len(o.PT))
			}
		}
		t.Count("failures", 1)
		t.Seen("%d/%d/%v/%v", blk, d.fault, werr != nil, d.fired)
	})

	// the destination fails to close
	c.Cases("writer-close-fails", c.n(200, 6000), func(t *T) {
		blk := pick(t.R, 1, 16, 100, 1000)
		n := lens(t, blk)
		pt := patterned(t.R, n)
		k := t.newKey()
		e, err := sign.NewEncryptor(nil, uint64(blk))
		must(err)
		must(e.AddRecipient(k.pk))
		d := &Dst{closeErr: errInjected}
		w, err := e.NewStreamWriter(d)
		if err != nil {
			t.Failf("NewStreamWriter: %v", err)
		}
		for off := 0; off < n; {
			m := min(n-off, 1+t.R.Intn(3*blk))
			if got, err := w.Write(pt[off : off+m]); got != m || err != nil {
				t.Failf("Write of %d bytes: %d, %v", m, got, err)
			}
			off += m
		}
		if err := w.Close(); err == nil {
			t.Failf("the destination failed to close but Close reports success (%d bytes, block %d)", n, blk)
		}
		total := d.total
		for i := 0; i < 4; i++ {
			if t.R.Intn(2) == 0 {
				w.Close()
			} else if m, err := w.Write(make([]byte, 1+t.R.Intn(2*blk))); err == nil || m != 0 {
				t.Failf("Write after a failing Close: %d, %v", m, err)
			}
		}
		if d.closes != 1 || d.afterClose > 0 || d.total != total {
			t.Failf("using the stream after a failing Close reached the destination (closed %d times, %d more bytes)", d.closes, d.total-total)
		}
		t.Count("failures", 1)
		t.Seen("%d/%d/%d", blk, n/blk, n%blk)
	})

	c.Cases("reader", c.n(600, 20000), func(t *T) {
		blk := pick(t.R, 1, 2, 16, 100, 1000, 4096)
		n := lens(t, blk)
		pt := patterned(t.R, n)
		k := t.newKey()
		f := newRefFile(t.R, uint32(blk), nil)
		f.addRx(t.R, k.PK)
		file := f.Encrypt(t.R, pt)
		orig := append([]byte(nil), file...)
		src := newSrc(file)
		src.seg = segs(t.R, t.R.Intn(5))
		src.eofAt = t.R.Intn(2) == 0
		dd, err := sign.NewDecryptor(src)
		if err == nil {
			err = dd.SetPrivateKey(k.sk, nil)
		}
		if err != nil {
			t.Failf("good file refused: %v", err)
		}
		r, err := dd.NewStreamReader()
		if err != nil {
			t.Failf("NewStreamReader: %v", err)
		}
		mode := t.R.Intn(5)
		if mode == 4 && n > 20000 {
			mode = 3
		}
		size := func() int {
			switch mode {
			case 0:
				return 8 * blk
			case 1:
				return blk
			case 2:
				return 1 + t.R.Intn(3*blk)
			case 3:
				return pick(t.R, 1, max(1, blk-1), blk, blk+1, 2*blk)
			}
			return 1
		}
		off, idle, reads := 0, 0, 0
		for {
			if t.R.Intn(8) == 0 {
				if m, err := r.Read(nil); m != 0 || err != nil && !(err == io.EOF && off == n) {
					t.Failf("empty read after %d of %d bytes: %d, %v", off, n, m, err)
				}
			}
			g := t.guard(make([]byte, size()))
			before := append([]byte(nil), g.all...)
			m, err := r.Read(g.b)
			reads++
			if m < 0 || m > len(g.b) {
				t.Failf("Read into %d bytes returned %d", len(g.b), m)
			}
			pre := cap(g.all) - cap(g.b)
			if !bytes.Equal(before[:pre], g.all[:pre]) || !bytes.Equal(before[pre+len(g.b):], g.all[pre+len(g.b):]) {
				t.Failf("Read wrote outside of the caller's buffer")
			}
			if m > n-off || !bytes.Equal(g.b[:m], pt[off:off+m]) {
				t.Failf("Read delivered wrong data at %d: %s", off, diffBytes(g.b[:m], pt[off:min(n, off+m)]))
			}
			off += m
			t.R.Read(g.all) // the caller uses its buffer for something else
			if err == io.EOF {
				break
			}
			if err != nil {
				t.Failf("Read after %d of %d bytes: %v", off, n, err)
			}
			if m == 0 {
				if idle++; idle > 100 {
					t.Failf("Read returned 0, nil 100 times")
				}
			} else {
				idle = 0
			}
		}
		if off != n {
			t.Failf("stream ended after %d of %d bytes", off, n)
		}
		for i := 0; i < 6; i++ {
			b := make([]byte, pick(t.R, 0, 1, blk, 4*blk))
			if m, err := r.Read(b); m != 0 || err != io.EOF && len(b) > 0 {
				t.Failf("read %d after the end: %d, %v", i, m, err)
			}
		}
		if !bytes.Equal(orig, file) {
			t.Failf("the encrypted data was changed")
		}
		t.Count("reads", reads)
		t.Seen("%d/%d/%d/%d", blk, n/blk, n%blk, mode)
	})

	// the standard library's test of readers, and its awkward sources
	c.Cases("iotest", c.n(200, 5000), func(t *T) {
		blk := pick(t.R, 1, 7, 64, 512)
		n := lens(t, blk)
		pt := patterned(t.R, n)
		k := t.newKey()
		f := newRefFile(t.R, uint32(blk), nil)
		f.addRx(t.R, k.PK)
		file := f.Encrypt(t.R, pt)
		wraps := []string{"plain", "one-byte", "half", "data-err"}
		wr := wraps[t.idx%4]
		var src io.Reader = bytes.NewReader(file)
		switch wr {
		case "one-byte":
			src = iotest.OneByteReader(src)
		case "half":
			src = iotest.HalfReader(src)
		case "data-err":
			src = iotest.DataErrReader(src)
		}
		dd, err := sign.NewDecryptor(src)
		if err == nil {
			err = dd.SetPrivateKey(k.sk, nil)
		}
		if err != nil {
			t.Failf("good file refused (%s): %v", wr, err)
		}
		r, err := dd.NewStreamReader()
		if err != nil {
			t.Failf("NewStreamReader: %v", err)
		}
		if err := iotest.TestReader(r, pt); err != nil {
			t.Failf("reader of %d bytes (block %d, source %s): %v", n, blk, wr, err)
		}
		t.Count("reader_tests", 1)
		t.Seen("%s/%d/%d/%d", wr, blk, n/blk, n%blk)
	})

	// after an error: nothing more
	c.Cases("reader-failing", c.n(400, 15000), func(t *T) {
		blk := pick(t.R, 1, 16, 100, 1000)
		n := blk + lens(t, blk)
		pt := patterned(t.R, n)
		k := t.newKey()
		f := newRefFile(t.R, uint32(blk), nil)
		f.addRx(t.R, k.PK)
		file := f.Encrypt(t.R, pt)
		h, err := refParseHdr(file)
		must(err)
		way := pick(t.R, "flip", "cut", "source")
		src := newSrc(file)
		src.seg = func() int { return 1 + t.R.Intn(100) }
		body := len(h.Raw)
		switch way {
		case "flip":
			file[body+t.R.Intn(len(file)-body)] ^= 1 << t.R.Intn(8)
		case "cut":
			src.data = file[:body+t.R.Intn(len(file)-body)]
		case "source":
			src.seg = nil
			src.fault, src.err, src.faultAtEOF = 3+t.R.Intn(20), errInjected, true
			src.once = t.R.Intn(2) == 0
		}
		dd, err := sign.NewDecryptor(src)
		if err == nil {
			err = dd.SetPrivateKey(k.sk, nil)
		}
		if err != nil {
			t.Seen("early/%s", way)
			return
		}
		r, err := dd.NewStreamReader()
		if err != nil {
			t.Seen("early/%s", way)
			return
		}
		var out []byte
		var ferr error
		for i := 0; i < 4*n+1000; i++ {
			b := make([]byte, 1+t.R.Intn(2*blk))
			m, err := r.Read(b)
			if m < 0 || m > len(b) {
				t.Failf("Read into %d bytes returned %d", len(b), m)
			}
			out = append(out, b[:m]...)
			if err != nil {
				ferr = err
				break
			}
		}
		if ferr == nil {
			t.Failf("damaged stream (%s) neither ends nor fails", way)
		}
		if ferr == io.EOF && len(out) == n && (way == "flip" || way == "source" && !src.fired) {
			// the end of a file without a sender is not protected
			t.Seen("unaffected/%s/%d", way, blk)
			return
		}
		if ferr == io.EOF {
			t.Failf("damaged stream (%s) ended as if it were complete after %d of %d bytes", way, len(out), n)
		}
		if !bytes.HasPrefix(pt, out) {
			t.Failf("damaged stream (%s) delivered wrong data", way)
		}
		for i := 0; i < 5; i++ {
			m, err := r.Read(make([]byte, 1+t.R.Intn(2*blk)))
			if m != 0 || err == nil {
				t.Failf("after the error %v, Read returned %d bytes, %v", ferr, m, err)
			}
			if err == io.EOF {
				t.Failf("after the error %v the stream reports its regular end", ferr)
			}
		}
		t.Count("failures", 1)
		t.Seen("%s/%d/%d", way, blk, len(out)/blk)
	})

	// bulk and streaming are the same to the receiver
	c.Cases("interchange", c.n(200, 6000), func(t *T) {
		blk := pick(t.R, 1, 16, 100, 1000, 65536)
		n := lens(t, blk)
		pt := patterned(t.R, n)
		k, snd := t.newKey(), t.newKey()
		var s *Key
		var sp *sign.PublicKey
		if t.R.Intn(2) == 0 {
			s, sp = snd, snd.pk
		}
		var sizes []int
		for _, es := range []bool{false, true} {
			d := &Dst{}
			if err := t.encryptTo(encOpt{sender: s, rx: []*Key{k}, blk: uint64(blk), stream: es, seg: segs(t.R, t.R.Intn(5))}, pt, d); err != nil {
				t.Failf("encryption (stream %v): %v", es, err)
			}
			if d.closes != 1 || d.afterClose > 0 {
				t.Failf("encryption (stream %v) closed its destination %d times", es, d.closes)
			}
			sizes = append(sizes, len(d.Bytes()))
			for _, ds := range []bool{false, true} {
				p, auth, err := t.decrypt(decOpt{sk: k.sk, sender: sp, stream: ds, seg: segs(t.R, t.R.Intn(5)), rseg: segs(t.R, 1+t.R.Intn(4))}, d.Bytes())
				if err != nil || auth != (s != nil) {
					t.Failf("encrypted as stream %v, decrypted as stream %v: %v (sender %v)", es, ds, err, auth)
				}
				if x := diffBytes(p, pt); x != "" {
					t.Failf("encrypted as stream %v, decrypted as stream %v: %s", es, ds, x)
				}
			}
		}
		if sizes[0] != sizes[1] && n > 0 && n%blk != 0 {
			t.Count("sizes_differ", 1)
		}
		t.Count("round_trips", 4)
		t.Seen("%d/%d/%d/%v", blk, n/blk, n%blk, s != nil)
	})

	// bulk encryption closes its destination once, too, and at most once on failure
	c.Cases("bulk-close", c.n(150, 4000), func(t *T) {
		blk := pick(t.R, 16, 100, 1000)
		n := lens(t, blk)
		k := t.newKey()
		d := &Dst{}
		src := newSrc(patterned(t.R, n))
		src.seg = segs(t.R, t.R.Intn(5))
		way := pick(t.R, "none", "dst", "src", "close")
		switch way {
		case "dst":
			d.fault, d.err, d.failForever = 1+t.R.Intn(5), errInjected, true
		case "src":
			src.fault, src.err, src.faultAtEOF = 1+t.R.Intn(5), errInjected, true
		case "close":
			d.closeErr = errInjected
		}
		e, err := sign.NewEncryptor(nil, uint64(blk))
		must(err)
		must(e.AddRecipient(k.pk))
		err = e.Encrypt(src, d)
		if d.afterClose > 0 || d.closes > 1 || err == nil && d.closes != 1 {
			t.Failf("bulk encryption (%s, result %v) closed its destination %d times, then wrote %d times", way, err, d.closes, d.afterClose)
		}
		if err == nil && (src.fired || d.fired || way == "close") {
			t.Failf("bulk encryption reports success although its %s failed", way)
		}
		if way == "none" && err != nil {
			t.Failf("bulk encryption failed: %v", err)
		}
		if err != nil && way != "none" && !errors.Is(err, errInjected) {
			t.Count("error_not_wrapped", 1)
		}
		t.Seen("%s/%d/%v", way, blk, err == nil)
	})
}
