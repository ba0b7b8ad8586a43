package main

import (
	"bytes"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"hash"
	"io"
	"os"
	"os/exec"
	"runtime"
	"sync"
	"syscall"
	"time"

	"github.com/opencoff/sigtool/sign"
)

// C23: memory and lag stay bounded however long the data is
func init() {
	register("C23", &Prop{MinEval: 40,
		Rule:   "encryption and decryption, bulk and streaming, of data much longer than the block size, generated while it is read and counted while it is written; at every read and write the monitor compares input consumed with output produced, and at checkpoints the live heap after a collection; the commands process files far larger than a limit on their private memory, through pipes that are held open. Distinct: (operation, block size, length class, checkpoint).",
		Assume: []string{"bounds: lag 4 blocks + 256 KiB, growth of the live heap 8 blocks + 4 MiB, private memory of the commands 192 MiB with inputs of 600 MiB and more"},
		Run:    runC23})
}

// genSrc makes n bytes of data on the fly.
type genSrc struct {
	n, off int64
	pat    []byte
	seg    int
	before func(off int64)
}

func newGen(n int64, seg int) *genSrc {
	g := &genSrc{n: n, seg: seg, pat: make([]byte, 65536+251)}
	for i := range g.pat {
		g.pat[i] = byte(i % 251 * 7)
	}
	return g
}

func (g *genSrc) Read(p []byte) (int, error) {
	if g.off == g.n {
		return 0, io.EOF
	}
	if g.before != nil {
		g.before(g.off)
	}
	m := int(min(int64(len(p)), g.n-g.off))
	if g.seg > 0 {
		m = min(m, g.seg)
	}
	m = copy(p[:m], g.pat[g.off%251:])
	g.off += int64(m)
	return m, nil
}

// sameGen checks that what is written is the generated data.
type genSink struct {
	off    int64
	pat    []byte
	bad    int64
	closed int
	after  func(off int64)
}

func newSink() *genSink { return &genSink{pat: newGen(0, 0).pat, bad: -1} }

func (g *genSink) Write(p []byte) (int, error) {
	n := len(p)
	for len(p) > 0 {
		m := min(len(p), 65536)
		o := g.off % 251
		if g.bad < 0 && !bytes.Equal(p[:m], g.pat[o:o+int64(m)]) {
			g.bad = g.off
		}
		g.off += int64(m)
		p = p[m:]
	}
	if g.after != nil {
		g.after(g.off)
	}
	return n, nil
}

func (g *genSink) Close() error { g.closed++; return nil }

func liveHeap() int64 {
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// heapWatch measures the live heap at fixed positions of the data.
type heapWatch struct {
	t     *T
	what  string
	every int64
	next  int64
	first int64
	limit int64
	base  int64
}

func (h *heapWatch) at(off int64) {
	if off < h.next {
		return
	}
	h.next += h.every
	v := liveHeap() - h.base
	h.t.Count("heap_measurements", 1)
	h.t.Seen("%s/%d", h.what, off/h.every)
	if h.first == 0 {
		h.first = v
		return
	}
	if v > h.first+h.limit {
		h.t.Failf("%s: live heap grew from %d to %d bytes while %d bytes were processed", h.what, h.first, v, off)
	}
}

func runC23(c *Ctx) {
	type cs struct {
		blk int
		n   int64
	}
	cases := []cs{{64, 1 << 20}, {1000, 8 << 20}, {4096, 32 << 20}, {65536, 64 << 20}, {128 << 10, 96 << 20}, {1 << 20, 96 << 20}, {5 << 20, 160 << 20}}
	if c.thorough() {
		for i := range cases {
			cases[i].n *= 8
		}
	}
	lagLimit := func(blk int) int64 { return 4*int64(blk) + 256<<10 }
	heapLimit := func(blk int) int64 { return 8*int64(blk) + 4<<20 }
	// overhead per block of the format, and of the header
	over := func(n int64, blk int) int64 { return (n/int64(blk)+2)*(4+16+16) + 4096 }

	c.Serial("encrypt", len(cases)*2, func(t *T) {
		x := cases[t.idx/2]
		stream := t.idx%2 == 1
		k := t.newKey()
		e, err := sign.NewEncryptor(nil, uint64(x.blk))
		must(err)
		if err := e.AddRecipient(k.pk); err != nil {
			t.Failf("AddRecipient: %v", err)
		}
		what := fmt.Sprintf("encrypt(stream %v, block %d)", stream, x.blk)
		d := &Dst{discard: true}
		g := newGen(x.n, pick(t.R, 0, 0, 3000, 70000))
		h := &heapWatch{t: t, what: what, every: x.n / 8, base: liveHeap(), limit: heapLimit(x.blk)}
		var maxLag int64
		g.before = func(off int64) {
			// all complete blocks but the latest ones must have been written
			if lag := off - d.total; lag > maxLag {
				maxLag = lag
				if lag > lagLimit(x.blk) {
					t.Failf("%s: %d bytes of input were consumed but only %d bytes of output produced", what, off, d.total)
				}
			}
			h.at(off)
			t.Count("lag_measurements", 1)
		}
		if !stream {
			err = e.Encrypt(g, d)
		} else {
			w, err2 := e.NewStreamWriter(d)
			if err2 != nil {
				t.Failf("NewStreamWriter: %v", err2)
			}
			buf := make([]byte, pick(t.R, 1000, 33333, 1<<20))
			for {
				m, e2 := g.Read(buf)
				if e2 != nil {
					break
				}
				if _, err = w.Write(buf[:m]); err != nil {
					t.Failf("%s: %v", what, err)
				}
			}
			err = w.Close()
		}
		if err != nil {
			t.Failf("%s: %v", what, err)
		}
		if d.total < x.n || d.total > x.n+over(x.n, x.blk) {
			t.Failf("%s: %d bytes encrypted to %d bytes", what, x.n, d.total)
		}
		t.Count("megabytes", int(x.n>>20))
		t.Sample(map[string]any{"what": what, "bytes": x.n, "max_lag": maxLag})
	})

	c.Serial("decrypt", len(cases)*2, func(t *T) {
		x := cases[t.idx/2]
		stream := t.idx%2 == 1
		k := t.newKey()
		// the encrypted file comes from the encryption under test through a pipe
		pr, pw := io.Pipe()
		var encErr error
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			e, err := sign.NewEncryptor(nil, uint64(x.blk))
			must(err)
			if err = e.AddRecipient(k.pk); err == nil {
				err = e.Encrypt(newGen(x.n, 0), pw)
			}
			encErr = err
			pw.CloseWithError(err)
		}()
		defer func() { pr.CloseWithError(io.ErrUnexpectedEOF); wg.Wait() }()
		what := fmt.Sprintf("decrypt(stream %v, block %d)", stream, x.blk)
		s := newSink()
		h := &heapWatch{t: t, what: what, every: x.n / 8, base: liveHeap(), limit: heapLimit(x.blk)}
		src := &countRd{r: pr}
		var maxLag int64
		src.before = func(off int64) {
			lag := off - s.off - over(off, x.blk)
			if lag > maxLag {
				maxLag = lag
				if lag > lagLimit(x.blk) {
					t.Failf("%s: %d bytes of input were consumed but only %d bytes of output produced", what, off, s.off)
				}
			}
			h.at(off)
			t.Count("lag_measurements", 1)
		}
		d, err := sign.NewDecryptor(src)
		if err == nil {
			err = d.SetPrivateKey(k.sk, nil)
		}
		if err != nil {
			t.Failf("%s: %v", what, err)
		}
		if !stream {
			err = d.Decrypt(s)
		} else {
			var r io.Reader
			if r, err = d.NewStreamReader(); err == nil {
				_, err = io.CopyBuffer(struct{ io.Writer }{s}, r, make([]byte, pick(t.R, 1000, 33333, 1<<20)))
			}
		}
		if err != nil {
			t.Failf("%s of %d bytes: %v (encryption: %v)", what, x.n, err, encErr)
		}
		if s.off != x.n || s.bad >= 0 {
			t.Failf("%s: got %d of %d bytes, first wrong byte at %d", what, s.off, x.n, s.bad)
		}
		t.Count("megabytes", int(x.n>>20))
		t.Sample(map[string]any{"what": what, "bytes": x.n, "max_lag": maxLag})
	})

	// many recipients and many small blocks do not add up either
	c.Serial("recipients", 2, func(t *T) {
		ks := t.newKeys(40)
		e, err := sign.NewEncryptor(ks[0].sk, 4096)
		must(err)
		for _, k := range ks {
			if err := e.AddRecipient(k.pk); err != nil {
				t.Failf("AddRecipient: %v", err)
			}
		}
		d := &Dst{discard: true}
		n := int64(24 << 20)
		g := newGen(n, 0)
		h := &heapWatch{t: t, what: "encrypt for 40", every: n / 6, base: liveHeap(), limit: heapLimit(4096)}
		g.before = func(off int64) {
			if off-d.total > lagLimit(4096) {
				t.Failf("with 40 recipients %d bytes were consumed, %d produced", off, d.total)
			}
			h.at(off)
		}
		if err := e.Encrypt(g, d); err != nil {
			t.Failf("encrypt: %v", err)
		}
		t.Count("megabytes", int(n>>20))
	})

	// commands with limited private memory
	const memKiB = 192 << 10
	big := int64(c.n(600, 4200)) << 20
	bss := []string{"", "64k", "1M", "4000"}
	c.casesN("command-crypt", c.n(2, len(bss)), 2, func(t *T) {
		k := refKey(t.R)
		skf, pkf := t.writeKey("k", k, "", "")
		args := []string{"encrypt"}
		if bs := bss[t.idx]; bs != "" {
			args = append(args, "-B", bs)
		}
		pr, pw, err := os.Pipe()
		must(err)
		pr2, pw2, err := os.Pipe()
		must(err)
		pr3, pw3, err := os.Pipe()
		must(err)
		var wg sync.WaitGroup
		var enc, dec *Ran
		wg.Add(3)
		go func() {
			defer wg.Done()
			io.Copy(pw, newGen(big, 0))
			pw.Close()
		}()
		go func() {
			defer wg.Done()
			defer pw2.Close()
			defer pr.Close()
			enc = t.progErr(Run{Args: append(args, pkf, "-"), InFile: pr, Stdout: pw2, Data: memKiB})
		}()
		go func() {
			defer wg.Done()
			defer pw3.Close()
			defer pr2.Close()
			dec = t.progErr(Run{Args: []string{"decrypt", "--no-password", skf}, InFile: pr2, Stdout: pw3, Data: memKiB})
		}()
		s := newSink()
		io.Copy(struct{ io.Writer }{s}, pr3)
		pr3.Close()
		wg.Wait()
		if enc == nil || dec == nil || enc.Code != 0 || dec.Code != 0 {
			t.Failf("%d MiB with private memory limited to %d KiB: %v; %v", big>>20, memKiB, enc, dec)
		}
		if s.off != big || s.bad >= 0 {
			t.Failf("got %d of %d bytes back, first wrong byte at %d", s.off, big, s.bad)
		}
		t.Count("megabytes", int(big>>20))
		t.Count("rss_kib_encrypt", int(enc.MaxRSS))
		t.Count("rss_kib_decrypt", int(dec.MaxRSS))
		t.Seen("%q", bss[t.idx])
	})

	// signing: sparse files beyond 4 GiB and beyond the memory limit
	sizes := []int64{700 << 20, 4<<30 + 13}
	c.casesN("command-sign", len(sizes), 2, func(t *T) {
		n := sizes[t.idx]
		k := refKey(t.R)
		skf, pkf := t.writeKey("k", k, "", "")
		fn := t.Path("big")
		f, err := os.Create(fn)
		must(err)
		must(f.Truncate(n))
		tail := randBytes(t.R, 9)
		f.WriteAt(tail, n-9)
		f.WriteAt(tail, 1<<20)
		must(f.Close())
		var ck []byte
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			h := sha512.New()
			f, err := os.Open(fn)
			must(err)
			defer f.Close()
			io.Copy(struct{ io.Writer }{h}, f)
			ck = sizedSum(h, n)
		}()
		r := t.CLI(Run{Args: []string{"sign", "--no-password", skf, fn}, Data: memKiB})
		wg.Wait()
		if r.Code != 0 {
			t.Failf("signing a file of %d bytes with private memory limited to %d KiB: %v", n, memKiB, r)
		}
		sg, _, _, err := refReadSig(mustRead(fn + ".sig"))
		if err != nil || !refVerifyMsg(k.PK, ck, sg) {
			t.Failf("signature of a file of %d bytes is wrong: %v", n, err)
		}
		if n > 4<<30 && !c.thorough() {
			t.Seen("%d", n)
			return
		}
		r = t.CLI(Run{Args: []string{"verify", pkf, fn + ".sig", fn}, Data: memKiB})
		if r.Code != 0 {
			t.Failf("verifying a file of %d bytes: %v", n, r)
		}
		t.Count("megabytes", int(n>>20))
		t.Seen("%d", n)
	})

	// signing a pipe must not collect it in memory
	c.casesN("command-sign-pipe", 1, 1, func(t *T) {
		n := int64(500 << 20)
		k := refKey(t.R)
		skf, _ := t.writeKey("k", k, "", "")
		fifo := t.Path("fifo")
		must(syscall.Mkfifo(fifo, 0600))
		h := sha512.New()
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			w, err := openFifoWriter(fifo)
			if err != nil {
				return
			}
			defer w.Close()
			io.Copy(io.MultiWriter(w, h), newGen(n, 0))
		}()
		r := t.CLI(Run{Args: []string{"sign", "--no-password", "-o", t.Path("sig"), skf, fifo}, Data: memKiB})
		wg.Wait()
		if r.Code != 0 {
			t.Failf("signing %d bytes from a pipe with private memory limited to %d KiB: %v", n, memKiB, r)
		}
		sg, _, _, err := refReadSig(mustRead(t.Path("sig")))
		if err != nil || !refVerifyMsg(k.PK, sizedSum(h, n), sg) {
			t.Failf("signature of %d bytes from a pipe is wrong: %v", n, err)
		}
		t.Count("megabytes", int(n>>20))
		t.Seen("pipe")
	})

	// output must come while the input is still open
	c.Cases("command-lag", c.n(16, 200), func(t *T) {
		blk := pick(t.R, 1000, 4096, 65536, 131072)
		l := t.newLab(blk*12+1+int(lagLimit(blk)), blk)
		cmd := l.commands()[t.idx%4]
		in := mustRead(l.path(cmd.in))
		p := exec.Command(t.c.Bin, replaceArg(cmd.with("", false), cmd.in, "-")...)
		p.Dir = l.W
		p.Env = []string{"HOME=" + l.W, "PATH=" + os.Getenv("PATH")}
		var se bytes.Buffer
		p.Stderr = &se
		w, err := p.StdinPipe()
		must(err)
		o, err := p.StdoutPipe()
		must(err)
		must(p.Start())
		defer func() { p.Process.Kill(); p.Wait() }()
		give := len(in) - 40
		go w.Write(in[:give])
		want := give - int(over(int64(give), blk)) - int(lagLimit(blk))
		got := 0
		done := make(chan error, 1)
		go func() {
			b := make([]byte, 65536)
			for got < want {
				n, err := o.Read(b)
				got += n
				if err != nil {
					done <- err
					return
				}
			}
			done <- nil
		}()
		select {
		case err := <-done:
			if err != nil {
				t.Failf("%s ended early: %v %q", cmd.name, err, se.String())
			}
		case <-time.After(90 * time.Second):
			t.Failf("%s (block %d): %d bytes of input given, waiting for more than %d bytes of output for 90 seconds", cmd.name, blk, give, want)
		}
		t.Count("bytes_before_end_of_input", got)
		t.Seen("%s/%d", cmd.name, blk)
	})
}

// progErr is CLI for goroutines other than the case's own.
func (t *T) progErr(r Run) (x *Ran) {
	defer func() {
		if v := recover(); v != nil {
			if _, ok := v.(caseAbort); !ok {
				panic(v)
			}
		}
	}()
	return t.CLI(r)
}

type countRd struct {
	r      io.Reader
	off    int64
	before func(off int64)
}

func (c *countRd) Read(p []byte) (int, error) {
	if c.before != nil {
		c.before(c.off)
	}
	n, err := c.r.Read(p)
	c.off += int64(n)
	return n, err
}

func sizedSum(h hash.Hash, n int64) []byte {
	h.Write(binary.BigEndian.AppendUint64(nil, uint64(n)))
	return h.Sum(nil)
}
