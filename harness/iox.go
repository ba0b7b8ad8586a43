// iox.go - instrumented sources and destinations
package main

import (
	"bytes"
	"errors"
	"io"
	"math/rand"
	"sync"
)

var errInjected = errors.New("injected fault")

// Src delivers data in pieces and records what the code under test does.
type Src struct {
	data       []byte
	off        int
	seg        func() int // size of the next piece; nil: as much as asked
	zero       int        // every zero'th read returns 0, nil
	eofAt      bool       // return io.EOF together with the last piece
	fault      int        // fail from the fault'th read on (1-based); 0 never
	faultAtEOF bool       // fail instead of reporting the end
	partial    int        // deliver this many bytes along with the fault
	err        error
	once       bool // fault only once, later reads go on
	thenEnd    bool // the data ends after the fault

	reads  int
	ended  int // reads after the end was reported
	failed int // reads after a fault was reported
	fired  bool
	onRead func(n int)
}

func newSrc(b []byte) *Src { return &Src{data: b} }

func (s *Src) Read(p []byte) (int, error) {
	s.reads++
	if s.ended > 0 {
		s.ended++
		if s.ended > 100000 {
			panic(livelock{"source read 100000 times after its end"})
		}
		return 0, io.EOF
	}
	if s.fired && !s.once {
		s.failed++
		if s.failed > 100000 {
			panic(livelock{"source read 100000 times after its error"})
		}
		return 0, s.err
	}
	if s.fault > 0 && s.reads >= s.fault && !s.fired {
		s.fired = true
		n := min(s.partial, len(p), len(s.data)-s.off)
		copy(p, s.data[s.off:s.off+n])
		s.off += n
		if s.thenEnd {
			s.data = s.data[:s.off]
		}
		return n, s.err
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.zero > 0 && s.reads%s.zero == 0 {
		return 0, nil
	}
	if s.off == len(s.data) {
		if s.faultAtEOF {
			s.fired = true
			return 0, s.err
		}
		s.ended = 1
		return 0, io.EOF
	}
	n := len(p)
	if s.seg != nil {
		n = min(n, max(1, s.seg()))
	}
	n = copy(p[:n], s.data[s.off:])
	s.off += n
	if s.onRead != nil {
		s.onRead(n)
	}
	if s.off == len(s.data) && s.eofAt {
		s.ended = 1
		return n, io.EOF
	}
	return n, nil
}

// random segmentation
func segs(r *rand.Rand, kind int) func() int {
	switch kind {
	case 1:
		return func() int { return 1 }
	case 2:
		return func() int { return 1 + r.Intn(7) }
	case 3:
		return func() int { return 1 + r.Intn(5000) }
	case 4:
		return func() int {
			if r.Intn(3) == 0 {
				return 1
			}
			return 1 << r.Intn(16)
		}
	}
	return nil
}

// Dst accepts data and records it.
type Dst struct {
	mu            sync.Mutex
	buf           bytes.Buffer
	total         int64
	discard       bool
	writes        int
	closes        int
	afterClose    int
	writeAfterErr int

	fault       int // fail the fault'th write (1-based)
	failForever bool
	err         error
	accept      int // accept this many bytes of the failing write
	closeErr    error
	fired       bool
	short       func(n int) int // accept fewer bytes without error (n>0 result)
	onWrite     func(n int)
}

func (d *Dst) Write(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.writes++
	if d.closes > 0 {
		d.afterClose++
	}
	if d.fault > 0 && (d.writes == d.fault || (d.failForever && d.writes > d.fault)) {
		if d.fired {
			d.writeAfterErr++
			if d.writeAfterErr > 100000 {
				panic(livelock{"destination written 100000 times after its error"})
			}
		}
		d.fired = true
		n := min(d.accept, len(p))
		d.put(p[:n])
		return n, d.err
	}
	n := len(p)
	if d.short != nil && n > 0 {
		n = max(1, min(n, d.short(n)))
	}
	d.put(p[:n])
	if d.onWrite != nil {
		d.onWrite(n)
	}
	return n, nil
}

func (d *Dst) put(p []byte) {
	d.total += int64(len(p))
	if !d.discard {
		if d.buf.Len()+len(p) > 3<<29 {
			panic(livelock{"1.5 GB written to a destination, far more than there was to write"})
		}
		d.buf.Write(p)
	}
}

func (d *Dst) Close() error {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.closes++
	return d.closeErr
}

func (d *Dst) Bytes() []byte { return d.buf.Bytes() }

// readAllSized reads r to its end using buffers of the sizes given by next.
// It watches the io.Reader contract. max bounds the number of bytes.
func readAllSized(r io.Reader, next func() int, max int) (out []byte, err error, breach string) {
	idle := 0
	for i := 0; ; i++ {
		n := next()
		buf := make([]byte, n+8)
		for j := range buf {
			buf[j] = 0xA5
		}
		m, e := r.Read(buf[:n:n])
		if m < 0 || m > n {
			return out, e, "Read returned a count outside the buffer"
		}
		for j := n; j < len(buf); j++ {
			if buf[j] != 0xA5 {
				return out, e, "Read wrote beyond the buffer"
			}
		}
		out = append(out, buf[:m]...)
		if e != nil {
			return out, e, ""
		}
		if m == 0 && n > 0 {
			if idle++; idle > 1000 {
				return out, nil, "Read returned 0, nil 1000 times in a row"
			}
		} else {
			idle = 0
		}
		if len(out) > max {
			return out, nil, "Read returned more data than exists"
		}
	}
}
