package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"reflect"
	"unsafe"

	"github.com/opencoff/sigtool/sign"
)

// Very long files: a chunk must not be usable in place of another one however
// far away. The sink keeps the header and sixteen chunks from every power of
// two on; the receivers are then shown the far chunks in early places.

// farPT is byte i of the plaintext. The first 16 bytes appear nowhere else.
func farPT(i uint64) byte {
	if i < 16 {
		return byte(i)
	}
	return 0x80 | byte(i^i>>7^i>>14^i>>21)&0x7f
}

const farFrame = 4 + 1 + 16

type farSink struct {
	hdr   []byte
	hlen  int
	off   uint64 // in the chunk area
	cur   []byte
	kept  map[uint64][]byte
	every func()
	n     int
}

func farWanted(i uint64) bool {
	if i < 32 {
		return true
	}
	h := i
	for h&(h-1) != 0 {
		h &= h - 1
	}
	return i-h < 16
}

func (s *farSink) Write(p []byte) (int, error) {
	n := len(p)
	if s.n++; s.n&(1<<22-1) == 0 && s.every != nil {
		s.every()
	}
	for s.hlen == 0 || len(s.hdr) < s.hlen {
		if len(p) == 0 {
			return n, nil
		}
		k := 1
		if s.hlen > 0 {
			k = min(len(p), s.hlen-len(s.hdr))
		}
		s.hdr = append(s.hdr, p[:k]...)
		p = p[k:]
		if len(s.hdr) == 12 {
			s.hlen = 12 + int(binary.BigEndian.Uint32(s.hdr[8:])) + 32
		}
	}
	for len(p) > 0 {
		i, o := s.off/farFrame, int(s.off%farFrame)
		k := min(farFrame-o, len(p))
		if farWanted(i) {
			if o == 0 {
				s.cur = s.cur[:0]
			}
			s.cur = append(s.cur, p[:k]...)
			if o+k == farFrame {
				s.kept[i] = append([]byte(nil), s.cur...)
			}
		}
		s.off += uint64(k)
		p = p[k:]
	}
	return n, nil
}

func (s *farSink) Close() error { return nil }

type farSrc struct{ i, n uint64 }

func (s *farSrc) Read(p []byte) (int, error) {
	if s.i == s.n {
		return 0, io.EOF
	}
	k := int(min(uint64(len(p)), s.n-s.i))
	for j := range p[:k] {
		p[j] = farPT(s.i)
		s.i++
	}
	return k, nil
}

// farJudge shows every kept chunk to the receivers in early places.
func (t *T) farJudge(k *Key, s *farSink, how string) {
	show := func(at int, q uint64) {
		f := append([]byte(nil), s.hdr...)
		for i := 0; i < at; i++ {
			f = append(f, s.kept[uint64(i)]...)
		}
		f = append(f, s.kept[q]...)
		for i := at + 1; i < 3; i++ {
			f = append(f, s.kept[uint64(i)]...)
		}
		want := make([]byte, 64)
		for i := range want {
			want[i] = farPT(uint64(i))
		}
		for _, st := range []bool{false, true} {
			got, _, _ := t.decrypt(decOpt{sk: k.sk, stream: st, max: 1000}, f)
			if !bytes.HasPrefix(want, got) {
				t.Failf("%s: chunk %d is taken for chunk %d of the same file (released %x)", how, q, at, got)
			}
		}
		t.Count("far_chunks_shown", 1)
	}
	for q := range s.kept {
		if q > 0 {
			show(0, q)
		}
		if p := int(q % 16); q >= 16 && p > 0 {
			show(p, q)
		}
	}
	t.Seen("%s/%d", how, len(s.kept))
}

func farGroup(c *Ctx) {
	far := uint64(1<<24 + 32)
	if c.thorough() {
		far = 1<<32 + 32
	}
	c.Cases("far", 2, func(t *T) {
		k := t.newKey()
		e, err := sign.NewEncryptor(nil, 1)
		if err == nil {
			err = e.AddRecipient(k.pk)
		}
		if err != nil {
			t.Failf("%v", err)
		}
		s := &farSink{kept: map[uint64][]byte{}, every: t.alive}
		src := &farSrc{n: far}
		how := "bulk"
		if t.idx == 0 {
			err = e.Encrypt(src, s)
		} else {
			how = "stream"
			var w io.WriteCloser
			if w, err = e.NewStreamWriter(s); err != nil {
				t.Failf("%v", err)
			}
			b := make([]byte, 1<<20)
			for err == nil {
				n, rerr := src.Read(b)
				if rerr != nil {
					err = w.Close()
					break
				}
				_, err = w.Write(b[:n])
			}
		}
		if err != nil {
			if s.off < farFrame<<16 {
				t.Failf("refused after %d chunks: %v", s.off/farFrame, err)
			}
			t.Count("very_long_refused", 1)
		}
		t.Count("far_chunks", int(s.off/farFrame))
		t.farJudge(k, s, how)
		t.Sample(map[string]any{"chunks": s.off / farFrame, "kept": len(s.kept), "how": how, "err": fmt.Sprint(err)})
	})

	// The end of the chunk number's range takes hours to get to. Where the
	// stream writer has exactly one 32 bit number in it, start shortly before.
	c.Cases("range-end", 8, func(t *T) {
		k := t.newKey()
		e, err := sign.NewEncryptor(nil, 1)
		if err == nil {
			err = e.AddRecipient(k.pk)
		}
		if err != nil {
			t.Failf("%v", err)
		}
		s := &farSink{kept: map[uint64][]byte{}}
		w, err := e.NewStreamWriter(s)
		if err != nil {
			t.Failf("%v", err)
		}
		ctr := onlyUint32(w)
		if ctr == nil {
			t.Count("range_end_unreachable", 1)
			t.Seen("none %d", t.idx)
			return
		}
		*ctr = ^uint32(0) - uint32(t.idx)
		if catch(func() {
			for i := uint64(0); i < 32 && err == nil; i++ {
				_, err = w.Write([]byte{0xf0 | byte(i)})
			}
			if err == nil {
				err = w.Close()
			}
		}) != nil {
			t.Count("range_end_unreachable", 1)
			return
		}
		if err != nil {
			t.Count("range_end_refused", 1)
		}
		// none of these is the first chunk of the file
		for i := uint64(0); i < 32; i++ {
			if s.kept[i] == nil {
				break
			}
			got, _, _ := t.decrypt(decOpt{sk: k.sk, stream: true, max: 1000}, append(append([]byte(nil), s.hdr...), s.kept[i]...))
			if len(got) > 0 && i == 0 { // that number is something else
				t.Count("range_end_unreachable", 1)
				return
			}
			if len(got) > 0 {
				t.Failf("chunk number %d is taken for the first chunk of the file: the numbers of chunks repeat", 1<<32-1-uint64(t.idx)+i)
			}
			t.Count("range_end_chunks", 1)
		}
		t.Seen("%d", t.idx)
	})
}

// onlyUint32 is the only uint32 in a structure, if there is exactly one.
func onlyUint32(x any) (r *uint32) {
	v := reflect.ValueOf(x)
	if v.Kind() != reflect.Pointer || v.Elem().Kind() != reflect.Struct {
		return nil
	}
	v = v.Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Uint32 {
			if r != nil {
				return nil
			}
			r = (*uint32)(unsafe.Pointer(f.UnsafeAddr()))
		}
	}
	return r
}
