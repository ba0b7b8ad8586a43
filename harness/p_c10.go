package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"io"

	"github.com/opencoff/sigtool/sign"
)

// C10: tampering by outsiders
func init() {
	register("C10", &Prop{Level: "fault_enumeration", MinEval: 500,
		Rule: "every single-byte change (4 values), truncation, deletion and insertion of small encrypted files (signed and not, empty to several chunks), plus structured attacks: chunk permutations, drops, duplicates, cross-file splices, end-mark moves, forged final chunks at every boundary, header fields edited with the checksum recomputed, and random multi-edits; each through bulk and stream decryption for every recipient. Non-trivial: the altered file differs from the original; distinct: altered files.",
		Run:  runC10})
}

// one victim file
type tamperBase struct {
	ct, pt []byte
	rx     []*Key
	sender *Key
	o      *RefOpen
	name   string
}

func (t *T) tamperBase(n int, blk uint64, nrx int, signed, stream bool) *tamperBase {
	b := &tamperBase{rx: t.newKeys(nrx), pt: patterned(t.R, n)}
	if n > 0 {
		// chunks that differ from each other
		for i := 0; i < n; i++ {
			b.pt[i] ^= byte(i/max(1, int(blk))) * 29
		}
	}
	if signed {
		b.sender = t.newKey()
	}
	b.ct = t.encrypt(encOpt{rx: b.rx, blk: blk, sender: b.sender, stream: stream}, b.pt)
	o, err := refOpen(b.ct, b.rx[0].RefKey, nil)
	if err != nil {
		t.Failf("reference reader: %v", err)
	}
	b.o = o
	b.name = fmt.Sprintf("len %d, block %d, %d recipients, signed %v", n, blk, nrx, signed)
	return b
}

// attack feeds an altered file to the receivers. The oracle: whatever is
// released is a prefix of the original; acceptance means exactly the original.
func (t *T) attack(b *tamperBase, file []byte, what string, a ...any) {
	if bytes.Equal(file, b.ct) {
		return
	}
	t.Count("altered_files", 1)
	h := sha256.Sum256(file)
	t.Seen("%x", h[:8])
	var spk *sign.PublicKey
	if b.sender != nil {
		spk = b.sender.pk
	}
	for i, k := range b.rx {
		if i > 0 && t.R.Intn(4) != 0 {
			continue
		}
		for _, st := range []bool{false, true} {
			got, _, err := t.decrypt(decOpt{sk: k.sk, sender: spk, stream: st, max: len(b.pt) + 1<<20}, file)
			w := fmt.Sprintf(what, a...)
			if !bytes.HasPrefix(b.pt, got) {
				t.Set("file", fmt.Sprintf("%x", clip(string(file), 4000)))
				t.Failf("%s (stream %v), %s: released %d bytes that are not a prefix of the original %d bytes (error %v)", w, st, b.name, len(got), len(b.pt), err)
			}
			if err == nil {
				t.Count("accepted_unchanged", 1)
				if len(got) != len(b.pt) {
					t.Set("file", fmt.Sprintf("%x", clip(string(file), 4000)))
					t.Failf("%s (stream %v), %s: accepted with %d of %d bytes", w, st, b.name, len(got), len(b.pt))
				}
			} else {
				t.Count("refused", 1)
			}
		}
	}
}

// resume goes on using a decryptor after it has refused the file.
func (t *T) resume(b *tamperBase, file []byte, k *Key, what string) {
	var spk *sign.PublicKey
	if b.sender != nil {
		spk = b.sender.pk
	}
	d, err := sign.NewDecryptor(newSrc(file))
	if err != nil || d.SetPrivateKey(k.sk, spk) != nil {
		return
	}
	judge := func(call int, how string, got []byte, err error) {
		if !bytes.HasPrefix(b.pt, got) || err == nil && len(got) != len(b.pt) {
			t.Set("file", fmt.Sprintf("%x", clip(string(file), 4000)))
			t.Failf("%s, %s: call %d (%s) on the same decryptor released %d bytes that are not the beginning of the original %d bytes, or not all of them (error %v)", what, b.name, call, how, len(got), len(b.pt), err)
		}
	}
	rekey := t.R.Intn(2) == 0
	for i := 0; i < 4; i++ {
		dst := &Dst{}
		if i > 0 && rekey && d.SetPrivateKey(k.sk, spk) != nil {
			return
		}
		err := d.Decrypt(dst)
		judge(i, "Decrypt", dst.Bytes(), err)
		t.Count("resumed", 1)
		if err == nil {
			return
		}
	}
	if r, err := d.NewStreamReader(); err == nil {
		for i := 0; i < 3; i++ {
			got, err, _ := readAllSized(r, func() int { return 1 + t.R.Intn(100) }, len(b.pt)+1<<20)
			if err == io.EOF {
				err = nil
			}
			judge(i, "stream after Decrypt", got, err)
			if err == nil {
				return
			}
		}
	}
}

func splice(b []byte, i, j int, repl []byte) []byte {
	r := make([]byte, 0, len(b)-(j-i)+len(repl))
	r = append(r, b[:i]...)
	r = append(r, repl...)
	return append(r, b[j:]...)
}

func runC10(c *Ctx) {
	type shape struct {
		n, rx  int
		blk    uint64
		signed bool
	}
	shapes := []shape{{0, 1, 16, false}, {0, 1, 16, true}, {1, 1, 1, false}, {10, 1, 16, true}, {16, 2, 16, false}, {16, 1, 16, true}, {32, 1, 16, false},
		{32, 2, 16, true}, {40, 1, 16, false}, {40, 3, 16, true}, {3, 1, 1, true}, {5, 1, 2, false}}
	if c.thorough() {
		for n := 0; n < 80; n += 3 {
			for _, b := range []uint64{1, 7, 16, 64} {
				if n <= int(b)*8 {
					shapes = append(shapes, shape{n, 1 + n%3, b, n%2 == 0}, shape{n, 1 + n%2, b, n%2 == 1})
				}
			}
		}
	}
	c.Cases("exhaustive", len(shapes)*4, func(t *T) {
		s := shapes[t.idx/4]
		b := t.tamperBase(s.n, s.blk, s.rx, s.signed, t.idx%2 == 0)
		switch t.idx % 4 {
		case 0:
			for i := range b.ct {
				for _, x := range []byte{0x01, 0x80, 0xff, b.ct[i], 0x10} {
					f := append([]byte(nil), b.ct...)
					f[i] ^= x
					t.attack(b, f, "byte %d xor %#x", i, x)
				}
			}
		case 1:
			for i := range b.ct {
				t.attack(b, b.ct[:i], "truncated to %d of %d bytes", i, len(b.ct))
			}
		case 2:
			for i := range b.ct {
				t.attack(b, splice(b.ct, i, i+1, nil), "byte %d removed", i)
				t.attack(b, splice(b.ct, i, i, []byte{byte(t.R.Intn(256))}), "byte inserted at %d", i)
				t.attack(b, splice(b.ct, i, i, []byte{b.ct[i]}), "byte %d doubled", i)
			}
		case 3:
			// header bytes with the checksum recomputed
			for i := range b.o.Var {
				for _, x := range []byte{0x01, 0x80, 0xff, 0x7f, 0x08} {
					v := append([]byte(nil), b.o.Var...)
					v[i] ^= x
					t.attack(b, append(sealHdr("SigTool", 3, v), b.ct[len(b.o.Raw):]...), "header byte %d xor %#x, checksum recomputed", i, x)
				}
				t.attack(b, append(sealHdr("SigTool", 3, splice(b.o.Var, i, i+1, nil)), b.ct[len(b.o.Raw):]...), "header byte %d removed, checksum recomputed", i)
				t.attack(b, append(sealHdr("SigTool", 3, b.o.Var[:i]), b.ct[len(b.o.Raw):]...), "header cut to %d, checksum recomputed", i)
			}
			for v := 0; v < 256; v++ {
				t.attack(b, append(sealHdr("SigTool", byte(v), b.o.Var), b.ct[len(b.o.Raw):]...), "version %d, checksum recomputed", v)
			}
		}
		t.Sample(map[string]any{"shape": b.name, "file_bytes": len(b.ct)})
	})

	// going on after a refusal: what was inserted must not help
	c.Cases("resumed", c.n(200, 6000), func(t *T) {
		blk := 1 + t.R.Intn(40)
		nch := 1 + t.R.Intn(5)
		n := max(0, blk*nch-t.R.Intn(blk))
		b := t.tamperBase(n, uint64(blk), 1, t.idx%3 == 0, t.R.Intn(2) == 0)
		var ch [][]byte
		for _, f := range b.o.Frames {
			ch = append(ch, b.ct[f.off:f.end])
		}
		junk := func(i int) []byte {
			x := append([]byte(nil), ch[i]...)
			switch t.R.Intn(4) {
			case 0:
				x[0] ^= 0x80
			case 1:
				x = []byte{0x7f, 0xff, 0xff, 0xff}
			case 2:
				x = []byte{0, 0, 0, 0}
			default:
				x[4+t.R.Intn(len(x)-4)] ^= 1 << t.R.Intn(8)
			}
			return x
		}
		for k := 0; k < 30; k++ {
			f := append([]byte(nil), b.ct[:len(b.o.Raw)]...)
			what := ""
			for i := 0; i < len(ch); i++ {
				switch t.R.Intn(4) {
				case 0: // in place of the chunk
					f = append(f, junk(i)...)
					what += fmt.Sprintf("junk for %d, ", i)
				case 1: // before it
					f = append(append(f, junk(i)...), ch[i]...)
					what += fmt.Sprintf("junk before %d, ", i)
				case 2:
					j := t.R.Intn(len(ch))
					f = append(append(f, junk(j)...), ch[j]...)
					what += fmt.Sprintf("junk and %d, ", j)
				default:
					f = append(f, ch[i]...)
				}
			}
			if t.R.Intn(2) == 0 {
				f = append(f, b.ct[len(b.o.Raw):]...)
				what += "all again"
			} else {
				f = append(f, b.o.Trailer...)
			}
			t.resume(b, f, b.rx[0], what)
			h := sha256.Sum256(f)
			t.Seen("%x", h[:8])
		}
	})

	farGroup(c)

	// chunk level attacks
	c.Cases("chunks", c.n(120, 3000), func(t *T) {
		blk := 1 + t.R.Intn(40)
		nch := 1 + t.R.Intn(6)
		n := blk*nch - t.R.Intn(blk)
		if t.R.Intn(4) == 0 {
			n = blk * nch
		}
		b := t.tamperBase(n, uint64(blk), 1+t.R.Intn(2), t.idx%2 == 0, t.R.Intn(2) == 0)
		hdr, fr, tr := b.ct[:len(b.o.Raw)], b.o.Frames, b.o.Trailer
		ch := make([][]byte, len(fr))
		for i, f := range fr {
			ch[i] = b.ct[f.off:f.end]
		}
		build := func(h []byte, cs [][]byte, tr []byte) []byte {
			r := append([]byte(nil), h...)
			for _, c := range cs {
				r = append(r, c...)
			}
			return append(r, tr...)
		}
		// all orders of up to 4 chunks, swaps of more
		perms(len(ch), func(p []int) {
			cs := make([][]byte, len(p))
			for i, x := range p {
				cs[i] = ch[x]
			}
			t.attack(b, build(hdr, cs, tr), "chunk order %v", p)
		})
		for i := range ch {
			drop := append(append([][]byte(nil), ch[:i]...), ch[i+1:]...)
			t.attack(b, build(hdr, drop, tr), "chunk %d of %d dropped", i, len(ch))
			for j := range ch {
				ins := append(append(append([][]byte(nil), ch[:j]...), ch[i]), ch[j:]...)
				t.attack(b, build(hdr, ins, tr), "chunk %d inserted at %d", i, j)
				rep := append([][]byte(nil), ch...)
				rep[j] = ch[i]
				t.attack(b, build(hdr, rep, tr), "chunk %d replaced by %d", j, i)
			}
			// end mark toggled
			x := append([]byte(nil), ch[i]...)
			x[0] ^= 0x80
			cs := append([][]byte(nil), ch...)
			cs[i] = x
			t.attack(b, build(hdr, cs, tr), "end mark of chunk %d toggled", i)
			t.attack(b, build(hdr, cs[:i+1], tr), "end mark of chunk %d toggled, rest cut", i)
			// claimed lengths
			for k := 0; k < 12; k++ {
				x := append([]byte(nil), ch[i]...)
				z := binary.BigEndian.Uint32(x)
				nl := pick(t.R, uint32(0), 1, z-1, z+1, uint32(len(x)), uint32(blk), uint32(blk)+1, 1<<30, 1<<31-1, ^uint32(0), z^1<<uint(t.R.Intn(32)), z|eofBit, z&^eofBit)
				binary.BigEndian.PutUint32(x, nl)
				cs := append([][]byte(nil), ch...)
				cs[i] = x
				t.attack(b, build(hdr, cs, tr), "length of chunk %d set to %#x", i, nl)
			}
			// shrink a chunk consistently
			if len(ch[i]) > 21 {
				for _, keep := range []bool{true, false} {
					x := append([]byte(nil), ch[i][:len(ch[i])-1]...)
					if keep { // drop a data byte, keep the tag
						x = append(append([]byte(nil), ch[i][:len(ch[i])-17]...), ch[i][len(ch[i])-16:]...)
					}
					z := binary.BigEndian.Uint32(x)
					binary.BigEndian.PutUint32(x, z-1)
					cs := append([][]byte(nil), ch...)
					cs[i] = x
					t.attack(b, build(hdr, cs, tr), "chunk %d shortened by one", i)
				}
			}
		}
		// forged ends at every boundary
		for i := 0; i <= len(ch); i++ {
			for k := 0; k < 6; k++ {
				var end []byte
				z := uint32(eofBit)
				switch k {
				case 1:
					end = make([]byte, 16)
				case 2:
					end = randBytes(t.R, 16)
				case 3: // tag of another chunk
					end = ch[t.R.Intn(len(ch))]
					end = end[len(end)-16:]
				case 4:
					z |= 1
					end = randBytes(t.R, 17)
				case 5:
					end = randBytes(t.R, 16+t.R.Intn(5))
				}
				var l [4]byte
				binary.BigEndian.PutUint32(l[:], z)
				fin := append(l[:], end...)
				for m := 0; m < 3; m++ {
					tt := [][]byte{tr, make([]byte, 64), randBytes(t.R, 64)}[m]
					t.attack(b, build(hdr, append(append([][]byte(nil), ch[:i]...), fin), tt), "forged end (kind %d) after chunk %d, trailer %d", k, i, m)
				}
				t.attack(b, build(hdr, append(append([][]byte(nil), ch[:i]...), fin), nil), "forged end (kind %d) after chunk %d, no trailer", k, i)
			}
			// an empty chunk in between
			t.attack(b, build(hdr, append(append(append([][]byte(nil), ch[:i]...), make([]byte, 20)), ch[i:]...), tr), "empty chunk inserted at %d", i)
			t.attack(b, build(hdr, append(append(append([][]byte(nil), ch[:i]...), make([]byte, 4)), ch[i:]...), tr), "zero length inserted at %d", i)
		}
		t.attack(b, append(append([]byte(nil), b.ct...), randBytes(t.R, 1+t.R.Intn(100))...), "data appended")
		t.attack(b, build(hdr, ch, randBytes(t.R, 64)), "trailer replaced")
		// splices from another file for the same people
		o := &tamperBase{rx: b.rx, sender: b.sender}
		opt := patterned(t.R, n)
		oct := t.encrypt(encOpt{rx: b.rx, blk: uint64(blk), sender: b.sender}, opt)
		oo, err := refOpen(oct, b.rx[0].RefKey, nil)
		if err != nil {
			t.Failf("reference reader: %v", err)
		}
		o.o = oo
		for i := range ch {
			cs := append([][]byte(nil), ch...)
			if i < len(oo.Frames) {
				cs[i] = oct[oo.Frames[i].off:oo.Frames[i].end]
				t.attack(b, build(hdr, cs, tr), "chunk %d from another file", i)
				t.attack(b, build(hdr, cs, oo.Trailer), "chunk %d and trailer from another file", i)
			}
		}
		t.attack(b, append(append([]byte(nil), hdr...), oct[len(oo.Raw):]...), "body of another file")
		t.attack(b, build(hdr, ch, oo.Trailer), "trailer of another file")
	})

	// blocks far apart: exchanged, doubled, cut out, moved. Block numbers must
	// not repeat in any way.
	far := 17
	if c.thorough() {
		far = 21
	}
	c.casesN("far-chunks", 2*(far+1), 4, func(t *T) {
		k := t.idx / 2
		d := 1 << k
		n := d + 3 + t.R.Intn(50)
		b := t.tamperBase(n, 1, 1, t.idx%2 == 0, t.R.Intn(2) == 0)
		hdr, fr, tr := b.ct[:len(b.o.Raw)], b.o.Frames, b.o.Trailer
		ch := func(i int) []byte { return b.ct[fr[i].off:fr[i].end] }
		i := t.R.Intn(2)
		for ; i+d < len(fr)-1; i++ {
			if b.pt[i] == b.pt[i+d] { // exchanging them would alter nothing
				continue
			}
			x := append([]byte(nil), b.ct...)
			copy(x[fr[i].off:], ch(i+d))
			t.attack(b, x, "block %d replaced by block %d", i, i+d)
			copy(x[fr[i+d].off:], ch(i))
			t.attack(b, x, "blocks %d and %d exchanged", i, i+d)
			break
		}
		t.attack(b, splice(b.ct, fr[i].off, fr[i+d].off, nil), "blocks %d to %d cut out", i, i+d-1)
		t.attack(b, splice(b.ct, fr[i+d].off, fr[i+d].off, b.ct[fr[i].off:fr[i+d].off]), "blocks %d to %d doubled", i, i+d-1)
		// the last block at once
		t.attack(b, append(append(append([]byte(nil), hdr...), ch(len(fr)-1)...), tr...), "only the last of %d blocks", len(fr))
		t.attack(b, append(append(append(append([]byte(nil), hdr...), b.ct[fr[0].off:fr[len(fr)-1-d].off]...), ch(len(fr)-1)...), tr...), "the %d blocks before the last cut out", d)
		t.Seen("far %d", k)
	})

	// blocks of ordinary size: cuts and moves at and near the boundaries
	bigs := []int{4096, 4097, 65536, 128 << 10, 1 << 20, 4 << 20, 0}
	c.casesN("big-blocks", 2*len(bigs), 4, func(t *T) {
		blk := bigs[t.idx/2]
		eff := blk
		if blk == 0 {
			eff = 4 << 20
		}
		n := eff*(1+t.R.Intn(2)) + pick(t.R, 0, 1, t.R.Intn(eff))
		b := t.tamperBase(n, uint64(blk), 1, t.idx%2 == 0, t.R.Intn(2) == 0)
		fr := b.o.Frames
		cuts := map[int]bool{len(b.ct) - 64: true, len(b.ct) - 65: true, len(b.ct) - 63: true, len(b.ct) - 1: true}
		for _, f := range fr {
			for _, x := range []int{f.off - 1, f.off, f.off + 1, f.off + 3, f.off + 4, f.off + 5, f.off + 19, f.off + 20, f.end - 17, f.end - 16, f.end - 1, f.end, f.off + t.R.Intn(f.end-f.off)} {
				if x > 0 && x < len(b.ct) {
					cuts[x] = true
				}
			}
		}
		for _, x := range sortedInts(cuts) {
			t.attack(b, b.ct[:x], "cut to %d of %d bytes", x, len(b.ct))
		}
		for i, f := range fr {
			t.attack(b, splice(b.ct, f.off, f.end, nil), "chunk %d dropped", i)
			t.attack(b, splice(b.ct, f.off, f.off, b.ct[f.off:f.end]), "chunk %d doubled", i)
			for _, x := range []int{f.off, f.off + 3, f.off + 4, f.end - 16, f.end - 1, f.off + t.R.Intn(f.end-f.off)} {
				g := append([]byte(nil), b.ct...)
				g[x] ^= 1 << t.R.Intn(8)
				t.attack(b, g, "bit of byte %d of chunk %d changed", x-f.off, i)
			}
			e := append([]byte(nil), b.ct[:f.off]...)
			t.attack(b, append(append(e, 0x80, 0, 0, 0), b.o.Trailer...), "bare end before chunk %d", i)
			if f.end-f.off > 4200 { // cut within the chunk at multiples of usual buffers
				for _, x := range []int{4096, 4096 + 4, 4096 + 20} {
					t.attack(b, b.ct[:f.off+x], "chunk %d cut to %d", i, x)
					t.attack(b, splice(b.ct, f.off+x, f.end, nil), "end of chunk %d from %d missing", i, x)
				}
			}
		}
		if len(fr) > 1 {
			x := append(append([]byte(nil), b.ct[:fr[0].off]...), b.ct[fr[1].off:fr[1].end]...)
			x = append(x, b.ct[fr[0].off:fr[0].end]...)
			t.attack(b, append(x, b.ct[fr[1].end:]...), "first chunks exchanged")
		}
		t.Seen("big %d %d", blk, n)
	})

	// header structure with the checksum recomputed
	c.Cases("header", c.n(150, 3000), func(t *T) {
		blk := 1 + t.R.Intn(40)
		b := t.tamperBase(t.R.Intn(blk*4), uint64(blk), 1+t.R.Intn(4), t.idx%2 == 0, t.R.Intn(2) == 0)
		body := b.ct[len(b.o.Raw):]
		other := t.tamperBase(20, 16, 2, b.sender != nil, false)
		mod := func(what string, f func(h *RefHdr)) {
			h := *b.o.RefHdr
			h.Keys = append([]RefWrap(nil), h.Keys...)
			f(&h)
			t.attack(b, append(h.encode(), body...), "header: %s", what)
		}
		for _, v := range []uint32{0, 1, uint32(blk) - 1, uint32(blk) + 1, uint32(blk) * 2, 1 << 16, 1 << 20} {
			mod(fmt.Sprintf("block size %d", v), func(h *RefHdr) { h.Chunk = v })
		}
		mod("other salt", func(h *RefHdr) { h.Salt = randBytes(t.R, 32) })
		mod("short salt", func(h *RefHdr) { h.Salt = h.Salt[:31] })
		mod("no salt", func(h *RefHdr) { h.Salt = nil })
		mod("long salt", func(h *RefHdr) { h.Salt = append(append([]byte(nil), h.Salt...), 0) })
		mod("other pk", func(h *RefHdr) { h.Pk = x25519Pub(randBytes(t.R, 32)) })
		mod("zero pk", func(h *RefHdr) { h.Pk = make([]byte, 32) })
		mod("low order pk", func(h *RefHdr) { h.Pk = append([]byte{1}, make([]byte, 31)...) })
		mod("short pk", func(h *RefHdr) { h.Pk = h.Pk[:t.R.Intn(32)] })
		mod("no pk", func(h *RefHdr) { h.Pk = nil })
		mod("no sender", func(h *RefHdr) { h.Sender = nil })
		mod("short sender", func(h *RefHdr) { h.Sender = h.Sender[:t.R.Intn(80)] })
		mod("zero sender", func(h *RefHdr) { h.Sender = make([]byte, 80) })
		mod("foreign sender", func(h *RefHdr) { h.Sender = other.o.Sender })
		mod("no keys", func(h *RefHdr) { h.Keys = nil })
		mod("first key dropped", func(h *RefHdr) { h.Keys = h.Keys[1:] })
		mod("keys doubled", func(h *RefHdr) { h.Keys = append(h.Keys, h.Keys...) })
		mod("keys reversed", func(h *RefHdr) {
			for i, j := 0, len(h.Keys)-1; i < j; i, j = i+1, j-1 {
				h.Keys[i], h.Keys[j] = h.Keys[j], h.Keys[i]
			}
		})
		mod("foreign keys", func(h *RefHdr) { h.Keys = append(h.Keys, other.o.Keys...) })
		mod("only foreign keys", func(h *RefHdr) { h.Keys = other.o.Keys })
		for l := 0; l < 70; l += 1 + t.R.Intn(9) {
			mod("random first key", func(h *RefHdr) {
				h.Keys = append([]RefWrap{{randBytes(t.R, l), randBytes(t.R, t.R.Intn(20))}}, h.Keys...)
			})
			mod("key of other length", func(h *RefHdr) { h.Keys[0].DKey = randBytes(t.R, l) })
			mod("nonce of other length", func(h *RefHdr) { h.Keys[0].Nonce = randBytes(t.R, l) })
		}
		mod("foreign header", func(h *RefHdr) { *h = *other.o.RefHdr })
		// unknown fields, overriding fields, long varints
		for _, ext := range [][]byte{{0x08, 0x05}, {0x30, 0x01}, {0x32, 0x01, 0x41}, {0x3a, 0x00}, {0x2a, 0x00}, {0x12, 0x00}, {0x1a, 0x00}, {0x22, 0x00},
			{0x08, 0xff, 0xff, 0xff, 0xff, 0x0f}, {0x08, 0x80, 0x80, 0x80, 0x80, 0x10}, {0x33}, {0x0b, 0x0c}, {0x3d, 1, 2, 3, 4}, {0x39, 1, 2, 3, 4, 5, 6, 7, 8},
			{0x12, 0xff, 0xff, 0xff, 0xff, 0x0f}, {0x2a, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01}, {0}, {0xff}} {
			t.attack(b, append(sealHdr("SigTool", 3, append(append([]byte(nil), b.o.Var...), ext...)), body...), "header extended by %x", ext)
			t.attack(b, append(sealHdr("SigTool", 3, append(append([]byte(nil), ext...), b.o.Var...)), body...), "header preceded by %x", ext)
		}
		for _, m := range []string{"sigtool", "SigTooL", "\x00igTool", "SigTool"[:6] + "\x00"} {
			t.attack(b, append(sealHdr(m, 3, b.o.Var), body...), "magic %q", m)
		}
		// length field that disagrees
		for _, l := range []uint32{0, 1, 31, 32, uint32(len(b.o.Var)) - 1, uint32(len(b.o.Var)) + 1, uint32(len(b.o.Var)) + 32, 1 << 20, 1<<20 + 1, 1 << 31, ^uint32(0)} {
			f := append([]byte(nil), b.ct...)
			binary.BigEndian.PutUint32(f[8:], l)
			t.attack(b, f, "header length %d", l)
			if int(l) < len(f)-50 {
				s := sha256.Sum256(f[:12+l])
				copy(f[12+l:], s[:])
				t.attack(b, f, "header length %d with checksum", l)
			}
		}
	})

	// random edits of larger files
	c.Cases("random", c.n(400, 20000), func(t *T) {
		blk := 1 + t.R.Intn(500)
		b := t.tamperBase(t.R.Intn(blk*6), uint64(blk), 1+t.R.Intn(3), t.idx%2 == 0, t.R.Intn(2) == 0)
		for k := 0; k < 40; k++ {
			f := append([]byte(nil), b.ct...)
			for e := 1 + t.R.Intn(4); e > 0 && len(f) > 0; e-- {
				i := t.R.Intn(len(f))
				if t.R.Intn(3) == 0 {
					i = len(f) - 1 - t.R.Intn(min(len(f), 200))
				}
				j := min(len(f), i+t.R.Intn(1+t.R.Intn(100)))
				switch t.R.Intn(5) {
				case 0:
					f[i] ^= 1 << t.R.Intn(8)
				case 1:
					f = splice(f, i, j, nil)
				case 2:
					f = splice(f, i, i, randBytes(t.R, 1+t.R.Intn(40)))
				case 3:
					f = splice(f, i, i, f[i:j])
				case 4:
					f = splice(f, i, j, randBytes(t.R, j-i))
				}
			}
			t.attack(b, f, "random edit")
		}
	})
}

// perms calls f with all orders of up to 4 elements, with pairwise swaps and
// rotations of more.
func perms(n int, f func([]int)) {
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	if n <= 4 {
		var rec func(k int)
		rec = func(k int) {
			if k == n {
				f(append([]int(nil), id...))
				return
			}
			for i := k; i < n; i++ {
				id[k], id[i] = id[i], id[k]
				rec(k + 1)
				id[k], id[i] = id[i], id[k]
			}
		}
		rec(0)
		return
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			p := append([]int(nil), id...)
			p[i], p[j] = p[j], p[i]
			f(p)
		}
	}
	for k := 1; k < n; k++ {
		f(append(append([]int(nil), id[k:]...), id[:k]...))
	}
}
