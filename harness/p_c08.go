package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/opencoff/sigtool/sign"
)

// C08: encrypt then decrypt is the identity
func init() {
	register("C08", &Prop{MinEval: 200,
		Rule: "plaintext lengths at and around multiples of the block size x block sizes 1..8 MiB x 1..16 recipients x sender or not x bulk/stream on either side x segmentation; plus block sizes up to and above the maximum, more than 65536 chunks, and recipient counts around the header limit. Distinct: (block size, length class, recipients, API pairing, sender) combinations that went all the way to a compared plaintext.",
		Run:  runC08})
}

func (t *T) roundtrip(o encOpt, pt []byte, decStream bool, who *Key) {
	t.Set("blk", o.blk)
	t.Set("len", len(pt))
	t.Set("rx", len(o.rx))
	t.Set("encStream", o.stream)
	t.Set("decStream", decStream)
	t.Set("sender", o.sender != nil)
	orig := append([]byte(nil), pt...)
	ct := t.encrypt(o, pt)
	if !bytes.Equal(orig, pt) {
		t.Failf("encryption changed the caller's plaintext")
	}
	d := decOpt{sk: who.sk, stream: decStream, max: len(pt) + 1}
	if o.sender != nil {
		d.sender = o.sender.pk
	}
	d.seg = segs(t.R, t.R.Intn(5))
	d.rseg = pick(t.R, nil, segs(t.R, 3), segs(t.R, 4))
	if len(ct) > 1<<20 {
		d.seg, d.rseg = nil, nil
	}
	got, _, err := t.decrypt(d, ct)
	if err != nil {
		t.Failf("a successful encryption can't be decrypted: %v", err)
	}
	if s := diffBytes(got, orig); s != "" {
		t.Failf("decrypted data differs: %s", s)
	}
	t.Count("roundtrips", 1)
	t.Count("plaintext_bytes", len(pt))
	t.Seen("%d/%d/%d/%v%v/%v", o.blk, len(pt), len(o.rx), o.stream, decStream, o.sender != nil)
}

func runC08(c *Ctx) {
	// complete matrix of small block sizes and boundary lengths
	type mx struct {
		blk, n int
		es, ds bool
		snd    bool
	}
	var m []mx
	for _, blk := range []int{1, 2, 3, 7, 16, 17, 63, 64, 255, 256, 1000, 4096, 65535, 65536} {
		for _, n := range boundaryLens(blk) {
			for k := 0; k < 8; k++ {
				m = append(m, mx{blk, n, k&1 != 0, k&2 != 0, k&4 != 0})
			}
		}
	}
	c.Cases("matrix", len(m), func(t *T) {
		x := m[t.idx]
		nr := 1
		if t.idx%5 == 0 {
			nr = 1 + t.R.Intn(5)
		}
		o := encOpt{rx: t.newKeys(nr), blk: uint64(x.blk), stream: x.es, seg: segs(t.R, t.R.Intn(5))}
		if x.snd {
			o.sender = t.newKey()
			if t.R.Intn(4) == 0 { // people also encrypt to themselves
				o.sender = o.rx[t.R.Intn(nr)]
			}
		}
		t.roundtrip(o, patterned(t.R, x.n), x.ds, o.rx[t.R.Intn(nr)])
		t.Sample(map[string]any{"blk": x.blk, "len": x.n, "enc_stream": x.es, "dec_stream": x.ds, "sender": x.snd, "recipients": nr})
	})
	c.Cases("random", c.n(400, 40000), func(t *T) {
		blk := 1 + t.R.Intn(1<<uint(1+t.R.Intn(17)))
		n := 0
		switch t.R.Intn(4) {
		case 0:
			n = t.R.Intn(3*blk + 2)
		case 1:
			n = blk * t.R.Intn(9)
		case 2:
			n = t.R.Intn(100000)
		case 3:
			n = blk*t.R.Intn(20) + t.R.Intn(3) - 1
		}
		n = max(0, min(n, 400000, blk*4000))
		nr := 1 + t.R.Intn(1+t.R.Intn(16))
		o := encOpt{rx: t.newKeys(nr), blk: uint64(blk), stream: t.R.Intn(2) == 0, seg: segs(t.R, t.R.Intn(5))}
		if n > 50000 {
			o.seg = segs(t.R, 3)
		}
		if t.R.Intn(2) == 0 {
			o.sender = t.newKey()
			if t.R.Intn(4) == 0 {
				o.sender = o.rx[t.R.Intn(nr)]
			}
		}
		t.roundtrip(o, patterned(t.R, n), t.R.Intn(2) == 0, o.rx[t.R.Intn(nr)])
	})
	// default and large block sizes, data of several blocks
	big := []struct {
		blk uint64
		n   int
	}{{0, 0}, {0, 4<<20 - 1}, {0, 4 << 20}, {0, 4<<20 + 1}, {0, 9 << 20}, {1 << 20, 3 << 20}, {8 << 20, 8<<20 + 5}, {128 << 10, 1 << 20},
		{1<<24 - 1, 1 << 24}, {1 << 24, 1<<24 + 1}, {1<<24 + 1, 1<<24 + 1}}
	c.casesN("large", len(big)*2, 4, func(t *T) {
		b := big[t.idx/2]
		o := encOpt{rx: t.newKeys(2), blk: b.blk, stream: t.idx%2 == 0, sender: t.newKey()}
		t.roundtrip(o, patterned(t.R, b.n), t.R.Intn(2) == 0, o.rx[1])
	})
	// one recipient after the other of the same file, every position
	c.Cases("everyone", c.n(12, 200), func(t *T) {
		nr := 1 + t.R.Intn(20)
		ks := t.newKeys(nr)
		pt := patterned(t.R, t.R.Intn(3000))
		o := encOpt{rx: ks, blk: uint64(1 + t.R.Intn(1000)), stream: t.R.Intn(2) == 0}
		ct := t.encrypt(o, pt)
		for i, k := range ks {
			for _, st := range []bool{false, true} {
				got, _, err := t.decrypt(decOpt{sk: k.sk, stream: st}, ct)
				if err != nil {
					t.Failf("recipient %d of %d can't decrypt: %v", i, nr, err)
				}
				if s := diffBytes(got, pt); s != "" {
					t.Failf("recipient %d of %d: %s", i, nr, s)
				}
				t.Count("roundtrips", 1)
			}
		}
		t.Seen("%d", nr)
	})
	// the same key listed several times
	c.Cases("duplicates", 8, func(t *T) {
		ks := t.newKeys(2)
		o := encOpt{rx: []*Key{ks[0], ks[0], ks[1], ks[0], ks[1]}[:2+t.idx%4], blk: 100}
		t.roundtrip(o, patterned(t.R, 250), t.idx%2 == 0, o.rx[len(o.rx)-1])
	})
	// more chunks than fit one and two counter bytes
	many := []struct {
		blk, n int
	}{{1, 300}, {1, 257}, {1, 256}, {1, 255}, {1, 65535}, {1, 65536}, {1, 65537}, {3, 200000}, {1, 140000}}
	if c.thorough() {
		many = append(many, struct{ blk, n int }{1, 1<<24 + 10})
	}
	n := len(many) * 2
	if !c.thorough() {
		n++
	}
	c.Cases("many-chunks", n, func(t *T) {
		x := struct{ blk, n int }{1, 1<<24 + 10}
		if t.idx < len(many)*2 {
			x = many[t.idx/2]
		}
		k := t.newKey()
		st := t.idx%2 == 0
		o := encOpt{rx: []*Key{k}, blk: uint64(x.blk), stream: st, sender: t.newKey()}
		pt := patterned(t.R, x.n)
		ct := t.encrypt(o, pt)
		got, _, err := t.decrypt(decOpt{sk: k.sk, sender: o.sender.pk, stream: !st}, ct)
		if err != nil {
			t.Failf("%d chunks of %d bytes: %v", x.n/x.blk, x.blk, err)
		}
		if s := diffBytes(got, pt); s != "" {
			t.Failf("%s", s)
		}
		t.Count("chunks", len(pt)/x.blk)
		t.Seen("%d/%d/%v", x.blk, x.n, st)
	})
	// nobody could decrypt a file without recipients
	c.Cases("nobody", 6, func(t *T) {
		o := encOpt{blk: 16, stream: t.idx%2 == 0}
		if t.idx%3 == 0 {
			o.sender = t.newKey()
		}
		pt := patterned(t.R, t.idx*10)
		d := &Dst{}
		if err := t.encryptTo(o, pt, d); err == nil {
			t.Failf("encryption to no recipient at all succeeded (%d bytes)", len(d.Bytes()))
		}
		t.Seen("nobody %d", t.idx)
	})
	// huge block sizes: accepted means decryptable
	huge := []uint64{1<<30 - 1, 1 << 30, 1<<30 + 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<63 + 1, ^uint64(0), 1 << 28}
	if !c.thorough() {
		huge = []uint64{1 << 30, 1 << 32, 1<<32 + 1, 1<<30 - 1, ^uint64(0)}
	}
	c.Serial("huge-blocks", len(huge), func(t *T) {
		k := t.newKey()
		o := encOpt{rx: []*Key{k}, blk: huge[t.idx], stream: t.idx%2 == 1}
		d := &Dst{}
		pt := patterned(t.R, 1000)
		if err := t.encryptTo(o, pt, d); err != nil {
			t.Seen("refused %d", o.blk) // refusing an absurd size is fine, as long as it is an error
			if o.blk <= 1<<30 {
				t.Failf("block size %d refused: %v", o.blk, err)
			}
			return
		}
		got, _, err := t.decrypt(decOpt{sk: k.sk, stream: t.idx%2 == 0, rseg: func() int { return 4096 }}, d.Bytes())
		if err != nil {
			t.Failf("encryption with block size %d succeeded, but decryption: %v", o.blk, err)
		}
		if s := diffBytes(got, pt); s != "" {
			t.Failf("block size %d: %s", o.blk, s)
		}
		t.Seen("%d", o.blk)
		t.Sample(map[string]any{"blk": fmt.Sprint(o.blk)})
	})
	// recipients around the limit of the header
	lim := []int{300, 5000, 15800, 16000}
	if c.thorough() {
		lim = append(lim, 15870, 15880, 15884, 15885, 15886, 15887, 15890, 15900, 20000, 40000)
	}
	c.casesN("header-limit", len(lim), 4, func(t *T) {
		n := lim[t.idx]
		first, last, fill := t.newKey(), t.newKey(), t.newKey()
		e, err := sign.NewEncryptor(nil, 64)
		if err != nil {
			t.Failf("%v", err)
		}
		added := 0
		for i := 0; i < n; i++ {
			k := fill
			if i == 0 {
				k = first
			} else if i == n-1 {
				k = last
			}
			if err := e.AddRecipient(k.pk); err != nil {
				t.Seen("refused at %d", i)
				if i < 5000 {
					t.Failf("recipient %d refused: %v", i, err)
				}
				return
			}
			added++
		}
		d := &Dst{}
		pt := []byte("hello, world")
		if err := e.Encrypt(bytes.NewReader(pt), d); err != nil {
			if n <= 5000 {
				t.Failf("%d recipients refused: %v", n, err)
			}
			t.Count("refused", 1)
			t.Seen("refused")
			return
		}
		for _, k := range []*Key{first, last} {
			dd, err := sign.NewDecryptor(bytes.NewReader(d.Bytes()))
			if err != nil {
				t.Failf("encryption to %d recipients succeeded, but decryption: %v", n, err)
			}
			if err = dd.SetPrivateKey(k.sk, nil); err != nil {
				t.Failf("encryption to %d recipients succeeded, but decryption: %v", n, err)
			}
			r, err := dd.NewStreamReader()
			if err != nil {
				t.Failf("%v", err)
			}
			if b, err := io.ReadAll(r); err != nil || !bytes.Equal(b, pt) {
				t.Failf("%d recipients: got %q, %v", n, b, err)
			}
		}
		t.Count("accepted", 1)
		t.Seen("%d", n)
	})
}
