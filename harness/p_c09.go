package main

import (
	"bytes"
	"fmt"

	"github.com/opencoff/sigtool/sign"
)

// C09: exactly the listed recipients can decrypt
func init() {
	register("C09", &Prop{MinEval: 100,
		Rule: "random recipient sets (1..40, with duplicates, native and OpenSSH keys, sender among them or not) and outsiders incl. the sender, keys differing from a recipient in one bit of the seed, and listed-elsewhere keys; every listed key must decrypt through bulk and stream, every other key must be refused and obtain nothing. Distinct: (set size, position, interface) and outsider kinds seen.",
		Run:  runC09})
}

func runC09(c *Ctx) {
	c.Cases("sets", c.n(250, 6000), func(t *T) {
		nr := 1 + t.R.Intn(1+t.R.Intn(24))
		uni := t.newKeys(nr)
		// a recipient that loaded its key from OpenSSH files must be the same
		if t.R.Intn(3) == 0 {
			i := t.R.Intn(nr)
			pk, err := sign.MakePublicKey([]byte(sshPubLine(uni[i].PK, "some body@host")))
			if err != nil {
				t.Failf("OpenSSH public key refused: %v", err)
			}
			uni[i].pk = pk
		}
		rx := append([]*Key(nil), uni...)
		for t.R.Intn(3) == 0 {
			rx = append(rx, uni[t.R.Intn(nr)])
		}
		t.R.Shuffle(len(rx), func(i, j int) { rx[i], rx[j] = rx[j], rx[i] })
		var sender *Key
		sIsRx := false
		if t.R.Intn(2) == 0 {
			sender = t.newKey()
			if t.R.Intn(3) == 0 {
				sender = uni[t.R.Intn(nr)]
				sIsRx = true
			}
		}
		pt := patterned(t.R, 1+t.R.Intn(600))
		o := encOpt{rx: rx, blk: uint64(1 + t.R.Intn(300)), stream: t.R.Intn(2) == 0, sender: sender}
		ct := t.encrypt(o, pt)
		t.Set("recipients", len(rx))
		t.Set("distinct", nr)
		var spk *sign.PublicKey
		if sender != nil {
			spk = sender.pk
		}
		// who is in the file, according to an independent reader
		h, err := refParseHdr(ct)
		if err != nil {
			t.Failf("header unreadable: %v", err)
		}
		if len(h.Keys) != len(rx) {
			t.Failf("%d wrapped keys for %d recipients", len(h.Keys), len(rx))
		}
		for i, k := range uni {
			for _, st := range []bool{false, true} {
				got, _, err := t.decrypt(decOpt{sk: k.sk, sender: spk, stream: st}, ct)
				if err != nil {
					t.Failf("recipient %d of %d refused: %v", i, nr, err)
				}
				if s := diffBytes(got, pt); s != "" {
					t.Failf("recipient %d of %d: %s", i, nr, s)
				}
				t.Count("recipient_decryptions", 1)
				t.Seen("rx%d/%d/%v", i, nr, st)
			}
			// each key opens exactly its own slots
			slots := 0
			for _, w := range h.Keys {
				if refUnwrap(h, w, k.RefKey) != nil {
					slots++
				}
			}
			want := 0
			for _, x := range rx {
				if x == k {
					want++
				}
			}
			if slots != want {
				t.Failf("recipient %d opens %d slots, listed %d times", i, slots, want)
			}
		}
		outs := map[string]*Key{"stranger": t.newKey()}
		if sender != nil && !sIsRx {
			outs["sender"] = sender
		}
		near := append([]byte(nil), uni[0].SK[:32]...)
		near[t.R.Intn(32)] ^= 1 << t.R.Intn(8)
		outs["near"] = t.loadKey(refKeyFromSeed(near))
		for kind, k := range outs {
			for _, snd := range []*sign.PublicKey{spk, nil, k.pk} {
				st := t.R.Intn(2) == 0
				got, _, err := t.decrypt(decOpt{sk: k.sk, sender: snd, stream: st}, ct)
				if err == nil || len(got) > 0 {
					t.Failf("%s (not a recipient) got %d bytes, error %v", kind, len(got), err)
				}
				t.Count("outsiders_refused", 1)
				t.Seen("out %s %v", kind, st)
			}
		}
		t.Sample(map[string]any{"recipients": len(rx), "distinct": nr, "sender": sender != nil, "len": len(pt)})
	})
	// every place in a long list
	long := []int{3, 10, 100, 300, 700, 1300}
	c.Cases("places", c.n(40, 4500), func(t *T) {
		n := long[t.idx%len(long)]
		k, s := t.newKey(), t.newKey()
		f := newRefFile(t.R, 100, nil)
		d := decOpt{sk: k.sk, stream: t.R.Intn(2) == 0}
		if t.R.Intn(2) == 0 {
			f = newRefFile(t.R, 100, s.RefKey)
			d.sender = s.pk
		}
		own := f.wrapFor(t.R, k.PK)
		for i := 0; i < n; i++ {
			f.Keys = append(f.Keys, RefWrap{randBytes(t.R, 48), randBytes(t.R, 12)})
		}
		hdr := f.encode()
		// without ours, the file is not for us
		ct, tr := f.body(t.R, hdr, [][]byte{[]byte("hidden")})
		if got, _, err := t.decrypt(d, append(append(hdr, ct...), tr...)); err == nil || len(got) > 0 {
			t.Failf("a stranger got %d bytes from a file with %d recipients", len(got), n)
		}
		t.Count("outsiders_refused", 1)
		for j := 0; j < 4; j++ {
			at := t.R.Intn(n)
			keep := f.Keys[at]
			f.Keys[at] = own
			hdr := f.encode()
			ct, tr := f.body(t.R, hdr, [][]byte{[]byte("hidden")})
			got, auth, err := t.decrypt(d, append(append(hdr, ct...), tr...))
			if err != nil || string(got) != "hidden" {
				t.Failf("recipient %d of %d refused: %v", at, n, err)
			}
			if auth != (d.sender != nil) {
				t.Failf("recipient %d of %d: authenticated %v", at, n, auth)
			}
			f.Keys[at] = keep
			t.Count("recipient_decryptions", 1)
			t.Seen("place %d/%d", at, n)
		}
	})
	// up to as many recipients as the header can hold
	many := []int{127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 2049, 4095, 4097, 5001, 8193, 10001, 12345, 15000}
	c.Cases("many", len(many)*c.n(1, 4), func(t *T) {
		n := many[t.idx%len(many)]
		uni := t.newKeys(4)
		fill := t.newKey()
		rx := make([]*Key, n)
		for i := range rx {
			rx[i] = fill
		}
		pos := []int{0, n - 1, n / 2, t.R.Intn(n)}
		for i, p := range pos {
			rx[p] = uni[i]
		}
		var sender *Key
		var spk *sign.PublicKey
		if t.idx%2 == 0 {
			sender = t.newKey()
			spk = sender.pk
		}
		ct := t.encrypt(encOpt{rx: rx, blk: 100, sender: sender}, []byte("many recipients"))
		for i, p := range pos {
			if rx[p] != uni[i] {
				continue
			}
			got, _, err := t.decrypt(decOpt{sk: uni[i].sk, sender: spk, stream: t.R.Intn(2) == 0}, ct)
			if err != nil || string(got) != "many recipients" {
				t.Failf("recipient at position %d of %d refused: %v", p, n, err)
			}
			t.Count("recipient_decryptions", 1)
			t.Seen("many %d/%d", n, i)
		}
		if got, _, err := t.decrypt(decOpt{sk: t.newKey().sk, sender: spk}, ct); err == nil || len(got) > 0 {
			t.Failf("stranger got %d bytes from a file with %d recipients", len(got), n)
		}
		t.Count("outsiders_refused", 1)
	})
	// the same through the program, including after a failed attempt
	c.casesN("cli", c.n(10, 120), 8, func(t *T) {
		nr := 1 + t.R.Intn(5)
		if t.idx%3 == 2 {
			nr = pick(t.R, 33, 65, 66, 129, 200, 257)
		}
		var args []string
		var ks []*RefKey
		for i := 0; i < nr; i++ {
			k := refKey(t.R)
			ks = append(ks, k)
			sk, pk := t.writeKey(fmt.Sprintf("r%d", i), k, "", "")
			_ = sk
			args = append(args, pk)
		}
		out := refKey(t.R)
		osk, _ := t.writeKey("out", out, "", "")
		pt := patterned(t.R, t.R.Intn(4000))
		in := t.write("in", pt, 0644)
		a := append(append([]string{"encrypt", "-o", t.Path("ct")}, args...), in)
		t.OK(Run{Args: a})
		ct := mustRead(t.Path("ct"))
		for i, k := range ks {
			if o, err := refOpen(ct, k, nil); err != nil || !bytes.Equal(o.PT, pt) {
				t.Failf("recipient %d of %d can't decrypt what the command made: %v", i, nr, err)
			}
			if i > 5 && i < nr-2 && t.R.Intn(16) > 0 {
				continue
			}
			x := t.OK(Run{Args: []string{"decrypt", "--no-password", t.Path(fmt.Sprintf("r%d.key", i)), t.Path("ct")}})
			if s := diffBytes(x.Out, pt); s != "" {
				t.Failf("recipient %d of %d: %s", i, nr, s)
			}
			t.Seen("cli%d/%d", i, nr)
		}
		x := t.CLI(Run{Args: []string{"decrypt", "--no-password", "-o", t.Path("stolen"), osk, t.Path("ct")}})
		if x.Code == 0 || exists(t.Path("stolen")) || len(x.Out) > 0 {
			t.Failf("outsider: %v (file created: %v)", x, exists(t.Path("stolen")))
		}
	})
}

func refUnwrap(h *RefHdr, w RefWrap, k *RefKey) []byte {
	sh, err := x25519(refSKToX(k.SK), h.Pk)
	if err != nil || len(w.Nonce) == 0 {
		return nil
	}
	kek := wrapKEK(sh, h.Salt, w.Nonce)
	root, err := gcm(kek[:32]).Open(nil, kek[32:], w.DKey, k.PK)
	if err != nil {
		return nil
	}
	return root
}
