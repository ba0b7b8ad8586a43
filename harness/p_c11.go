package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/opencoff/sigtool/sign"
)

// C11: sender authentication, also against fellow recipients
func init() {
	register("C11", &Prop{MinEval: 200,
		Rule: "files made by the code under test (and by the reference) for a victim and a malicious fellow recipient; the insider, who knows the file key, forges with the reference implementation: other content, cut, extended, reordered, re-chunked content under the original or rebuilt header, every kind of trailer, replaced, stripped or odd-sized sender blocks, stolen sender blocks, and unsigned files. The victim names the sender, another sender or none, through bulk, stream and the decrypt command. Distinct: (forgery kind, shape) combinations the victim judged.",
		Run:  runC11})
}

// forge describes a file an insider made
type forgery struct {
	kind string
	file []byte
}

// forgeries makes all an insider with o.Root can make from file ct.
func forgeries(t *T, ct []byte, o *RefOpen, victim, insider, sender *RefKey, otherBySender []byte) (r []forgery) {
	add := func(kind string, f []byte) {
		if !bytes.Equal(f, ct) {
			r = append(r, forgery{kind, f})
		}
	}
	h := *o.RefHdr
	blk := int(h.Chunk)
	oo, err := refOpen(otherBySender, insider, sender.PK)
	if err != nil {
		t.Failf("reference reader: %v", err)
	}
	rf := &RefFile{RefHdr: h, Root: o.Root}
	// trailers an insider can come up with
	trailers := func(hk []byte, chunks [][]byte) map[string][]byte {
		mac := chunkMac(hk, chunks)
		return map[string][]byte{
			"original":     o.Trailer,
			"by insider":   refSignMsg(insider.SK, mac),
			"by victim":    nil,
			"zero":         make([]byte, 64),
			"random":       randBytes(t.R, 64),
			"other file's": oo.Trailer,
			"sender block": o.SenderSig,
			"empty":        {},
		}
	}
	seal := func(hdr []byte, chunks [][]byte) ([]byte, []byte) {
		nonce, dk, hk := dataKeys(o.Root, hdr[len(hdr)-32:])
		b := append([]byte(nil), hdr...)
		for i, c := range chunks {
			b = append(b, sealChunk(dk, nonce, uint32(i), c, i == len(chunks)-1)...)
		}
		return b, hk
	}
	contents := map[string][][]byte{}
	ch := o.Chunks
	contents["same"] = ch
	contents["other"] = splitChunks(append([]byte("attack!"), o.PT...), blk)
	fl := append([]byte(nil), o.PT...)
	if len(fl) > 0 {
		fl[t.R.Intn(len(fl))] ^= 1 << t.R.Intn(8)
		contents["bit flipped"] = splitChunks(fl, blk)
		contents["last byte cut"] = splitChunks(o.PT[:len(o.PT)-1], blk)
		// same text, other chunk boundaries
		if len(o.PT) > 1 {
			k := 1 + t.R.Intn(min(len(o.PT)-1, blk))
			contents["re-chunked"] = append([][]byte{o.PT[:k]}, splitChunks(o.PT[k:], blk)...)
		}
	}
	contents["empty"] = [][]byte{{}}
	contents["byte appended"] = splitChunks(append(append([]byte(nil), o.PT...), 'x'), blk)
	contents["empty chunk appended"] = append(append([][]byte(nil), ch...), []byte{})
	if len(ch) > 1 {
		contents["last chunk cut"] = ch[:len(ch)-1]
		contents["first chunk only"] = ch[:1]
		rev := append([][]byte(nil), ch...)
		i, j := 0, 1
		if len(rev) > 2 {
			i = t.R.Intn(len(rev) - 1)
			j = i + 1
		}
		rev[i], rev[j] = rev[j], rev[i]
		contents["chunks swapped"] = rev
	}
	contents["chunk doubled"] = append([][]byte{ch[0]}, ch...)
	hdrs := map[string][]byte{"original": h.Raw}
	mod := func(name string, f func(h *RefHdr)) {
		x := h
		x.Keys = append([]RefWrap(nil), h.Keys...)
		f(&x)
		hdrs[name] = x.encode()
	}
	// which slot is the victim's?
	vi := -1
	for i, w := range h.Keys {
		if refUnwrap(&h, w, victim) != nil {
			vi = i
		}
	}
	mod("victim only", func(h *RefHdr) { h.Keys = []RefWrap{h.Keys[vi]} })
	mod("keys doubled", func(h *RefHdr) { h.Keys = append(h.Keys, h.Keys...) })
	mod("bigger blocks", func(h *RefHdr) { h.Chunk += 100 })
	mod("sender stripped", func(h *RefHdr) { h.Sender = rf.sealSender(make([]byte, 64)) })
	mod("sender is insider", func(h *RefHdr) {
		h.Sender = rf.sealSender(refSignMsg(insider.SK, senderDigest(h.Pk, h.Salt, o.Root)))
	})
	mod("sender block of other file", func(h *RefHdr) { h.Sender = rf.sealSender(oo.SenderSig) })
	for _, n := range []int{0, 1, 16, 63, 65, 128} {
		mod(fmt.Sprintf("sender block of %d zeros", n), func(h *RefHdr) { h.Sender = rf.sealSender(make([]byte, n)) })
	}
	mod("sender block cut", func(h *RefHdr) { h.Sender = rf.sealSender(o.SenderSig[:63]) })
	mod("sender block extended", func(h *RefHdr) { h.Sender = rf.sealSender(append(append([]byte(nil), o.SenderSig...), 0)) })
	mod("trailer as sender block", func(h *RefHdr) { h.Sender = rf.sealSender(o.Trailer) })
	mod("sender block missing", func(h *RefHdr) { h.Sender = nil })
	mod("sender block random", func(h *RefHdr) { h.Sender = randBytes(t.R, 80) })
	for _, hn := range sortedKeys(hdrs) {
		hdr := hdrs[hn]
		for _, cn := range sortedKeys(contents) {
			cs := contents[cn]
			if hn == "original" && cn == "same" {
				// only the trailer changes
			} else if hn != "original" && cn != "same" && cn != "other" && cn != "empty" {
				continue
			}
			body, hk := seal(hdr, cs)
			trs := trailers(hk, cs)
			for _, tn := range sortedKeys(trs) {
				tr := trs[tn]
				if tn == "by victim" {
					tr = refSignMsg(victim.SK, chunkMac(hk, cs))
				}
				add("header "+hn+", content "+cn+", trailer "+tn, append(append([]byte(nil), body...), tr...))
			}
		}
	}
	// body without AEAD at the end (cut short at a boundary)
	for i := range o.Frames {
		f := append(append([]byte(nil), ct[:o.Frames[i].off]...), 0x80, 0, 0, 0)
		add("cut at a boundary with a bare end mark", append(f, o.Trailer...))
		add("cut at a boundary with a bare end mark", append(append(f[:len(f):len(f)], make([]byte, 16)...), o.Trailer...))
	}
	// a whole new file by the insider
	for _, sg := range []*RefKey{nil, insider} {
		nf := newRefFile(t.R, h.Chunk, sg)
		nf.addRx(t.R, victim.PK)
		name := "fresh file, unsigned"
		if sg != nil {
			name = "fresh file, signed by insider"
		}
		add(name, nf.Encrypt(t.R, o.PT))
		// with the stolen sender signature
		nf.Sender = nf.sealSender(o.SenderSig)
		add(name+", stolen sender block", nf.Encrypt(t.R, o.PT))
		// everything the sender's signature covers but the key exchange is reused
		nf = newRefFile(t.R, h.Chunk, sg)
		nf.Salt, nf.Root = h.Salt, o.Root
		nf.Sender = nf.sealSender(o.SenderSig)
		nf.addRx(t.R, victim.PK)
		add(name+", file key and salt reused", nf.Encrypt(t.R, o.PT))
		nf = newRefFile(t.R, h.Chunk, sg)
		nf.Root = o.Root
		nf.Sender = nf.sealSender(o.SenderSig)
		nf.addRx(t.R, victim.PK)
		add(name+", file key reused", nf.Encrypt(t.R, o.PT))
	}
	return
}

func runC11(c *Ctx) {
	c.Cases("insider", c.n(60, 2500), func(t *T) {
		victim, insider, sender, other := t.newKey(), t.newKey(), t.newKey(), t.newKey()
		blk := 1 + t.R.Intn(60)
		n := pick(t.R, 0, blk-1, blk, blk+1, 2*blk, t.R.Intn(5*blk))
		pt := patterned(t.R, n)
		rx := []*Key{victim, insider}
		if t.R.Intn(2) == 0 {
			rx = []*Key{insider, victim}
		}
		if t.R.Intn(3) == 0 {
			rx = append(rx, other)
		}
		o := encOpt{rx: rx, blk: uint64(blk), sender: sender, stream: t.R.Intn(2) == 0}
		ct := t.encrypt(o, pt)
		ot := t.encrypt(o, patterned(t.R, n))
		op, err := refOpen(ct, insider.RefKey, sender.PK)
		if err != nil {
			t.Failf("reference reader refuses a signed file: %v", err)
		}
		if !op.Signed {
			t.Failf("sender information missing")
		}
		// the honest file
		for _, st := range []bool{false, true} {
			got, auth, err := t.decrypt(decOpt{sk: victim.sk, sender: sender.pk, stream: st}, ct)
			if err != nil {
				t.Failf("genuine file from the named sender refused: %v", err)
			}
			if !auth {
				t.Failf("genuine file not reported as authenticated")
			}
			if s := diffBytes(got, pt); s != "" {
				t.Failf("%s", s)
			}
			// other sender, none, the recipients themselves
			for who, p := range map[string]*sign.PublicKey{"another key": other.pk, "nobody": nil, "the insider": insider.pk, "the victim": victim.pk} {
				got, auth, err := t.decrypt(decOpt{sk: victim.sk, sender: p, stream: st}, ct)
				if err == nil || len(got) > 0 {
					t.Failf("signed file accepted although %s was named as sender (%d bytes)", who, len(got))
				}
				if auth {
					t.Failf("reported as authenticated although %s was named", who)
				}
				t.Count("wrong_sender_refused", 1)
			}
		}
		t.Set("blk", blk)
		t.Set("len", n)
		fs := forgeries(t, ct, op, victim.RefKey, insider.RefKey, sender.RefKey, ot)
		t.R.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		for _, f := range fs {
			for _, st := range []bool{false, true} {
				got, _, err := t.decrypt(decOpt{sk: victim.sk, sender: sender.pk, stream: st}, f.file)
				if err == nil {
					t.Failf("forged file accepted as coming from the sender: %s (stream %v, %d bytes)", f.kind, st, len(got))
				}
				t.Count("forgeries_refused", 1)
			}
			t.Seen("%s/%d/%d", f.kind, n, blk)
			// nobody named: never reported as authenticated
			got, auth, err := t.decrypt(decOpt{sk: victim.sk, stream: t.R.Intn(2) == 0}, f.file)
			if auth {
				t.Failf("reported as authenticated without a named sender: %s (%d bytes, %v)", f.kind, len(got), err)
			}
		}
		// two steps: a failed verification must not be remembered as success
		for _, f := range fs[:min(len(fs), 40)] {
			d, err := sign.NewDecryptor(bytes.NewReader(f.file))
			if err != nil {
				continue
			}
			err1 := d.SetPrivateKey(victim.sk, sender.pk)
			if err1 == nil {
				// the content will be refused, whatever is refused before that
				for k := t.R.Intn(4); k > 0; k-- {
					var err error
					switch t.R.Intn(4) {
					case 0:
						err = d.SetPrivateKey(other.sk, sender.pk)
					case 1:
						err = d.SetPrivateKey(victim.sk, other.pk)
					case 2:
						err = d.SetPrivateKey(victim.sk, nil)
					case 3:
						err = d.SetPrivateKey(sender.sk, nil)
					}
					if err == nil && len(rx) == 2 {
						t.Failf("wrong key or sender accepted: %s", f.kind)
					}
				}
				if t.R.Intn(2) == 0 {
					var dst Dst
					if err := d.Decrypt(&dst); err == nil {
						t.Failf("forged file accepted after refused calls: %s", f.kind)
					}
				} else if r, err := d.NewStreamReader(); err == nil {
					if _, err := io.ReadAll(r); err == nil {
						t.Failf("forged file accepted as a stream after refused calls: %s", f.kind)
					}
				}
				t.Count("two_step_content", 1)
				continue
			}
			if d.AuthenticatedSender() {
				t.Failf("reported as authenticated after refusing the sender: %s", f.kind)
			}
			var dst Dst
			if err := d.Decrypt(&dst); err == nil || dst.total > 0 {
				t.Failf("decrypts after refusing the sender: %s", f.kind)
			}
			if _, err := d.NewStreamReader(); err == nil {
				t.Failf("streams after refusing the sender: %s", f.kind)
			}
			t.Count("two_step", 1)
		}
		t.Sample(map[string]any{"len": n, "blk": blk, "forgeries": len(fs), "example": fs[t.R.Intn(len(fs))].kind})
	})
	// every place of files of all scales: an insider alters one chunk and keeps the rest
	type scale struct {
		n, blk int
		every  bool // every byte or every chunk, not just samples
	}
	scales := []scale{{5000, 5000, true}, {5000, 4096, true}, {1300 * 7, 7, true}, {3 << 20, 1 << 20, false}, {9 << 20, 8 << 20, false},
		{70000, 1, false}, {66000 * 3, 3, false}, {200000, 65536, false}, {600000, 262144, false}, {40000, 16, false}}
	c.casesN("places", c.n(10, 40), 4, func(t *T) {
		sc := scales[t.idx%len(scales)]
		victim, insider, sender := t.newKey(), t.newKey(), t.newKey()
		pt := patterned(t.R, sc.n-t.R.Intn(2))
		ct := t.encrypt(encOpt{rx: []*Key{victim, insider}, blk: uint64(sc.blk), sender: sender, stream: t.idx/len(scales)%2 == 1}, pt)
		op, err := refOpen(ct, insider.RefKey, sender.PK)
		if err != nil {
			t.Failf("reference reader refuses a signed file: %v", err)
		}
		t.Set("len", len(pt))
		t.Set("blk", sc.blk)
		nonce, dk, _ := dataKeys(op.Root, op.Raw[len(op.Raw)-32:])
		nc := len(op.Chunks)
		try := func(kind string, ci int, c []byte) {
			off := op.Frames[ci].off
			end := len(ct) - 64
			if ci+1 < nc {
				end = op.Frames[ci+1].off
			}
			f := append(append([]byte(nil), ct[:off]...), sealChunk(dk, nonce, uint32(ci), c, ci == nc-1)...)
			f = append(f, ct[end:]...)
			got, _, err := t.decrypt(decOpt{sk: victim.sk, sender: sender.pk, stream: t.R.Intn(2) == 0, rseg: func() int { return min(2*sc.blk+1, 65536) }}, f)
			if err == nil {
				t.Failf("forged file accepted as coming from the sender: %s in chunk %d of %d (%d bytes)", kind, ci, nc, len(got))
			}
			t.Count("forgeries_refused", 1)
		}
		flip := func(ci, at int) {
			if at < 0 || at >= len(op.Chunks[ci]) {
				return
			}
			c := append([]byte(nil), op.Chunks[ci]...)
			c[at] ^= 1 << t.R.Intn(8)
			try(fmt.Sprintf("byte %d altered", at), ci, c)
			t.Seen("%d/%d byte %d of chunk %d", sc.n, sc.blk, at, ci)
		}
		chunks := []int{0, 1, 2, 3, 7, 8, 15, 16, 31, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 2047, 4095, 4096, 32767, 32768, 65535, 65536, 65537, nc - 3, nc - 2, nc - 1}
		offs := []int{0, 1, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 131072, 262143, 524288, 1<<20 - 1, 1 << 20, 4 << 20, 1 << 22, sc.blk - 1, sc.blk / 2, t.R.Intn(sc.blk)}
		switch {
		case sc.every && nc <= 2:
			for ci := range op.Chunks {
				for at := range op.Chunks[ci] {
					flip(ci, at)
				}
			}
		case sc.every:
			for ci := range op.Chunks {
				flip(ci, t.R.Intn(len(op.Chunks[ci])+1))
			}
		default:
			t.R.Shuffle(len(chunks), func(i, j int) { chunks[i], chunks[j] = chunks[j], chunks[i] })
			if !c.thorough() {
				chunks = chunks[:14]
			}
			for k := 0; k < 3; k++ {
				chunks = append(chunks, t.R.Intn(nc))
			}
			if nc < 12 {
				chunks = nil
				for ci := 0; ci < nc; ci++ {
					chunks = append(chunks, ci)
				}
			}
			seen := map[int]bool{}
			for _, ci := range chunks {
				if ci < 0 || ci >= nc || seen[ci] || len(op.Chunks[ci]) == 0 {
					continue
				}
				seen[ci] = true
				if nc > 12 {
					flip(ci, t.R.Intn(len(op.Chunks[ci])))
				} else {
					for _, at := range offs {
						flip(ci, at)
					}
					flip(ci, len(op.Chunks[ci])-1)
				}
				c := op.Chunks[ci]
				if len(c) > 1 {
					try("shortened", ci, c[:len(c)-1])
				}
				if len(c) < sc.blk {
					try("extended", ci, append(append([]byte(nil), c...), 0))
				}
			}
		}
	})
	// any number of recipients
	crowd := []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 512, 513, 1000, 1024, 2000, 5000}
	c.Cases("crowds", c.n(2, 20)*len(crowd), func(t *T) {
		n := crowd[t.idx%len(crowd)]
		victim, sender, other, fill := t.newKey(), t.newKey(), t.newKey(), t.newKey()
		rx := make([]*Key, n)
		for i := range rx {
			rx[i] = fill
		}
		rx[t.R.Intn(n)] = victim
		pt := patterned(t.R, t.R.Intn(300))
		signed := t.encrypt(encOpt{rx: rx, blk: 100, sender: sender, stream: t.R.Intn(2) == 0}, pt)
		plain := t.encrypt(encOpt{rx: rx, blk: 100, stream: t.R.Intn(2) == 0}, pt)
		for _, st := range []bool{false, true} {
			got, auth, err := t.decrypt(decOpt{sk: victim.sk, sender: sender.pk, stream: st}, signed)
			if err != nil || !auth || !bytes.Equal(got, pt) {
				t.Failf("%d recipients: genuine file from the named sender: error %v, authenticated %v", n, err, auth)
			}
			got, auth, err = t.decrypt(decOpt{sk: victim.sk, stream: st}, plain)
			if err != nil || auth || !bytes.Equal(got, pt) {
				t.Failf("%d recipients: unsigned file: error %v, authenticated %v", n, err, auth)
			}
			for who, p := range map[string]*sign.PublicKey{"another key": other.pk, "nobody": nil, "the recipient": victim.pk, "another recipient": fill.pk} {
				if got, auth, err := t.decrypt(decOpt{sk: victim.sk, sender: p, stream: st}, signed); err == nil || auth || len(got) > 0 {
					t.Failf("%d recipients: signed file accepted although %s was named as sender (%d bytes)", n, who, len(got))
				}
				if p == nil {
					continue
				}
				if got, auth, err := t.decrypt(decOpt{sk: victim.sk, sender: p, stream: st}, plain); err == nil || auth || len(got) > 0 {
					t.Failf("%d recipients: unsigned file accepted although %s was named as sender (%d bytes)", n, who, len(got))
				}
				t.Count("wrong_sender_refused", 2)
			}
		}
		t.Seen("crowd %d", n)
	})
	c.Cases("unsigned", c.n(100, 2000), func(t *T) {
		victim, sender := t.newKey(), t.newKey()
		blk := 1 + t.R.Intn(60)
		pt := patterned(t.R, t.R.Intn(3*blk))
		ct := t.encrypt(encOpt{rx: []*Key{victim}, blk: uint64(blk), stream: t.R.Intn(2) == 0}, pt)
		for _, st := range []bool{false, true} {
			got, auth, err := t.decrypt(decOpt{sk: victim.sk, stream: st}, ct)
			if err != nil {
				t.Failf("unsigned file refused: %v", err)
			}
			if auth {
				t.Failf("unsigned file reported as authenticated")
			}
			if s := diffBytes(got, pt); s != "" {
				t.Failf("%s", s)
			}
			for _, p := range []*sign.PublicKey{sender.pk, victim.pk} {
				got, auth, err := t.decrypt(decOpt{sk: victim.sk, sender: p, stream: st}, ct)
				if err == nil || auth || len(got) > 0 {
					t.Failf("unauthenticated file accepted although a sender was named (error %v, authenticated %v, %d bytes)", err, auth, len(got))
				}
				t.Seen("unsigned %v %d", st, len(pt))
			}
		}
	})
	// files signed by the reference implementation, signer varies
	c.Cases("signers", c.n(60, 1500), func(t *T) {
		victim, a, b := t.newKey(), t.newKey(), t.newKey()
		f := newRefFile(t.R, uint32(1+t.R.Intn(50)), a.RefKey)
		f.addRx(t.R, victim.PK)
		pt := patterned(t.R, t.R.Intn(200))
		ct := f.Encrypt(t.R, pt)
		got, auth, err := t.decrypt(decOpt{sk: victim.sk, sender: a.pk}, ct)
		if err != nil || !auth || !bytes.Equal(got, pt) {
			t.Failf("genuine file: error %v, authenticated %v", err, auth)
		}
		// header by a, content by b and the other way round
		for k := 0; k < 2; k++ {
			g := newRefFile(t.R, f.Chunk, a.RefKey)
			if k == 1 {
				g = newRefFile(t.R, f.Chunk, b.RefKey)
			}
			g.addRx(t.R, victim.PK)
			if k == 0 {
				g.Signer = b.RefKey
			} else {
				g.Signer = a.RefKey
			}
			x := g.Encrypt(t.R, pt)
			for _, p := range []*sign.PublicKey{a.pk, b.pk} {
				for _, st := range []bool{false, true} {
					if got, _, err := t.decrypt(decOpt{sk: victim.sk, sender: p, stream: st}, x); err == nil {
						t.Failf("header and content signed by different people accepted (%d, %d bytes)", k, len(got))
					}
					t.Seen("mixed %d %v %d", k, st, len(pt))
				}
			}
		}
	})
	c.casesN("cli", c.n(8, 60), 8, func(t *T) {
		victim, insider, sender := refKey(t.R), refKey(t.R), refKey(t.R)
		vk, vp := t.writeKey("victim", victim, "", "")
		_, ip := t.writeKey("insider", insider, "", "")
		sk, sp := t.writeKey("sender", sender, "", "")
		pt := patterned(t.R, 1+t.R.Intn(500))
		in := t.write("in", pt, 0644)
		enc := []string{"encrypt", "-B", "100", "-o", t.Path("ct"), vp, ip, in}
		t.OK(Run{Args: append([]string{"encrypt", "--no-password", "-s", sk}, enc[1:]...)})
		ct := mustRead(t.Path("ct"))
		op, err := refOpen(ct, insider, sender.PK)
		if err != nil {
			t.Failf("reference reader: %v", err)
		}
		x := t.OK(Run{Args: []string{"decrypt", "--no-password", "-v", sp, vk, t.Path("ct")}})
		if !bytes.Equal(x.Out, pt) {
			t.Failf("genuine file: %v", x)
		}
		bad := func(kind string, args ...string) {
			os := t.Path("out")
			x := t.CLI(Run{Args: append([]string{"decrypt", "--no-password", "-o", os}, args...)})
			if x.Code == 0 || exists(os) {
				t.Failf("%s: %v, output exists: %v", kind, x, exists(os))
			}
			x = t.CLI(Run{Args: append([]string{"decrypt", "--no-password", "-t"}, args...)})
			if x.Code == 0 {
				t.Failf("%s, test mode: %v", kind, x)
			}
			t.Seen("cli %s", kind)
			t.Count("cli_refused", 1)
		}
		bad("no sender named", vk, t.Path("ct"))
		bad("wrong sender named", "-v", ip, vk, t.Path("ct"))
		t.OK(Run{Args: append([]string{"encrypt", "--overwrite"}, enc[1:]...)})
		bad("unsigned file", "-v", sp, vk, t.Path("ct"))
		fs := forgeries(t, ct, op, victim, insider, sender, ct)
		for i := 0; i < 12; i++ {
			f := fs[t.R.Intn(len(fs))]
			fn := t.write("forged", f.file, 0644)
			bad(f.kind, "-v", sp, vk, fn)
		}
	})
}
