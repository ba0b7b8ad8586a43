package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"

	"github.com/opencoff/sigtool/sign"
)

// C15: interoperability of the stored formats
func init() {
	register("C15", &Prop{MinEval: 300,
		Rule:   "every file of a golden corpus written by the base build read by the tool (library and command) and by an independent implementation; files, keys and signatures written by the tool read by the independent implementation, field by field, and the reverse; every other version number and altered magics, with everything else made consistent. Distinct: (direction, kind, block size, length class, recipients, sender, API).",
		Assume: []string{"the independent implementation (harness/ref.go) follows the format description in README.md and doc comments; it is itself checked against the golden corpus"},
		Run:    runC15})
}

type corpusEntry struct {
	File   string `json:"file"`
	Kind   string `json:"kind"`
	Key    []int  `json:"keys"`
	Sender int    `json:"sender"`
	Len    int    `json:"len"`
	Blk    uint64 `json:"blk"`
	Pw     string `json:"pw"`
	Cmt    string `json:"comment"`
}

// corpusData is the content all files of the corpus are about.
func corpusData(n int) []byte {
	var b []byte
	for i := 0; len(b) < n; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("corpus %d", i)))
		b = append(b, h[:]...)
	}
	return b[:n]
}

func runC15(c *Ctx) {
	dir := filepath.Join(c.Verif, "corpus")
	var es []corpusEntry
	must(json.Unmarshal(mustRead(filepath.Join(dir, "index.json")), &es))
	var privs, enc, rest []corpusEntry
	for _, e := range es {
		switch {
		case e.Kind == "private":
			privs = append(privs, e)
		case strings.HasPrefix(e.Kind, "encrypted"):
			enc = append(enc, e)
		default:
			rest = append(rest, e)
		}
	}
	// The keys of the corpus; they are also read by the code under test.
	keys := make([]*Key, len(privs))
	c.casesN("corpus-private", len(privs), 4, func(t *T) {
		e := privs[t.idx]
		b := mustRead(filepath.Join(dir, e.File))
		rk, y, err := refReadPriv(b, []byte(e.Pw))
		if err != nil {
			herr("corpus %s: %v", e.File, err)
		}
		if y.Comment != e.Cmt {
			herr("corpus %s: comment %q", e.File, y.Comment)
		}
		sk, err := sign.ReadPrivateKey(filepath.Join(dir, e.File), func() ([]byte, error) { return []byte(e.Pw), nil })
		if err != nil {
			t.Failf("private key %s written by the base build is refused: %v", e.File, err)
		}
		t.samePriv("private key written by the base build", sk, rk)
		keys[t.idx] = t.loadKey(rk)
		t.Count("corpus_files", 1)
		t.Seen("%s", e.File)
	})
	if c.Only != "" { // replay of a later group needs the keys all the same
		for i, e := range privs {
			rk, _, err := refReadPriv(mustRead(filepath.Join(dir, e.File)), []byte(e.Pw))
			must(err)
			keys[i] = (&T{c: c, R: newRand(c.Seed, i), info: map[string]any{}}).loadKey(rk)
		}
	}
	if c.stopped() {
		return
	}
	c.Cases("corpus-public", len(rest), func(t *T) {
		e := rest[t.idx]
		fn := filepath.Join(dir, e.File)
		b := mustRead(fn)
		k := keys[e.Key[0]]
		t.Count("corpus_files", 1)
		t.Seen("%s", e.File)
		switch e.Kind {
		case "public":
			rpk, y, err := refReadPub(b)
			if err != nil || !bytes.Equal(rpk, k.PK) || y.Comment != e.Cmt {
				herr("corpus %s: %v", e.File, err)
			}
			pk, err := sign.ReadPublicKey(fn)
			if err != nil {
				t.Failf("public key %s written by the base build is refused: %v", e.File, err)
			}
			t.samePub("public key written by the base build", pk, k.RefKey)
		case "signature":
			d := corpusData(e.Len)
			sg, h, cm, err := refReadSig(b)
			if err != nil || cm != e.Cmt || !bytes.Equal(h, refHash(k.PK)) || !refVerifyMsg(k.PK, refFileCksum(d), sg) {
				herr("corpus %s: %v", e.File, err)
			}
			s, err := sign.ReadSignature(fn)
			if err != nil {
				t.Failf("signature %s written by the base build is refused: %v", e.File, err)
			}
			f := t.write("data", d, 0644)
			for i, o := range keys {
				ok, err := o.pk.VerifyFile(f, s)
				if err != nil {
					t.Failf("%s: %v", e.File, err)
				}
				if want := i == e.Key[0]; ok != want || s.IsPKMatch(o.pk) != want {
					t.Failf("signature %s of the base build, key %d: verified %v, match %v, want %v", e.File, i, ok, s.IsPKMatch(o.pk), want)
				}
			}
		default:
			herr("corpus kind %q", e.Kind)
		}
	})
	c.Cases("corpus-encrypted", len(enc), func(t *T) {
		e := enc[t.idx]
		fn := filepath.Join(dir, e.File)
		b := mustRead(fn)
		want := corpusData(e.Len)
		t.Set("file", e.File)
		var spk []byte
		d := decOpt{max: e.Len + 1}
		if e.Sender >= 0 {
			d.sender = keys[e.Sender].pk
			spk = keys[e.Sender].PK
		}
		in := map[int]bool{}
		for _, k := range e.Key {
			in[k] = true
		}
		for i, k := range keys {
			o, rerr := refOpen(b, k.RefKey, spk)
			for _, st := range []bool{false, true} {
				d.sk, d.stream = k.sk, st
				got, auth, err := t.decrypt(d, b)
				if !in[i] {
					if err == nil {
						t.Failf("%s: opened by a key that is no recipient", e.File)
					}
					continue
				}
				if rerr != nil || !bytes.Equal(o.PT, want) {
					herr("corpus %s: %v", e.File, rerr)
				}
				if err != nil {
					t.Failf("%s (%s, %d bytes in blocks of %d) written by the base build can't be decrypted (stream=%v): %v", e.File, e.Kind, e.Len, e.Blk, st, err)
				}
				if s := diffBytes(got, want); s != "" {
					t.Failf("%s written by the base build: %s", e.File, s)
				}
				if auth != (e.Sender >= 0) {
					t.Failf("%s: authenticated sender %v, want %v", e.File, auth, e.Sender >= 0)
				}
				t.Count("corpus_decryptions", 1)
			}
		}
		t.Count("corpus_files", 1)
		t.Seen("%s", e.File)
		t.Sample(map[string]any{"file": e.File, "kind": e.Kind, "len": e.Len, "blk": e.Blk, "recipients": e.Key, "sender": e.Sender})
	})
	// some of them with the command
	c.Cases("corpus-command", c.n(16, len(enc)), func(t *T) {
		e := enc[(t.idx*7)%len(enc)]
		k := keys[e.Key[t.idx%len(e.Key)]]
		skf, _ := t.writeKey("rx", k.RefKey, "", "")
		args := []string{"decrypt", "--no-password"}
		if e.Sender >= 0 {
			args = append(args, "-v", t.write("snd.pub", refPubFile(keys[e.Sender].PK, ""), 0644))
		}
		r := t.OK(Run{Args: append(args, skf, filepath.Join(dir, e.File))})
		if s := diffBytes(r.Out, corpusData(e.Len)); s != "" {
			t.Failf("%s written by the base build, decrypt command: %s", e.File, s)
		}
		t.Seen("%s", e.File)
	})

	// what the tool writes, read strictly by the independent implementation
	c.Cases("tool-to-reference", c.n(400, 20000), func(t *T) {
		blk := []int{1, 5, 16, 64, 100, 1000, 4096, 65536}[t.idx%8]
		ls := boundaryLens(blk)
		n := min(ls[(t.idx/8)%len(ls)], 200000)
		nr := 1 + (t.idx/3)%5
		o := encOpt{rx: t.newKeys(nr), blk: uint64(blk), stream: t.idx%2 == 1, seg: segs(t.R, t.R.Intn(5))}
		if (t.idx/2)%2 == 1 {
			o.sender = t.newKey()
		}
		var spk []byte
		if o.sender != nil {
			spk = o.sender.PK
		}
		pt := patterned(t.R, n)
		ct := t.encrypt(o, pt)
		t.Set("blk", blk)
		t.Set("len", n)
		for i, k := range o.rx {
			r, err := refOpen(ct, k.RefKey, spk)
			if err != nil {
				t.Failf("file (%d bytes, blocks of %d, recipient %d of %d, sender %v, stream %v) is not readable by an implementation of the documented format: %v",
					n, blk, i, nr, o.sender != nil, o.stream, err)
			}
			if s := diffBytes(r.PT, pt); s != "" {
				t.Failf("read by an independent implementation: %s", s)
			}
			if r.Signed != (o.sender != nil) {
				t.Failf("sender signature present %v, want %v", r.Signed, o.sender != nil)
			}
			if len(r.Keys) != nr || r.Chunk != uint32(blk) || int(r.VarLen) != len(r.Var) {
				t.Failf("header says %d recipients, block size %d; want %d, %d", len(r.Keys), r.Chunk, nr, blk)
			}
			if len(r.Root) != 32 {
				t.Failf("file key of %d bytes", len(r.Root))
			}
			if i == 0 {
				t.Count("chunks_checked", len(r.Chunks))
				// all chunks but the last are full
				for j, x := range r.Chunks {
					if j < len(r.Chunks)-1 && len(x) != blk {
						t.Failf("chunk %d of %d has %d bytes, block size %d", j, len(r.Chunks), len(x), blk)
					}
				}
			}
		}
		t.Seen("%d/%d/%d/%v/%v", blk, n, nr, o.sender != nil, o.stream)
		t.Sample(map[string]any{"blk": blk, "len": n, "recipients": nr, "sender": o.sender != nil, "stream": o.stream})
	})
	// the largest block sizes, in both directions
	bigBlks := []uint32{1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28, 1<<28 + 1, 1<<29 + 7, 1<<30 - 1, 1 << 30}
	c.Serial("big-blocks", len(bigBlks)*c.n(2, 4), func(t *T) {
		blk := bigBlks[t.idx%len(bigBlks)]
		k, s := t.newKey(), t.newKey()
		pt := patterned(t.R, pick(t.R, 0, 1, 1000, 200000))
		t.Set("blk", blk)
		var snd *Key
		var sg *RefKey
		var spk []byte
		d := decOpt{sk: k.sk, stream: t.idx/len(bigBlks)%2 == 1}
		if t.R.Intn(2) == 0 {
			snd, sg, spk, d.sender = s, s.RefKey, s.PK, s.pk
		}
		f := newRefFile(t.R, blk, sg)
		f.addRx(t.R, k.PK)
		hdr := f.encode()
		ct, tr := f.body(t.R, hdr, [][]byte{pt})
		got, _, err := t.decrypt(d, append(append(hdr, ct...), tr...))
		if err != nil {
			t.Failf("file made by an independent implementation with blocks of %d bytes is refused: %v", blk, err)
		}
		if x := diffBytes(got, pt); x != "" {
			t.Failf("file made by an independent implementation with blocks of %d bytes: %s", blk, x)
		}
		mine := t.encrypt(encOpt{rx: []*Key{k}, sender: snd, blk: uint64(blk), stream: d.stream}, pt)
		r, err := refOpen(mine, k.RefKey, spk)
		if err != nil || r.Chunk != blk {
			t.Failf("file written with blocks of %d bytes is not readable by an implementation of the documented format: %v", blk, err)
		}
		if x := diffBytes(r.PT, pt); x != "" {
			t.Failf("file written with blocks of %d bytes: %s", blk, x)
		}
		got = nil
		debug.FreeOSMemory()
		t.Seen("big %d/%v/%v/%d", blk, d.stream, snd != nil, len(pt))
	})
	// what the independent implementation writes, read by the tool
	c.Cases("reference-to-tool", c.n(400, 20000), func(t *T) {
		blk := []int{1, 5, 16, 64, 100, 1000, 4096, 65536}[t.idx%8]
		ls := boundaryLens(blk)
		n := min(ls[(t.idx/8)%len(ls)], 200000)
		nr := 1 + (t.idx/3)%6
		rx := t.newKeys(nr)
		var snd *Key
		var sg *RefKey
		if (t.idx/2)%2 == 1 {
			snd = t.newKey()
			sg = snd.RefKey
		}
		f := newRefFile(t.R, uint32(blk), sg)
		for _, k := range rx {
			f.addRx(t.R, k.PK)
		}
		pt := patterned(t.R, n)
		ct := f.Encrypt(t.R, pt)
		d := decOpt{stream: t.idx%2 == 1, max: n + 1, seg: segs(t.R, t.R.Intn(5)), rseg: segs(t.R, t.R.Intn(5))}
		if len(pt) > 20000 {
			d.seg, d.rseg = nil, nil
		}
		if snd != nil {
			d.sender = snd.pk
		}
		for i, k := range rx {
			d.sk = k.sk
			got, auth, err := t.decrypt(d, ct)
			if err != nil {
				t.Failf("file made by an independent implementation (%d bytes, blocks of %d, recipient %d of %d, sender %v) is refused: %v", n, blk, i, nr, snd != nil, err)
			}
			if s := diffBytes(got, pt); s != "" {
				t.Failf("file made by an independent implementation: %s", s)
			}
			if auth != (snd != nil) {
				t.Failf("authenticated %v, want %v", auth, snd != nil)
			}
		}
		t.Seen("%d/%d/%d/%v/%v", blk, n, nr, snd != nil, d.stream)
	})
	// chunks need not be full for a reader: a writer may flush early
	c.Cases("reference-chunking", c.n(60, 2000), func(t *T) {
		k := t.newKey()
		f := newRefFile(t.R, 64, nil)
		if t.idx%2 == 1 {
			f.Signer = t.newKey().RefKey
			f.Sender = f.sealSender(f.senderSig())
		}
		f.addRx(t.R, k.PK)
		var chunks [][]byte
		var pt []byte
		for i := 0; i < 1+t.R.Intn(6); i++ {
			b := randBytes(t.R, 1+t.R.Intn(64))
			chunks = append(chunks, b)
			pt = append(pt, b...)
		}
		if t.R.Intn(2) == 0 {
			chunks = append(chunks, nil) // an empty last chunk
		}
		hdr := f.encode()
		ct, tr := f.body(t.R, hdr, chunks)
		file := append(append(append([]byte(nil), hdr...), ct...), tr...)
		d := decOpt{sk: k.sk, stream: t.R.Intn(2) == 0}
		if f.Signer != nil {
			d.sender = t.loadKey(f.Signer).pk
		}
		got, _, err := t.decrypt(d, file)
		if err != nil || !bytes.Equal(got, pt) {
			t.Failf("valid file with %d chunks of various sizes refused or altered: %v", len(chunks), err)
		}
		t.Seen("%d/%v", len(chunks), d.stream)
	})
	// keys and signatures, both directions
	c.Cases("keys-signatures", c.n(200, 5000), func(t *T) {
		k := t.newKey()
		cm := commentN(t, t.idx)
		b, err := k.pk.MarshalBinary(cm)
		if err != nil {
			t.Failf("%v", err)
		}
		rpk, y, err := refReadPub(b)
		if err != nil || !bytes.Equal(rpk, k.PK) || y.Comment != cm {
			t.Failf("public key file is not what the format documents: %v: %q", err, b)
		}
		pk, err := sign.MakePublicKey(refPubFile(k.PK, cm))
		if err != nil {
			t.Failf("public key file made by an independent implementation refused: %v", err)
		}
		t.samePub("public key made by an independent implementation", pk, k.RefKey)
		if pk, err = sign.MakePublicKeyFromString(b64(k.PK)); err != nil {
			t.Failf("base64 public key refused: %v", err)
		}
		t.samePub("base64 public key", pk, k.RefKey)

		d := patterned(t.R, t.R.Intn(5000))
		fn := t.write("data", d, 0644)
		sg, err := k.sk.SignFile(fn)
		if err != nil {
			t.Failf("%v", err)
		}
		sb, err := sg.MarshalBinary(cm)
		if err != nil {
			t.Failf("%v", err)
		}
		v, h, c2, err := refReadSig(sb)
		if err != nil || !bytes.Equal(h, refHash(k.PK)) || c2 != cm || !refVerifyMsg(k.PK, refFileCksum(d), v) {
			t.Failf("signature file is not what the format documents: %v: %q", err, sb)
		}
		var s sign.Signature
		if err := s.UnmarshalBinary(refSigFile(k.RefKey, refFileCksum(d), cm)); err != nil {
			t.Failf("signature made by an independent implementation refused: %v", err)
		}
		if ok, err := k.pk.VerifyFile(fn, &s); err != nil || !ok || !s.IsPKMatch(k.pk) {
			t.Failf("signature made by an independent implementation does not verify: %v", err)
		}
		t.Seen("%s/%d", commentClass(cm), len(d)%7)
	})
	// a signature of a file larger than 4 GiB, made elsewhere
	c.Cases("huge-file", 1, func(t *T) {
		k := t.newKey()
		fn := t.Path("huge")
		sparse(fn, hugeLen)
		defer os.Remove(fn)
		ok, err := k.pk.VerifyFile(fn, &sign.Signature{Sig: refSignMsg(k.SK, hugeCksum)})
		if err != nil || !ok {
			t.Failf("signature of a file of %d bytes, made by an independent implementation, refused: %v", int64(hugeLen), err)
		}
		t.Seen("huge")
	})
	// private keys written by the tool (expensive work parameters)
	c.casesN("private", c.n(3, 40), 3, func(t *T) {
		k := t.newKey()
		pw := [][]byte{nil, []byte("correct horse"), []byte("\x00\xff bin")}[t.idx%3]
		cm := commentN(t, t.idx+3)
		b, err := k.sk.MarshalBinary(cm, pw)
		if err != nil {
			t.Failf("%v", err)
		}
		rk, y, err := refReadPriv(b, pw)
		if err != nil || !bytes.Equal(rk.SK, k.SK) || y.Comment != cm {
			t.Failf("private key file is not what the format documents: %v", err)
		}
		if y.Algo != "scrypt-sha256" || len(unb64(y.Salt)) != 32 {
			t.Failf("private key file says algorithm %q, salt of %d bytes", y.Algo, len(unb64(y.Salt)))
		}
		t.Seen("%d", t.idx)
	})
	c.Cases("private-parameters", c.n(60, 600), func(t *T) {
		k := refKey(t.R)
		n, r, p := 2<<t.R.Intn(12), 1+t.R.Intn(10), 1+t.R.Intn(3)
		pw := hostilePw(t, t.idx)
		b := refPrivFile(k.SK, pw, commentN(t, t.idx), randBytes(t.R, pick(t.R, 12, 16, 32, 64)), n, r, p)
		sk, err := sign.MakePrivateKey(b, func() ([]byte, error) { return pw, nil })
		if err != nil {
			t.Failf("private key file (Z=%d r=%d p=%d) made by an independent implementation refused: %v", n, r, p, err)
		}
		t.samePriv("private key made by an independent implementation", sk, k)
		t.Seen("%d/%d/%d", n, r, p)
	})
	// other versions and magics, everything else consistent
	c.Cases("versions", 256, func(t *T) {
		if t.idx == 3 {
			return
		}
		k := t.newKey()
		var snd *Key
		f := newRefFile(t.R, 100, nil)
		if t.idx%2 == 1 {
			snd = t.newKey()
			f = newRefFile(t.R, 100, snd.RefKey)
		}
		f.addRx(t.R, k.PK)
		f.Magic, f.Version = "SigTool", byte(t.idx)
		t.refusedFormat(f, k, snd, fmt.Sprintf("version %d", t.idx))
	})
	magics := []string{"sigtool", "SIGTOOL", "SigTooL", "SigTool"[:6] + "\x00", "\x00igTool", "SigTopl", "PGPTool", "\x00\x00\x00\x00\x00\x00\x00", "SigT00l", "Sigtool"}
	c.Cases("magics", len(magics)+7*8, func(t *T) {
		m := "SigTool"
		if t.idx < len(magics) {
			m = magics[t.idx]
		} else {
			b := []byte(m)
			i := t.idx - len(magics)
			b[i/8] ^= 1 << (i % 8)
			m = string(b)
		}
		k := t.newKey()
		f := newRefFile(t.R, 100, nil)
		f.addRx(t.R, k.PK)
		f.Magic, f.Version = m, 3
		t.refusedFormat(f, k, nil, fmt.Sprintf("magic %q", m))
	})
}

// refusedFormat demands that file f, fine apart from its magic and version,
// is refused, and that it is fine with the right ones.
func (t *T) refusedFormat(f *RefFile, k, snd *Key, what string) {
	pt := patterned(t.R, 250)
	d := decOpt{sk: k.sk, stream: t.idx%2 == 0}
	if snd != nil {
		d.sender = snd.pk
	}
	got, _, err := t.decrypt(d, f.Encrypt(t.R, pt))
	if err == nil || len(got) > 0 {
		t.Failf("file with %s is accepted (%d bytes of plaintext, error %v)", what, len(got), err)
	}
	f.Magic, f.Version = "SigTool", 3
	if got, _, err = t.decrypt(d, f.Encrypt(t.R, pt)); err != nil || !bytes.Equal(got, pt) {
		t.Failf("the same file with the right magic and version is refused: %v", err)
	}
	t.Count("refused_formats", 1)
	t.Seen("%s", what)
}
