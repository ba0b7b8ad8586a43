package main

import (
	"bytes"
	"crypto/ed25519"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"time"

	"github.com/opencoff/sigtool/sign"
)

// C21: shared keys and independent contexts under concurrency
func init() {
	register("C21", &Prop{MinEval: 60,
		Rule:   "rounds of goroutines released together, each doing a random mix of operations (sign, verify, files, encrypt, decrypt, bulk and streaming, conversions, hashing, serialising, parsing) on the same fresh key objects, signature object, plaintext, ciphertext and key file buffers but with contexts of their own; the harness and the code under test are built with the race detector, sources and destinations yield at random, and every outcome is compared with that of the reference implementation. Distinct: (operation, pair of operations overlapping in time).",
		Assume: []string{"the race detector sees the accesses that the executed schedules make"},
		Run:    runC21})
}

// shared is what all goroutines of a round use.
type shared struct {
	t        *T
	snd, rx  *Key
	others   []*Key
	pt       []byte
	ct, sct  []byte
	ck       []byte
	sig      *sign.Signature
	badsig   *sign.Signature
	fn       string
	dir      string
	skYML    []byte
	pkYML    []byte
	sshLine  []byte
	auth     []byte
	blk      int
	sndX     []byte // expected conversions
	rxXpk    []byte
	sigBytes []byte
}

type op struct {
	name string
	f    func(s *shared, r *rand.Rand, id int) error
}

func nopw() ([]byte, error) { return nil, nil }

// yields and sleeps at random, so that operations overlap
func jitter(r *rand.Rand) {
	switch r.Intn(6) {
	case 0:
		time.Sleep(time.Duration(r.Intn(50)) * time.Microsecond)
	case 1, 2:
		runtime.Gosched()
	}
}

func (s *shared) encOp(r *rand.Rand, signed, stream bool) error {
	var sk *sign.PrivateKey
	var spk []byte
	if signed {
		sk, spk = s.snd.sk, s.snd.PK
	}
	e, err := sign.NewEncryptor(sk, uint64(s.blk))
	if err != nil {
		return err
	}
	rx := []*Key{s.rx}
	for i := r.Intn(3); i > 0; i-- {
		rx = append(rx, s.others[r.Intn(len(s.others))])
	}
	r.Shuffle(len(rx), func(i, j int) { rx[i], rx[j] = rx[j], rx[i] })
	for _, k := range rx {
		jitter(r)
		if err := e.AddRecipient(k.pk); err != nil {
			return err
		}
	}
	d := &Dst{onWrite: func(int) { jitter(r) }}
	if !stream {
		src := newSrc(s.pt)
		src.onRead = func(int) { jitter(r) }
		if r.Intn(2) == 0 {
			src.seg = segs(r, 3)
		}
		err = e.Encrypt(src, d)
	} else {
		var w io.WriteCloser
		if w, err = e.NewStreamWriter(d); err != nil {
			return err
		}
		for b := s.pt; len(b) > 0; {
			n := min(len(b), 1+r.Intn(3*s.blk))
			if _, err := w.Write(b[:n:n]); err != nil {
				return err
			}
			b = b[n:]
			jitter(r)
		}
		err = w.Close()
	}
	if err != nil {
		return err
	}
	for _, k := range rx {
		o, err := refOpen(d.Bytes(), k.RefKey, spk)
		if err != nil {
			return fmt.Errorf("recipient can't open the output: %w", err)
		}
		if o.Signed != signed || !bytes.Equal(o.PT, s.pt) {
			return errors.New("output decrypts to something else")
		}
	}
	return nil
}

func (s *shared) decOp(r *rand.Rand, file []byte, spk *sign.PublicKey, stream bool) error {
	src := newSrc(file)
	src.onRead = func(int) { jitter(r) }
	d, err := sign.NewDecryptor(src)
	if err != nil {
		return err
	}
	if err = d.SetPrivateKey(s.rx.sk, spk); err != nil {
		return err
	}
	if d.AuthenticatedSender() != (spk != nil) {
		return errors.New("AuthenticatedSender is wrong")
	}
	var out []byte
	if stream {
		rd, err := d.NewStreamReader()
		if err != nil {
			return err
		}
		var breach string
		out, err, breach = readAllSized(rd, func() int { jitter(r); return 1 + r.Intn(2*s.blk) }, len(s.pt))
		if breach != "" {
			return errors.New(breach)
		}
		if err != io.EOF {
			return err
		}
	} else {
		dst := &Dst{onWrite: func(int) { jitter(r) }}
		if err = d.Decrypt(dst); err != nil {
			return err
		}
		out = dst.Bytes()
	}
	return sameErr(out, s.pt)
}

func expect(ok bool, f string, a ...any) error {
	if ok {
		return nil
	}
	return fmt.Errorf(f, a...)
}

var c21ops = []op{
	{"sign", func(s *shared, r *rand.Rand, id int) error {
		sg, err := s.snd.sk.SignMessage(s.ck, "c")
		if err != nil {
			return err
		}
		b, err := sg.MarshalBinary(fmt.Sprint("by ", id))
		if err != nil {
			return err
		}
		x, h, _, err := refReadSig(b)
		if err != nil {
			return err
		}
		return expect(bytes.Equal(h, refHash(s.snd.PK)) && refVerifyMsg(s.snd.PK, s.ck, x), "signature is wrong")
	}},
	{"verify", func(s *shared, r *rand.Rand, id int) error {
		return expect(s.snd.pk.VerifyMessage(s.ck, s.sig) && s.sig.IsPKMatch(s.snd.pk), "good signature refused")
	}},
	{"verify-bad", func(s *shared, r *rand.Rand, id int) error {
		return expect(!s.snd.pk.VerifyMessage(s.ck, s.badsig) && !s.rx.pk.VerifyMessage(s.ck, s.sig) && !s.sig.IsPKMatch(s.rx.pk), "bad signature accepted")
	}},
	{"verify-other", func(s *shared, r *rand.Rand, id int) error {
		o := s.others[r.Intn(len(s.others))]
		sg, err := o.sk.SignMessage(s.ck, "")
		if err != nil {
			return err
		}
		return expect(o.pk.VerifyMessage(s.ck, sg) && !s.snd.pk.VerifyMessage(s.ck, sg) && sg.IsPKMatch(o.pk), "other key's signature misjudged")
	}},
	{"sign-file", func(s *shared, r *rand.Rand, id int) error {
		sg, err := s.snd.sk.SignFile(s.fn)
		if err != nil {
			return err
		}
		ok, err := s.snd.pk.VerifyFile(s.fn, sg)
		if err != nil || !ok {
			return fmt.Errorf("own file signature: %v %v", ok, err)
		}
		return expect(sg.IsPKMatch(s.snd.sk.PublicKey()), "no match")
	}},
	{"verify-file", func(s *shared, r *rand.Rand, id int) error {
		ok, err := s.snd.pk.VerifyFile(s.fn, s.sig)
		if err != nil {
			return err
		}
		return expect(ok, "good file signature refused")
	}},
	{"encrypt", func(s *shared, r *rand.Rand, id int) error { return s.encOp(r, false, false) }},
	{"encrypt-signed", func(s *shared, r *rand.Rand, id int) error { return s.encOp(r, true, false) }},
	{"encrypt-stream", func(s *shared, r *rand.Rand, id int) error { return s.encOp(r, false, true) }},
	{"encrypt-stream-signed", func(s *shared, r *rand.Rand, id int) error { return s.encOp(r, true, true) }},
	{"decrypt", func(s *shared, r *rand.Rand, id int) error { return s.decOp(r, s.ct, nil, false) }},
	{"decrypt-signed", func(s *shared, r *rand.Rand, id int) error { return s.decOp(r, s.sct, s.snd.pk, false) }},
	{"decrypt-stream", func(s *shared, r *rand.Rand, id int) error { return s.decOp(r, s.ct, nil, true) }},
	{"decrypt-stream-signed", func(s *shared, r *rand.Rand, id int) error { return s.decOp(r, s.sct, s.snd.pk, true) }},
	{"decrypt-wrong-key", func(s *shared, r *rand.Rand, id int) error {
		d, err := sign.NewDecryptor(newSrc(s.ct))
		if err != nil {
			return err
		}
		return expect(d.SetPrivateKey(s.snd.sk, nil) != nil, "somebody else can open the file")
	}},
	{"decrypt-wrong-sender", func(s *shared, r *rand.Rand, id int) error {
		d, err := sign.NewDecryptor(newSrc(s.sct))
		if err != nil {
			return err
		}
		return expect(d.SetPrivateKey(s.rx.sk, s.rx.pk) != nil, "wrong sender accepted")
	}},
	{"convert-sk", func(s *shared, r *rand.Rand, id int) error {
		return expect(bytes.Equal(s.snd.sk.ToCurve25519SK(), s.sndX), "wrong encryption private key")
	}},
	{"convert-pk", func(s *shared, r *rand.Rand, id int) error {
		return expect(bytes.Equal(s.rx.pk.ToCurve25519PK(), s.rxXpk) && bytes.Equal(s.rx.sk.PublicKey().ToCurve25519PK(), s.rxXpk), "wrong encryption public key")
	}},
	{"hash", func(s *shared, r *rand.Rand, id int) error {
		return expect(bytes.Equal(s.snd.pk.Hash(), refHash(s.snd.PK)), "wrong key hash")
	}},
	{"public", func(s *shared, r *rand.Rand, id int) error {
		b, err := s.snd.sk.PublicKey().MarshalBinary("x")
		if err != nil {
			return err
		}
		pk, _, err := refReadPub(b)
		if err != nil {
			return err
		}
		return expect(bytes.Equal(pk, s.snd.PK), "wrong public key")
	}},
	{"marshal-pub", func(s *shared, r *rand.Rand, id int) error {
		c := fmt.Sprint("comment ", id)
		b, err := s.rx.pk.MarshalBinary(c)
		if err != nil {
			return err
		}
		pk, y, err := refReadPub(b)
		if err != nil {
			return err
		}
		return expect(bytes.Equal(pk, s.rx.PK) && y.Comment == c, "public key file holds something else")
	}},
	{"serialize-pub", func(s *shared, r *rand.Rand, id int) error {
		fn := fmt.Sprintf("%s/pub%d", s.dir, id)
		if err := s.rx.pk.Serialize(fn, "c", true); err != nil {
			return err
		}
		pk, err := sign.ReadPublicKey(fn)
		if err != nil {
			return err
		}
		return expect(bytes.Equal(pk.Hash(), refHash(s.rx.PK)), "public key file holds another key")
	}},
	{"serialize-same", func(s *shared, r *rand.Rand, id int) error {
		fn := s.dir + "/samepub"
		if err := s.rx.pk.Serialize(fn, "c", true); err != nil {
			return err
		}
		pk, err := sign.ReadPublicKey(fn)
		if err != nil {
			return err
		}
		return expect(bytes.Equal(pk.Hash(), refHash(s.rx.PK)), "public key file holds another key")
	}},
	{"serialize-sig", func(s *shared, r *rand.Rand, id int) error {
		fn := fmt.Sprintf("%s/sig%d", s.dir, id)
		if err := s.sig.Serialize(fn, "c", true); err != nil {
			return err
		}
		sg, err := sign.ReadSignature(fn)
		if err != nil {
			return err
		}
		return expect(s.snd.pk.VerifyMessage(s.ck, sg), "stored signature refused")
	}},
	{"marshal-sig", func(s *shared, r *rand.Rand, id int) error {
		b, err := s.sig.MarshalBinary("c")
		if err != nil {
			return err
		}
		x, _, _, err := refReadSig(b)
		if err != nil {
			return err
		}
		return expect(refVerifyMsg(s.snd.PK, s.ck, x), "stored signature is wrong")
	}},
	{"read-priv", func(s *shared, r *rand.Rand, id int) error {
		sk, err := sign.MakePrivateKey(s.skYML, nopw)
		if err != nil {
			return err
		}
		return expect(bytes.Equal(sk.PublicKey().Hash(), refHash(s.snd.PK)) && bytes.Equal(sk.ToCurve25519SK(), s.sndX), "other private key read")
	}},
	{"read-pub", func(s *shared, r *rand.Rand, id int) error {
		pk, err := sign.MakePublicKey(s.pkYML)
		if err != nil {
			return err
		}
		return expect(pk.VerifyMessage(s.ck, s.sig), "other public key read")
	}},
	{"read-sig", func(s *shared, r *rand.Rand, id int) error {
		var sg sign.Signature
		if err := sg.UnmarshalBinary(s.sigBytes); err != nil {
			return err
		}
		return expect(s.snd.pk.VerifyMessage(s.ck, &sg), "signature read refused")
	}},
	{"read-ssh", func(s *shared, r *rand.Rand, id int) error {
		pk, err := sign.MakePublicKey(s.sshLine)
		if err == nil {
			pk, err = sign.MakePublicKeyFromString(b64(sshPubBlob(s.rx.PK)))
		}
		if err != nil {
			return err
		}
		return expect(bytes.Equal(pk.Hash(), refHash(s.rx.PK)), "other ssh key read")
	}},
	{"authorized", func(s *shared, r *rand.Rand, id int) error {
		v, err := sign.ParseAuthorizedKeys(s.auth)
		if err != nil {
			return err
		}
		if len(v) != len(s.others) {
			return fmt.Errorf("%d authorized keys of %d", len(v), len(s.others))
		}
		for i, k := range v {
			if !bytes.Equal(k.Hash(), refHash(s.others[i].PK)) || k.Comment != fmt.Sprintf("u%d@h", i) {
				return errors.New("wrong authorized key")
			}
		}
		return nil
	}},
	{"new-key", func(s *shared, r *rand.Rand, id int) error {
		sk, err := sign.NewPrivateKey()
		if err != nil {
			return err
		}
		sg, err := sk.SignMessage(s.ck, "")
		if err != nil {
			return err
		}
		if !sk.PublicKey().VerifyMessage(s.ck, sg) {
			return errors.New("new key pair does not work")
		}
		x, err := x25519Pub2(sk.ToCurve25519SK())
		if err != nil {
			return err
		}
		return expect(bytes.Equal(x, sk.PublicKey().ToCurve25519PK()), "new key pair converts to keys that don't belong together")
	}},
}

func x25519Pub2(sk []byte) ([]byte, error) {
	if len(sk) != 32 {
		return nil, fmt.Errorf("private key of %d bytes", len(sk))
	}
	return x25519Pub(sk), nil
}

func (t *T) newShared() *shared {
	s := &shared{t: t, snd: t.newKey(), rx: t.newKey(), others: t.newKeys(3), blk: pick(t.R, 37, 256, 4096)}
	s.pt = patterned(t.R, t.R.Intn(6*s.blk))
	f := newRefFile(t.R, uint32(s.blk), nil)
	f.addRx(t.R, refKey(t.R).PK)
	f.addRx(t.R, s.rx.PK)
	s.ct = f.Encrypt(t.R, s.pt)
	f = newRefFile(t.R, uint32(s.blk), s.snd.RefKey)
	f.addRx(t.R, s.rx.PK)
	s.sct = f.Encrypt(t.R, s.pt)
	content := randBytes(t.R, t.R.Intn(20000))
	s.dir = t.Dir()
	s.fn = t.write("content", content, 0644)
	s.ck = refFileCksum(content)
	s.sigBytes = refSigFile(s.snd.RefKey, s.ck, "x")
	s.sig = &sign.Signature{}
	if err := s.sig.UnmarshalBinary(s.sigBytes); err != nil {
		t.Failf("valid signature refused: %v", err)
	}
	s.badsig = &sign.Signature{}
	must(s.badsig.UnmarshalBinary(refSigFile(s.snd.RefKey, []byte("something else"), "x")))
	s.skYML = quickPriv(t.R, s.snd.RefKey, nil, "c")
	s.pkYML = refPubFile(s.snd.PK, "c")
	s.sshLine = []byte(sshPubLine(s.rx.PK, "me@here"))
	for i, k := range s.others {
		s.auth = append(s.auth, sshPubLine(k.PK, fmt.Sprintf("u%d@h", i))...)
		if s.auth[len(s.auth)-1] != '\n' {
			s.auth = append(s.auth, '\n')
		}
	}
	s.sndX, s.rxXpk = refSKToX(s.snd.SK), refPKToX(s.rx.PK)
	return s
}

func runC21(c *Ctx) {
	// rounds with fresh keys, so that whatever is done on first use collides
	round := func(t *T, ops []op, ng, per int) {
		s := t.newShared()
		copies := map[string][]byte{}
		for n, b := range map[string][]byte{"plaintext": s.pt, "encrypted file": s.ct, "signed file": s.sct, "message": s.ck, "private key file": s.skYML,
			"public key file": s.pkYML, "ssh line": s.sshLine, "authorized keys": s.auth, "signature file": s.sigBytes} {
			copies[n] = append([]byte(nil), b...)
		}
		type ev struct {
			op         int
			start, end time.Time
		}
		evs := make([][]ev, ng)
		errs := make([]error, ng)
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for g := 0; g < ng; g++ {
			wg.Add(1)
			r := rand.New(rand.NewSource(t.R.Int63()))
			go func() {
				defer wg.Done()
				defer func() {
					if v := recover(); v != nil {
						if _, ok := v.(harnessError); ok {
							panic(v)
						}
						errs[g] = fmt.Errorf("panic: %v", v)
					}
				}()
				<-gate
				for i := 0; i < per; i++ {
					k := r.Intn(len(ops))
					jitter(r)
					e := ev{op: k, start: time.Now()}
					err := ops[k].f(s, r, g)
					e.end = time.Now()
					evs[g] = append(evs[g], e)
					if err != nil {
						errs[g] = fmt.Errorf("%s: %w", ops[k].name, err)
						return
					}
				}
			}()
		}
		close(gate)
		wg.Wait()
		for g, err := range errs {
			if err != nil {
				t.Failf("with %d goroutines, goroutine %d: %v", ng, g, err)
			}
		}
		for n, b := range map[string][]byte{"plaintext": s.pt, "encrypted file": s.ct, "signed file": s.sct, "message": s.ck, "private key file": s.skYML,
			"public key file": s.pkYML, "ssh line": s.sshLine, "authorized keys": s.auth, "signature file": s.sigBytes} {
			if !bytes.Equal(copies[n], b) {
				t.Failf("shared %s was changed", n)
			}
		}
		// the keys still are what they were
		for _, k := range append([]*Key{s.snd, s.rx}, s.others...) {
			if !bytes.Equal(k.pk.Hash(), refHash(k.PK)) || !bytes.Equal(k.sk.ToCurve25519SK(), refSKToX(k.SK)) || !bytes.Equal(k.pk.ToCurve25519PK(), refPKToX(k.PK)) {
				t.Failf("a key is not what it was before the round")
			}
			sg, err := k.sk.SignMessage(s.ck, "")
			must(err)
			b, err := sg.MarshalBinary("")
			must(err)
			x, _, _, err := refReadSig(b)
			if err != nil || !bytes.Equal(x, refSignMsg(ed25519.PrivateKey(k.SK), s.ck)) {
				t.Failf("a key does not sign as before the round: %v", err)
			}
		}
		n := 0
		for g := range evs {
			n += len(evs[g])
			for h := g + 1; h < len(evs); h++ {
				for _, a := range evs[g] {
					for _, b := range evs[h] {
						if a.start.Before(b.end) && b.start.Before(a.end) {
							x, y := a.op, b.op
							if x > y {
								x, y = y, x
							}
							t.Seen("%s|%s", ops[x].name, ops[y].name)
							t.Count("overlapping_pairs", 1)
						}
					}
				}
			}
		}
		t.Count("concurrent_operations", n)
	}

	c.casesN("mix", c.n(60, 1200), 1, func(t *T) { round(t, c21ops, 8+t.R.Intn(8), 4+t.R.Intn(5)) })

	// every operation against itself and one other, on fresh objects
	c.casesN("pairs", c.n(2*len(c21ops), len(c21ops)*len(c21ops)), 1, func(t *T) {
		a := c21ops[t.idx%len(c21ops)]
		b := a
		if t.idx >= len(c21ops) {
			if c.thorough() {
				b = c21ops[t.idx/len(c21ops)]
			} else {
				b = c21ops[t.R.Intn(len(c21ops))]
			}
		}
		round(t, []op{a, b}, 6, 2)
	})

	// serialising a private key while it is used (scrypt makes this slow)
	c.casesN("private-key-files", c.n(1, 8), 1, func(t *T) {
		s := t.newShared()
		var wg sync.WaitGroup
		errs := make([]error, 3)
		var stop = make(chan struct{})
		for g := 0; g < 2; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				pw := []byte(fmt.Sprintf("pw%d", g))
				fn := fmt.Sprintf("%s/priv%d", s.dir, g)
				if errs[g] = s.snd.sk.Serialize(fn, "c", true, append([]byte(nil), pw...)); errs[g] != nil {
					return
				}
				if g > 0 && !t.c.thorough() {
					return // the reference is slow, too
				}
				b, err := os.ReadFile(fn)
				if err == nil {
					var k *RefKey
					if k, _, err = refReadPriv(b, pw); err == nil && !bytes.Equal(k.SK, s.snd.SK) {
						err = errors.New("private key file holds something else")
					}
				}
				errs[g] = err
			}()
		}
		var wg2 sync.WaitGroup
		wg2.Add(1)
		r := rand.New(rand.NewSource(t.R.Int63()))
		go func() {
			defer wg2.Done()
			for i := 0; errs[2] == nil; i++ {
				select {
				case <-stop:
					return
				default:
				}
				errs[2] = c21ops[r.Intn(len(c21ops))].f(s, r, 99)
			}
		}()
		wg.Wait()
		close(stop)
		wg2.Wait()
		for _, err := range errs {
			if err != nil {
				t.Failf("serialising a private key while it is used: %v", err)
			}
		}
		t.Count("private_keys_serialised", 2)
		t.Seen("serialised")
	})
}
