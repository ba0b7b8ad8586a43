package main

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"math/big"

	"github.com/opencoff/sigtool/sign"
)

// C26: conversion of signing keys to encryption keys
func init() {
	register("C26", &Prop{MinEval: 100,
		Rule:   "key pairs from random and extreme seeds, selected so that encodings with zero bytes at either end occur, loaded from every format; both conversions are compared with an independent computation and with each other (base point multiplication), called repeatedly in random order between signing, encrypting and decrypting; the signing keys are compared before and after. All encodings of points of small order are tried as recipients. Distinct: (way of loading, shape of the encodings, order of calls).",
		Assume: []string{"public keys that are no points of the curve are not judged"},
		Run:    runC26})
}

// shape of a little endian number: zero bytes at both ends, top bit
func shapeOf(b []byte) string {
	lo, hi := 0, 0
	for lo < len(b) && b[lo] == 0 {
		lo++
	}
	for hi < len(b) && b[len(b)-1-hi] == 0 {
		hi++
	}
	return fmt.Sprintf("%d.%d", min(lo, 2), min(hi, 3))
}

// loadedKey is a pair loaded in some way
func (t *T) loadAs(k *RefKey, how string) (*sign.PrivateKey, *sign.PublicKey) {
	var sk *sign.PrivateKey
	var pk *sign.PublicKey
	var err error
	no := func() ([]byte, error) { return nil, nil }
	switch how {
	case "native":
		sk, err = sign.MakePrivateKey(quickPriv(t.R, k, nil, ""), no)
		if err == nil {
			pk, err = sign.MakePublicKey(refPubFile(k.PK, ""))
		}
	case "ssh":
		sk, err = sign.MakePrivateKey(pemWrap(newSSHPriv(t, k, "c").blob()), no)
		if err == nil {
			pk, err = sign.MakePublicKey([]byte(sshPubLine(k.PK, "c")))
		}
	case "string":
		sk, err = sign.MakePrivateKey(quickPriv(t.R, k, []byte("x"), ""), pwOf("x"))
		if err == nil {
			pk, err = sign.MakePublicKeyFromString(b64(k.PK))
		}
	case "sshstring":
		sk, err = sign.MakePrivateKey(pemWrap(newSSHPriv(t, k, "").blob()), no)
		if err == nil {
			pk, err = sign.MakePublicKeyFromString(b64(sshPubBlob(k.PK)))
		}
	case "authorized":
		sk, err = sign.MakePrivateKey(quickPriv(t.R, k, nil, ""), no)
		if err == nil {
			var v []*sign.PublicKey
			if v, err = sign.ParseAuthorizedKeys([]byte("ssh-ed25519 " + b64(sshPubBlob(k.PK)) + " a@b\n")); err == nil {
				if len(v) != 1 {
					t.Failf("%d authorized keys of one", len(v))
				}
				pk = v[0]
			}
		}
	case "own":
		sk, err = sign.MakePrivateKey(quickPriv(t.R, k, nil, ""), no)
		if err == nil {
			pk = sk.PublicKey()
		}
	}
	if err != nil {
		t.Failf("key pair refused (%s): %v", how, err)
	}
	return sk, pk
}

var loadWays = []string{"native", "ssh", "string", "sshstring", "authorized", "own"}

func (t *T) sigOf(sk *sign.PrivateKey, ck []byte) []byte {
	sg, err := sk.SignMessage(ck, "")
	if err != nil {
		t.Failf("signing failed: %v", err)
	}
	b, err := sg.MarshalBinary("")
	if err != nil {
		t.Failf("signature can't be stored: %v", err)
	}
	x, _, _, err := refReadSig(b)
	if err != nil {
		t.Failf("stored signature: %v", err)
	}
	return x
}

// smallOrder lists every encoding of a y coordinate of a point of small order
func smallOrder() (v [][]byte) {
	p := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	y8a, _ := new(big.Int).SetString("55188659117513257062467267217118295137698188065244968500265048394206261417927", 10)
	y8b := new(big.Int).Sub(p, y8a)
	for _, y := range []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(p, big.NewInt(1)), y8a, y8b, p, new(big.Int).Add(p, big.NewInt(1))} {
		for s := 0; s < 2; s++ {
			b := make([]byte, 32)
			y.FillBytes(b)
			for i := 0; i < 16; i++ {
				b[i], b[31-i] = b[31-i], b[i]
			}
			b[31] |= byte(s) << 7
			v = append(v, b)
		}
	}
	return
}

func runC26(c *Ctx) {
	// many pairs: the values, and that they correspond
	c.Cases("values", c.n(400, 20000), func(t *T) {
		for i := 0; i < 60; i++ {
			var k *RefKey
			if i == 0 {
				seed := make([]byte, 32)
				switch t.idx % 6 {
				case 0:
					seed[t.idx/6%32] = 1 << (t.idx % 8)
				case 1:
					for j := range seed {
						seed[j] = 0xff
					}
					seed[t.idx/6%32] ^= 1 << (t.idx % 8)
				case 2:
					seed[31] = byte(t.idx)
				case 3:
					seed[0] = byte(t.idx)
				case 4:
					for j := range seed {
						seed[j] = byte(t.idx)
					}
				}
				k = refKeyFromSeed(seed)
			} else {
				k = refKey(t.R)
			}
			how := loadWays[i%len(loadWays)]
			sk, pk := t.loadAs(k, how)
			a, b := refSKToX(k.SK), refPKToX(k.PK)
			if !bytes.Equal(x25519Pub(a), b) {
				herr("reference conversions disagree")
			}
			t.Set("seed", fmt.Sprintf("%x", k.SK[:32]))
			if i%2 == 0 {
				if x := sk.ToCurve25519SK(); !bytes.Equal(x, a) {
					t.Failf("encryption private key (%s) is %x instead of %x", how, x, a)
				}
			}
			if x := pk.ToCurve25519PK(); !bytes.Equal(x, b) {
				t.Failf("encryption public key (%s) of %x is %x instead of %x", how, k.PK, x, b)
			}
			if x := sk.PublicKey().ToCurve25519PK(); !bytes.Equal(x, b) {
				t.Failf("encryption public key of the private key (%s) is %x instead of %x", how, x, b)
			}
			if x := sk.ToCurve25519SK(); !bytes.Equal(x, a) || !bytes.Equal(x25519Pub(x), b) {
				t.Failf("encryption private key (%s) is %x instead of %x", how, x, a)
			}
			t.Count("pairs", 1)
			t.Seen("%s/%s/%s/%d", how, shapeOf(b), shapeOf(k.PK), k.PK[31]>>7)
		}
	})

	// new pairs
	c.Cases("generated", c.n(16, 200), func(t *T) {
		for i := 0; i < 100; i++ {
			sk, err := sign.NewPrivateKey()
			if err != nil {
				t.Failf("NewPrivateKey: %v", err)
			}
			b, err := sk.PublicKey().MarshalBinary("")
			must(err)
			raw, _, err := refReadPub(b)
			must(err)
			x := sk.ToCurve25519SK()
			y := sk.PublicKey().ToCurve25519PK()
			if len(x) != 32 || !bytes.Equal(x25519Pub(x), y) {
				t.Failf("encryption keys of a new pair don't belong together: %x %x", x, y)
			}
			if !bytes.Equal(y, refPKToX(raw)) {
				t.Failf("encryption public key of a new pair is wrong")
			}
			if x[0]&7 != 0 || x[31]&0xc0 != 0x40 {
				t.Failf("encryption private key of a new pair is not clamped: %x", x)
			}
			t.Count("pairs", 1)
		}
		t.Seen("%d", t.idx)
	})

	// sequences of calls between other uses
	c.Cases("sequences", c.n(120, 3000), func(t *T) {
		k := refKey(t.R)
		how := loadWays[t.idx%len(loadWays)]
		sk, pk := t.loadAs(k, how)
		a, b := refSKToX(k.SK), refPKToX(k.PK)
		ck := randBytes(t.R, 64)
		sig := refSignMsg(ed25519.PrivateKey(k.SK), ck)
		var sgo sign.Signature
		must(sgo.UnmarshalBinary(refSigFile(k, ck, "")))
		K := &Key{k, sk, pk}
		pt := randBytes(t.R, 200)
		var log []string
		for i := 0; i < 14; i++ {
			o := pick(t.R, "sk", "pk", "ownpk", "sign", "verify", "hash", "marshal", "encrypt", "decrypt", "encrypt-signed", "refused")
			log = append(log, o)
			t.Set("calls", log)
			switch o {
			case "sk":
				if !bytes.Equal(sk.ToCurve25519SK(), a) {
					t.Failf("encryption private key changed after %v", log)
				}
			case "pk":
				if !bytes.Equal(pk.ToCurve25519PK(), b) {
					t.Failf("encryption public key changed after %v", log)
				}
			case "ownpk":
				if !bytes.Equal(sk.PublicKey().ToCurve25519PK(), b) {
					t.Failf("encryption public key of the private key changed after %v", log)
				}
			case "sign":
				if !bytes.Equal(t.sigOf(sk, ck), sig) {
					t.Failf("the key signs differently after %v", log)
				}
			case "verify":
				if !pk.VerifyMessage(ck, &sgo) || !sgo.IsPKMatch(pk) {
					t.Failf("the key verifies differently after %v", log)
				}
			case "hash":
				if !bytes.Equal(pk.Hash(), refHash(k.PK)) || !bytes.Equal(sk.PublicKey().Hash(), refHash(k.PK)) {
					t.Failf("the key's hash changed after %v", log)
				}
			case "marshal":
				for _, p := range []*sign.PublicKey{pk, sk.PublicKey()} {
					m, err := p.MarshalBinary("")
					must(err)
					if x, _, err := refReadPub(m); err != nil || !bytes.Equal(x, k.PK) {
						t.Failf("the public key changed after %v: %v", log, err)
					}
				}
			case "refused": // along with a recipient that is refused
				e, err := sign.NewEncryptor(nil, 64)
				must(err)
				for _, first := range []bool{true, false} {
					if err := e.AddRecipient(pk); err != nil {
						t.Failf("recipient refused after %v: %v", log, err)
					}
					if first && e.AddRecipient(unusableKey(t)) == nil {
						t.Failf("unusable recipient accepted after %v", log)
					}
				}
				d := &Dst{}
				if err := e.Encrypt(newSrc(pt), d); err != nil {
					t.Failf("encryption after a refused recipient: %v", err)
				}
				if x, err := refOpen(d.Bytes(), k, nil); err != nil || !bytes.Equal(x.PT, pt) {
					t.Failf("file encrypted for the key along with a refused recipient can't be opened: %v", err)
				}
				if x, _, err := t.decrypt(decOpt{sk: sk}, d.Bytes()); err != nil || !bytes.Equal(x, pt) {
					t.Failf("file encrypted for the key along with a refused recipient is not decrypted: %v", err)
				}
			case "encrypt", "encrypt-signed":
				e := encOpt{rx: []*Key{K}, blk: 64}
				var spk []byte
				if o == "encrypt-signed" {
					e.sender, spk = K, k.PK
				}
				f := t.encrypt(e, pt)
				if x, err := refOpen(f, k, spk); err != nil || !bytes.Equal(x.PT, pt) {
					t.Failf("file encrypted for the key can't be opened after %v: %v", log, err)
				}
			case "decrypt":
				f := newRefFile(t.R, 64, k)
				f.addRx(t.R, k.PK)
				x, _, err := t.decrypt(decOpt{sk: sk, sender: pk}, f.Encrypt(t.R, pt))
				if err != nil || !bytes.Equal(x, pt) {
					t.Failf("file encrypted for the key is not decrypted after %v: %v", log, err)
				}
			}
			t.Count("calls", 1)
		}
		t.Seen("%s/%v", how, log)
		t.Sample(map[string]any{"loaded": how, "calls": log})
	})

	// points of small order
	so := smallOrder()
	c.Cases("small-order", len(so), func(t *T) {
		b := so[t.idx]
		t.Set("key", fmt.Sprintf("%x", b))
		// the same y as an ordinary number must not be what is refused: the
		// neighbours below are ordinary keys
		for _, how := range []string{"native", "string", "ssh", "authorized"} {
			var pk *sign.PublicKey
			var err error
			switch how {
			case "native":
				pk, err = sign.MakePublicKey(refPubFile(b, ""))
			case "string":
				pk, err = sign.MakePublicKeyFromString(b64(b))
			case "ssh":
				pk, err = sign.MakePublicKey([]byte(sshPubLine(b, "c")))
			case "authorized":
				var v []*sign.PublicKey
				if v, err = sign.ParseAuthorizedKeys([]byte("ssh-ed25519 " + b64(sshPubBlob(b)) + " a@b\n")); err == nil && len(v) == 1 {
					pk = v[0]
				}
			}
			t.Count("small_order_tried", 1)
			t.Seen("%s/%x", how, b)
			if err != nil || pk == nil {
				continue // refused even earlier
			}
			e, err := sign.NewEncryptor(nil, 100)
			must(err)
			good := t.newKey()
			if t.idx%2 == 0 {
				must(e.AddRecipient(good.pk))
			}
			if err := e.AddRecipient(pk); err == nil {
				t.Failf("public key %x, which has no usable counterpart, was accepted as a recipient (%s)", b, how)
			}
		}
		// by command
		fn := t.write("w/low.pub", refPubFile(b, ""), 0644)
		t.write("w/in", []byte("data"), 0644)
		k := refKey(t.R)
		pf := t.write("w/k.pub", refPubFile(k.PK, ""), 0644)
		r := t.CLI(Run{Args: []string{"encrypt", "-o", "out", pf, fn, "in"}, Dir: t.Path("w")})
		if r.Code == 0 || exists(t.Path("w/out")) {
			t.Failf("encrypt accepted the key %x, which has no usable counterpart: %v", b, r)
		}
	})
}
