package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"os"
	"slices"

	"github.com/opencoff/sigtool/sign"
	"gopkg.in/yaml.v2"
)

// C02: a signature matches exactly the key of its signer
func init() {
	register("C02", &Prop{MinEval: 200,
		Rule: "signatures fresh, after bytes and file round trips, against the signer's key in every form it can be loaded in, random keys, all 256 single-bit neighbours of the key, and signatures with altered, cut, extended or foreign key identifiers; the verify command over all combinations of (named key, real signer, given key, file state). Distinct: (form, candidate kind) and combinations.",
		Run:  runC02})
}

func runC02(c *Ctx) {
	c.Cases("match", c.n(200, 8000), func(t *T) {
		k, other := t.newKey(), t.newKey()
		msg := patterned(t.R, t.R.Intn(200))
		sg, err := k.sk.SignMessage(msg, "")
		if err != nil {
			t.Failf("%v", err)
		}
		forms := map[string]*sign.Signature{"fresh": sg}
		cm := pick(t.R, "", "input=x", "a: b", "é\n")
		b, err := sg.MarshalBinary(cm)
		if err != nil {
			t.Failf("%v", err)
		}
		var s2 sign.Signature
		if err := s2.UnmarshalBinary(b); err != nil {
			t.Failf("own signature unreadable: %v", err)
		}
		forms["bytes"] = &s2
		if err := sg.Serialize(t.Path("s"), cm, false); err != nil {
			t.Failf("%v", err)
		}
		s3, err := sign.ReadSignature(t.Path("s"))
		if err != nil {
			t.Failf("own signature unreadable: %v", err)
		}
		forms["file"] = s3
		var s4 sign.Signature
		must(os.WriteFile(t.Path("ref"), refSigFile(k.RefKey, msg, "x"), 0644))
		if err := s4.UnmarshalBinary(mustRead(t.Path("ref"))); err != nil {
			t.Failf("signature of the reference implementation unreadable: %v", err)
		}
		forms["reference"] = &s4
		// a signature object used before
		s5 := sign.Signature{}
		os, _ := other.sk.SignMessage(msg, "")
		ob, _ := os.MarshalBinary("")
		s5.UnmarshalBinary(ob)
		if err := s5.UnmarshalBinary(b); err != nil {
			t.Failf("%v", err)
		}
		forms["reused"] = &s5
		keys := map[string]*sign.PublicKey{"loaded": k.pk, "from secret": k.sk.PublicKey()}
		add := func(n string, p *sign.PublicKey, err error) {
			if err != nil {
				t.Failf("public key (%s): %v", n, err)
			}
			keys[n] = p
		}
		p, err := sign.MakePublicKey([]byte(sshPubLine(k.PK, "c")))
		add("ssh", p, err)
		p, err = sign.MakePublicKeyFromString(b64(k.PK))
		add("string", p, err)
		p, err = sign.MakePublicKeyFromString(b64(sshPubBlob(k.PK)))
		add("ssh string", p, err)
		pb, err := k.sk.PublicKey().MarshalBinary("x")
		if err != nil {
			t.Failf("%v", err)
		}
		p, err = sign.MakePublicKey(pb)
		add("own bytes", p, err)
		ak, err := sign.ParseAuthorizedKeys([]byte(sshPubLine(other.PK, "o") + sshPubLine(k.PK, "c")))
		if err != nil || len(ak) != 2 {
			t.Failf("authorized keys: %d, %v", len(ak), err)
		}
		add("authorized", ak[1], nil)
		// the identifier stored in a key file must not matter
		y, _ := yaml.Marshal(&yamlPub{"", b64(k.PK), b64(refHash(other.PK))})
		if p, err := sign.MakePublicKey(y); err == nil {
			keys["wrong stored hash"] = p
		}
		reused := *other.pk
		if err := reused.UnmarshalBinary(refPubFile(k.PK, "")); err != nil {
			t.Failf("%v", err)
		}
		keys["reused"] = &reused
		for fn, f := range forms {
			for kn, p := range keys {
				if !f.IsPKMatch(p) {
					t.Failf("signature (%s) does not match its signer's key (%s)", fn, kn)
				}
				if !p.VerifyMessage(msg, f) {
					t.Failf("signature (%s) does not verify under its signer's key (%s)", fn, kn)
				}
				t.Count("matches", 1)
				t.Seen("%s/%s", fn, kn)
			}
			no := func(kind string, p *sign.PublicKey) {
				t.Count("mismatches", 1)
				t.Seen("%s no %s", fn, kind)
				if f.IsPKMatch(p) {
					t.Failf("signature (%s) matches a foreign key (%s)", fn, kind)
				}
			}
			no("other", other.pk)
			no("wrong ssh", ak[0])
			for i := 0; i < 256; i++ {
				kb := append([]byte(nil), k.PK...)
				kb[i/8] ^= 1 << (i % 8)
				if p, err := sign.MakePublicKey(refPubFile(kb, "")); err == nil {
					no(fmt.Sprintf("bit %d", i), p)
				}
			}
			if p, err := sign.MakePublicKey(mustYAML(&yamlPub{"", b64(other.PK), b64(refHash(k.PK))})); err == nil {
				no("foreign key claiming the signer's hash", p)
			}
		}
		// altered identifiers
		sig, hash, _, _ := refReadSig(b)
		if !bytes.Equal(hash, refHash(k.PK)) {
			t.Failf("stored identifier is not the documented hash of the key")
		}
		for i := 0; i < 150; i++ {
			h := append([]byte(nil), hash...)
			what := ""
			switch {
			case i < 128:
				h[i/8] ^= 1 << (i % 8)
				what = fmt.Sprintf("bit %d", i)
			case i < 134:
				h = h[:[]int{0, 1, 4, 8, 12, 15}[i-128]]
				what = "cut"
			case i == 134:
				h = append(h, 0)
				what = "extended"
			case i == 136:
				h = append([]byte{0}, h...)
				what = "zero in front"
			case i == 137:
				h = append(h, h...)
				what = "twice"
			case i == 138:
				what = "letters in the other case"
				s := []byte(b64(h))
				for j, ch := range s[:21] {
					if ch >= 'a' && ch <= 'z' {
						s[j] = ch - 32
					} else if ch >= 'A' && ch <= 'Z' {
						s[j] = ch + 32
					}
				}
				h2, err := base64.StdEncoding.DecodeString(string(s))
				if err != nil || bytes.Equal(h2, h) {
					h2 = append(h, 7) // (padding does not permit)
				}
				h = h2
			case i == 139:
				slices.Reverse(h)
				what = "reversed"
			case i == 140:
				h = bytes.TrimLeft(h, "\x00")
				what = "without leading zero bytes"
				if len(h) == 16 {
					h = h[1:]
				}
			case i == 141:
				h = bytes.TrimRight(h, "\x00")
				what = "without trailing zero bytes"
				if len(h) == 16 {
					h = h[:15]
				}
			case i == 142:
				h = []byte(hex.EncodeToString(h))
				what = "in hex"
			case i == 143:
				h = append([]byte(nil), k.PK...)
				what = "the key itself"
			case i == 144:
				x := sha256.Sum256(k.PK)
				h = x[:]
				what = "the whole hash"
			case i == 145:
				x := sha256.Sum256(k.PK)
				h = x[16:]
				what = "the other half of the hash"
			case i == 135:
				x := refHash(other.PK)
				h = x
				what = "foreign"
			default:
				h = randBytes(t.R, 16)
				what = "random"
			}
			var s sign.Signature
			if err := s.UnmarshalBinary(mustYAML(&yamlSig{"", b64(h), b64(sig)})); err != nil {
				t.Count("unreadable", 1)
				continue
			}
			t.Count("mismatches", 1)
			if s.IsPKMatch(k.pk) {
				t.Failf("signature with altered identifier (%s) matches", what)
			}
			if what == "foreign" && !s.IsPKMatch(other.pk) {
				t.Failf("identifier lost when reading")
			}
		}
		t.Sample(map[string]any{"msg": len(msg), "comment": cm})
	})
	// the command: all combinations
	c.casesN("cli", c.n(2, 12), 8, func(t *T) {
		a, b := refKey(t.R), refKey(t.R)
		_, pa := t.writeKey("a", a, "", "")
		_, pb := t.writeKey("b", b, "", "")
		content := patterned(t.R, 100+t.R.Intn(100))
		fn := t.write("f", content, 0644)
		bad := append([]byte(nil), content...)
		bad[t.R.Intn(len(bad))] ^= 4
		fb := t.write("fb", bad, 0644)
		ck := refFileCksum(content)
		ids := map[string][]byte{"A": refHash(a.PK), "B": refHash(b.PK), "none": nil, "cut": refHash(a.PK)[:8]}
		sigs := map[string][]byte{"A": refSignMsg(a.SK, ck), "B": refSignMsg(b.SK, ck), "zero": make([]byte, 64), "none": nil}
		for _, id := range sortedKeys(ids) {
			for _, sg := range sortedKeys(sigs) {
				s := t.write("s", mustYAML(&yamlSig{"c", b64(ids[id]), b64(sigs[sg])}), 0644)
				for _, given := range []string{"A", "B"} {
					for _, f := range []string{fn, fb} {
						p := pa
						if given == "B" {
							p = pb
						}
						args := []string{"verify", p, s, f}
						if t.R.Intn(3) == 0 {
							args = []string{"verify", "-q", p, s, f}
						}
						x := t.CLI(Run{Args: args})
						want := id == given && sg == given && f == fn
						if (x.Code == 0) != want {
							t.Failf("identifier of %s, signed by %s, key %s given, file intact %v: %v", id, sg, given, f == fn, x)
						}
						t.Seen("cli %s %s %s %v", id, sg, given, f == fn)
					}
				}
			}
		}
	})
}

func mustYAML(v any) []byte {
	b, err := yaml.Marshal(v)
	must(err)
	return b
}
