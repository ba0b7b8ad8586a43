package main

import (
	"bytes"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/opencoff/sigtool/sign"
	"golang.org/x/crypto/scrypt"
)

// C17: secrets never appear in outputs or diagnostics
func init() {
	register("C17", &Prop{MinEval: 300,
		Rule: "every output (files, standard output, standard error, error texts) of successful and failing operations is scanned for any 8 byte window of every secret in play (key seeds and scalars, passphrases and what is derived from them, file and data keys) and of the plaintext, raw and in hex, base64, decimal and escaped form. Distinct: (operation, outcome) and error texts seen.",
		Run:  runC17})
}

// scanner finds pieces of secrets in any usual notation.
type scanner struct {
	raw, hex, b64 map[string]string
}

func newScanner() *scanner {
	return &scanner{map[string]string{}, map[string]string{}, map[string]string{}}
}

const win = 8

func (s *scanner) add(name string, v []byte) {
	for i := 0; i+win <= len(v); i++ {
		w := v[i : i+win]
		s.raw[string(w)] = name
		s.hex[hex.EncodeToString(w)] = name
		if i+9 <= len(v) {
			s.b64[b64(v[i:i+9])] = name
			s.b64[strings.NewReplacer("+", "-", "/", "_").Replace(b64(v[i:i+9]))] = name
		}
	}
}

func (s *scanner) addKey(name string, k *RefKey) {
	s.add(name+" (seed)", k.SK[:32])
	h := sha512.Sum512(k.SK[:32])
	s.add(name+" (expanded)", h[:])
	s.add(name+" (scalar)", refSKToX(k.SK))
}

func (s *scanner) addPw(name string, pw []byte) {
	s.add(name, pw)
	h := sha512.Sum512(pw)
	s.add(name+" (hashed)", h[:])
}

// addFile adds the keys of an encrypted file.
func (s *scanner) addFile(o *RefOpen) {
	s.add("file key", o.Root)
	s.add("data key", o.DataKey)
	s.add("mac key", o.MacKey)
	s.add("shared secret", o.EphShared)
	k := expandKey(o.Root, o.Salt, "Sender Sig", 44)
	s.add("sender info key", k[:32])
	if o.Signed {
		s.add("sender signature", o.SenderSig)
	}
	w := o.Keys[o.Index]
	s.add("key encryption key", wrapKEK(o.EphShared, o.Salt, w.Nonce)[:32])
}

// find looks for secrets in b.
func (s *scanner) find(b []byte) string {
	for i := 0; i+win <= len(b); i++ {
		if n, ok := s.raw[string(b[i:i+win])]; ok {
			return fmt.Sprintf("%s, raw, at byte %d", n, i)
		}
	}
	lo := bytes.ToLower(b)
	for i := 0; i+2*win <= len(b); i++ {
		if n, ok := s.hex[string(lo[i:i+2*win])]; ok {
			return fmt.Sprintf("%s, hex, at byte %d", n, i)
		}
	}
	// hex in groups and base64 broken in lines
	for _, sep := range []string{": \n", "\n\r", " ,\n", "\\x"} {
		if !bytes.ContainsAny(b, sep) {
			continue
		}
		c := bytes.Map(func(r rune) rune {
			if strings.ContainsRune(sep, r) {
				return -1
			}
			return r
		}, b)
		lo := bytes.ToLower(c)
		for i := 0; i+2*win <= len(lo); i++ {
			if n, ok := s.hex[string(lo[i:i+2*win])]; ok {
				return n + ", hex"
			}
		}
		for i := 0; i+12 <= len(c); i++ {
			if n, ok := s.b64[string(c[i:i+12])]; ok {
				return n + ", base64"
			}
		}
	}
	for i := 0; i+12 <= len(b); i++ {
		if n, ok := s.b64[string(b[i:i+12])]; ok {
			return fmt.Sprintf("%s, base64, at byte %d", n, i)
		}
	}
	if d := decimals(b); len(d) >= win {
		for i := 0; i+win <= len(d); i++ {
			if n, ok := s.raw[string(d[i:i+win])]; ok {
				return n + ", as numbers"
			}
		}
	}
	if bytes.IndexByte(b, '\\') >= 0 {
		if d := unquoteAll(b); !bytes.Equal(d, b) {
			for i := 0; i+win <= len(d); i++ {
				if n, ok := s.raw[string(d[i:i+win])]; ok {
					return n + ", quoted"
				}
			}
		}
	}
	return ""
}

// decimals collects the small numbers in a text
func decimals(b []byte) (r []byte) {
	for i := 0; i < len(b); i++ {
		if b[i] < '0' || b[i] > '9' {
			continue
		}
		j := i
		for j < len(b) && b[j] >= '0' && b[j] <= '9' {
			j++
		}
		if v, err := strconv.Atoi(string(b[i:j])); err == nil && v < 256 && j-i <= 3 {
			r = append(r, byte(v))
		}
		i = j
	}
	return
}

// unquoteAll resolves the escapes of %q
func unquoteAll(b []byte) (r []byte) {
	s := string(b)
	for len(s) > 0 {
		if s[0] == '\\' {
			if v, mb, rest, err := strconv.UnquoteChar(s, '"'); err == nil {
				if mb {
					r = append(r, string(v)...)
				} else {
					r = append(r, byte(v))
				}
				s = rest
				continue
			}
		}
		r = append(r, s[0])
		s = s[1:]
	}
	return
}

// clean demands that output b has none of the secrets.
func (t *T) clean(s *scanner, what string, b []byte) {
	t.Count("outputs_scanned", 1)
	t.Count("bytes_scanned", len(b))
	if w := s.find(b); w != "" {
		t.Set("output", clip(string(b), 3000))
		t.Failf("%s contains a secret: %s", what, w)
	}
}

func (t *T) cleanErr(s *scanner, what string, err error) {
	if err == nil {
		return
	}
	t.Count("errors_scanned", 1)
	for _, x := range []string{err.Error(), fmt.Sprintf("%+v", err), fmt.Sprintf("%q", err)} {
		t.clean(s, what+": error text", []byte(x))
	}
	t.Seen("%s/%s", what, squash(err.Error()))
}

// squash removes what varies in an error text
func squash(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' || r >= 0x7f || r < ' ' {
			return -1
		}
		return r
	}, clip(s, 60))
}

func randPw(r *rand.Rand) []byte {
	const a = "abcdefghijkmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789_-+=.:"
	b := make([]byte, 24)
	for i := range b {
		b[i] = a[r.Intn(len(a))]
	}
	return b
}

func runC17(c *Ctx) {
	// what the library writes
	c.Cases("encrypted-files", c.n(300, 10000), func(t *T) {
		sc := newScanner()
		nr := 1 + t.R.Intn(4)
		o := encOpt{rx: t.newKeys(nr), blk: uint64(pick(t.R, 1, 7, 16, 32, 64, 100, 1000, 4096)), stream: t.idx%2 == 0, seg: segs(t.R, t.R.Intn(5))}
		for _, k := range o.rx {
			sc.addKey("recipient's private key", k.RefKey)
		}
		if t.R.Intn(2) == 0 {
			o.sender = t.newKey()
			sc.addKey("sender's private key", o.sender.RefKey)
		}
		n := pick(t.R, 0, 8, 20, 64, 200, 1000, 5000)
		pt := randBytes(t.R, n)
		rep := t.R.Intn(3) == 0
		if rep { // repeating plaintext must not show, either
			blk := randBytes(t.R, 32)
			for i := range pt {
				pt[i] = blk[i%32]
			}
		}
		ct := t.encrypt(o, pt)
		ro, err := refOpen(ct, o.rx[0].RefKey, nil)
		if err != nil {
			t.Failf("reference can't read the file: %v", err)
		}
		sc.addFile(ro)
		sc.add("plaintext", pt)
		t.clean(sc, fmt.Sprintf("encrypted file (%d bytes in blocks of %d)", n, o.blk), ct)
		// no 16 byte piece occurs twice
		body := ct[len(ro.Raw):]
		seen := map[string]int{}
		for i := 0; i+16 <= len(body); i++ {
			if j, ok := seen[string(body[i:i+16])]; ok {
				t.Failf("encrypted data repeats itself at %d and %d (blocks of %d, repeating plaintext %v)", j, i, o.blk, rep)
			}
			seen[string(body[i:i+16])] = i
		}
		// the difference of two chunks is not that of their plaintexts
		for i := 0; i+1 < len(ro.Frames) && i < 40; i++ {
			a, b := ro.Frames[i], ro.Frames[i+1]
			m := min(a.n, b.n)
			if m < 8 {
				continue
			}
			x := xor(ct[a.off+4:a.off+4+m], ct[b.off+4:b.off+4+m])
			y := xor(ro.Chunks[i][:m], ro.Chunks[i+1][:m])
			if bytes.Equal(x, y) {
				t.Failf("chunks %d and %d are encrypted with the same key stream", i, i+1)
			}
			t.Count("chunk_pairs", 1)
		}
		t.Seen("%d/%d/%v/%d", o.blk, n, o.stream, nr)
		t.Sample(map[string]any{"blk": o.blk, "len": n, "secret_windows": len(sc.raw)})
	})
	c.Cases("keys-signatures", c.n(100, 3000), func(t *T) {
		sc := newScanner()
		k := t.newKey()
		sc.addKey("private key", k.RefKey)
		d := randBytes(t.R, 100)
		fn := t.write("data", d, 0644)
		sg, err := k.sk.SignFile(fn)
		if err != nil {
			t.Failf("%v", err)
		}
		sb, err := sg.MarshalBinary("c")
		must(err)
		pb, err := k.sk.PublicKey().MarshalBinary("c")
		must(err)
		t.clean(sc, "signature file", sb)
		t.clean(sc, "public key file", pb)
		t.clean(sc, "printed signature", []byte(fmt.Sprintf("%v %+v %q", sg, *sg, sg)))
		t.clean(sc, "printed public key", []byte(fmt.Sprintf("%v %+v", k.pk, *k.pk)))
		t.Seen("%d", t.idx)
	})
	c.casesN("saved-keys", c.n(3, 30), 3, func(t *T) {
		sc := newScanner()
		pw := randPw(t.R)
		k := t.newKey()
		b, err := k.sk.MarshalBinary("c", pw)
		if err != nil {
			t.Failf("%v", err)
		}
		sc.addKey("private key", k.RefKey)
		sc.addPw("passphrase", pw)
		_, y, err := refReadPriv(b, pw)
		if err != nil {
			t.Failf("saved key: %v", err)
		}
		pass := sha512.Sum512(pw)
		kk, err := scrypt.Key(pass[:], unb64(y.Salt), y.Z, y.R, y.P, 32)
		must(err)
		sc.add("key encryption key", kk)
		t.clean(sc, "private key file", b)
		t.Seen("%d", t.idx)
	})

	// error texts of the library
	c.Cases("decrypt-errors", c.n(300, 10000), func(t *T) {
		sc := newScanner()
		k, other, snd := t.newKey(), t.newKey(), t.newKey()
		o := encOpt{rx: []*Key{other, k}, blk: 64, stream: t.idx%2 == 0}
		if t.R.Intn(2) == 0 {
			o.sender = snd
		}
		pt := randBytes(t.R, 300)
		ct := t.encrypt(o, pt)
		ro, err := refOpen(ct, k.RefKey, nil)
		if err != nil {
			t.Failf("%v", err)
		}
		sc.addFile(ro)
		sc.add("plaintext", pt)
		for _, x := range []*Key{k, other, snd} {
			sc.addKey("private key", x.RefKey)
		}
		for i := 0; i < 12; i++ {
			f := append([]byte(nil), ct...)
			switch t.R.Intn(6) {
			case 0:
				f[t.R.Intn(len(f))] ^= 1 << t.R.Intn(8)
			case 1:
				f = f[:t.R.Intn(len(f))]
			case 2: // inside the payload
				f[len(ro.Raw)+t.R.Intn(len(f)-len(ro.Raw))] ^= 1 << t.R.Intn(8)
			case 3: // header with a good checksum
				h, err := refParseHdr(append([]byte(nil), ct...))
				must(err)
				switch t.R.Intn(4) {
				case 0:
					h.Keys[t.R.Intn(2)].DKey = randBytes(t.R, pick(t.R, 33, 47, 48, 49))
				case 1:
					h.Sender = randBytes(t.R, pick(t.R, 0, 80, 81))
				case 2:
					h.Pk = pick(t.R, make([]byte, 32), randBytes(t.R, 31), randBytes(t.R, 32))
				case 3:
					h.Chunk = pick(t.R, uint32(0), 1, 1<<31, 63)
				}
				f = append(h.encode(), ct[len(ro.Raw):]...)
			case 4:
				f = mutate(t.R, f)
			case 5: // untouched; wrong keys below
			}
			for _, d := range []decOpt{{sk: k.sk}, {sk: k.sk, sender: snd.pk}, {sk: k.sk, sender: other.pk}, {sk: snd.sk, sender: snd.pk}} {
				d.stream = t.R.Intn(2) == 0
				d.max = 1 << 20
				_, _, err := t.decrypt(d, f)
				t.cleanErr(sc, "decrypt", err)
			}
		}
		// failing source and destination
		for i := 0; i < 4; i++ {
			d, err := sign.NewDecryptor(bytes.NewReader(ct))
			if err != nil {
				t.Failf("%v", err)
			}
			var spk *sign.PublicKey
			if o.sender != nil {
				spk = snd.pk
			}
			if err = d.SetPrivateKey(k.sk, spk); err != nil {
				t.Failf("%v", err)
			}
			t.cleanErr(sc, "decrypt to a failing destination", d.Decrypt(&Dst{fault: 1 + i, err: io.ErrShortWrite}))
			e, err := sign.NewEncryptor(snd.sk, 32)
			must(err)
			must(e.AddRecipient(k.pk))
			t.cleanErr(sc, "encrypt to a failing destination", e.Encrypt(bytes.NewReader(pt), &Dst{fault: 1 + i, err: io.ErrShortWrite}))
		}
	})
	c.Cases("key-errors", c.n(150, 6000), func(t *T) {
		sc := newScanner()
		k := refKey(t.R)
		pw, wrong := randPw(t.R), randPw(t.R)
		sc.addKey("private key", k)
		sc.addPw("passphrase", pw)
		sc.addPw("wrong passphrase", wrong)
		f := quickPriv(t.R, k, pw, "c")
		_, err := sign.MakePrivateKey(f, func() ([]byte, error) { return wrong, nil })
		if err == nil {
			t.Failf("wrong passphrase accepted")
		}
		t.cleanErr(sc, "wrong passphrase", err)
		_, err = sign.MakePublicKey(f)
		t.cleanErr(sc, "private key as public key", err)
		// a stored key whose content is not a valid key pair
		bad := append([]byte(nil), k.SK...)
		bad[32+t.R.Intn(32)] ^= 1
		for _, s := range [][]byte{bad, k.SK[:32], append(append([]byte(nil), k.SK...), 0), k.SK[:63]} {
			b := refPrivFile(s, pw, "c", randBytes(t.R, 32), 16, 8, 1)
			_, err = sign.MakePrivateKey(b, func() ([]byte, error) { return pw, nil })
			t.cleanErr(sc, "malformed key pair", err)
		}
		for i := 0; i < 6; i++ {
			m := mutate(t.R, f)
			if costly(m) {
				continue
			}
			_, err = sign.MakePrivateKey(m, func() ([]byte, error) { return pw, nil })
			t.cleanErr(sc, "damaged key file", err)
		}
	})
	// OpenSSH keys: the plain ones have the secret in them, and each damage
	// may drag it into a message
	c.Cases("ssh-errors", c.n(40, 1000), func(t *T) {
		sc := newScanner()
		k := refKey(t.R)
		sc.addKey("private key", k)
		pw := randPw(t.R)
		sc.addPw("passphrase", pw)
		s := newSSHPriv(t, k, "some comment")
		blob := s.blob()
		wrong := randPw(t.R)
		sc.addPw("wrong passphrase", wrong)
		if t.idx < 2 {
			f := pemWrap(s.encrypted(pw, randBytes(t.R, 16), 1, []string{"aes256-ctr", "aes256-cbc"}[t.idx]))
			if _, err := sign.MakePrivateKey(f, func() ([]byte, error) { return pw, nil }); err != nil {
				t.Failf("protected key refused: %v", err)
			}
			_, err := sign.MakePrivateKey(f, func() ([]byte, error) { return wrong, nil })
			if err == nil {
				t.Failf("wrong passphrase accepted")
			}
			t.cleanErr(sc, "wrong passphrase of an OpenSSH key", err)
		}
		try := func(what string, b []byte) {
			if costlySSH(b) {
				return
			}
			f := pemWrap(b)
			_, err := sign.MakePrivateKey(f, func() ([]byte, error) { return pw, nil })
			t.cleanErr(sc, what, err)
			_, err = sign.MakePublicKey(f)
			t.cleanErr(sc, what+" as public key", err)
			_, err = sign.MakePublicKeyFromString(string(f))
			t.cleanErr(sc, what+" as key string", err)
			var g sign.Signature
			t.cleanErr(sc, what+" as signature", g.UnmarshalBinary(f))
		}
		// well-formed down to one field that is not
		for i := 0; i < 60; i++ {
			s := newSSHPriv(t, k, "some comment")
			what := ""
			switch t.R.Intn(11) {
			case 0:
				s.priv, what = s.priv[:t.R.Intn(64)], "short private key"
			case 1:
				s.priv, what = append(append([]byte(nil), s.priv...), randBytes(t.R, 1+t.R.Intn(70))...), "long private key"
			case 2:
				s.pub, what = randBytes(t.R, 32), "other public key"
			case 3:
				s.pub, what = s.priv, "private key in place of the public key"
			case 4:
				s.keytype, what = string(s.priv), "private key in place of the key type"
			case 5:
				s.comment, what = string(s.priv), "private key in place of the comment"
				s.priv = nil
			case 6:
				s.pad, what = append([]byte(nil), s.priv...), "private key in place of the padding"
			case 7:
				s.chk1, s.chk2, what = binary.BigEndian.Uint32(s.priv), binary.BigEndian.Uint32(s.priv[4:]), "check values"
			case 8:
				s.outerPub, what = sshPubBlob(s.priv), "outer public key"
			case 9:
				s.extra, what = s.priv, "private key behind the end"
			case 10:
				s.priv, what = append(append([]byte(nil), s.priv[:32]...), randBytes(t.R, 32)...), "mismatched private key"
			}
			what = "OpenSSH key, " + what
			if i%10 == 9 {
				b := s.encrypted(pw, randBytes(t.R, 16), 1, pick(t.R, "aes256-ctr", "aes256-cbc"))
				if len(b) > 0 && t.R.Intn(3) == 0 {
					b = b[:len(b)-1-t.R.Intn(40)]
				}
				try("protected "+what, b)
			} else {
				try(what, s.blob())
			}
		}
		if t.idx == 0 {
			for i := range blob {
				for _, v := range []byte{blob[i] ^ 1, blob[i] ^ 0x40, blob[i] ^ 0x80, 0, 0xff, 64, 100, 120} {
					b := append([]byte(nil), blob...)
					b[i] = v
					try("damaged OpenSSH key", b)
				}
			}
		}
		// every value of the low length bytes
		b := append([]byte(nil), blob...)
		at := len(b) - t.R.Intn(len(b))
		if i := bytes.LastIndex(b, []byte("\x00\x00\x00\x0bssh-ed25519")); t.idx%2 == 0 && i >= 0 {
			at = i + 4 // end of the length of the key type in the private section
		}
		for v := 0; v < 256; v++ {
			b[at-1] = byte(v)
			try("OpenSSH key with a damaged length", b)
		}
		for i := 0; i < 40; i++ {
			try("mutated OpenSSH key", mutate(t.R, blob))
		}
		// the text itself damaged
		f := pemWrap(blob)
		for i := 0; i < 20; i++ {
			m := mutate(t.R, f)
			if p, _ := pem.Decode(m); p != nil && costlySSH(p.Bytes) {
				continue
			}
			sc2 := newScanner()
			sc2.addKey("private key", k)
			_, err := sign.MakePrivateKey(m, func() ([]byte, error) { return pw, nil })
			t.cleanErr(sc2, "damaged OpenSSH key text", err)
			_, err = sign.MakePublicKey(m)
			t.cleanErr(sc2, "damaged OpenSSH key text as public key", err)
		}
	})

	// the commands: everything they print and leave behind
	c.Cases("commands", c.n(60, 2000), func(t *T) { t.secretCommands() })
	c.casesN("generate", c.n(3, 20), 3, func(t *T) {
		sc := newScanner()
		pw := randPw(t.R)
		sc.addPw("passphrase", pw)
		r := t.OK(Run{Args: []string{"generate", "-E", "SECRET_PW", "-c", "cc", t.Path("k")}, Env: []string{"SECRET_PW=" + string(pw)}})
		rk, _, err := refReadPriv(mustRead(t.Path("k.key")), pw)
		if err != nil {
			t.Failf("generated key: %v", err)
		}
		sc.addKey("private key", rk)
		t.cleanRun(sc, r)
		t.cleanFiles(sc, nil)
		t.Seen("%d", t.idx)
	})
}

func (t *T) cleanRun(sc *scanner, r *Ran) {
	t.clean(sc, "standard output of "+r.Cmd, r.Out)
	t.clean(sc, "standard error of "+r.Cmd, r.Err)
}

// cleanFiles scans all files of the case but the given ones.
func (t *T) cleanFiles(sc *scanner, except map[string]bool) {
	filepath.Walk(t.Dir(), func(p string, st os.FileInfo, err error) error {
		if err != nil || !st.Mode().IsRegular() || except[filepath.Base(p)] {
			return nil
		}
		t.clean(sc, "file "+filepath.Base(p), mustRead(p))
		return nil
	})
}

func (t *T) secretCommands() {
	sc := newScanner()
	pw, wrong := randPw(t.R), randPw(t.R)
	k, snd := refKey(t.R), refKey(t.R)
	skf, pkf := t.writeKey("rx", k, string(pw), "c")
	ssf, spf := t.writeKey("snd", snd, string(pw), "c")
	plain := t.write("id_ed25519", pemWrap(newSSHPriv(t, k, "x").blob()), 0600)
	sc.addKey("recipient's private key", k)
	sc.addKey("sender's private key", snd)
	sc.addPw("passphrase", pw)
	sc.addPw("wrong passphrase", wrong)
	data := randBytes(t.R, 500)
	in := t.write("in", data, 0644)
	noData := newScanner()
	for m, x := range map[*map[string]string]map[string]string{&noData.raw: sc.raw, &noData.hex: sc.hex, &noData.b64: sc.b64} {
		for a, b := range x {
			(*m)[a] = b
		}
	}
	sc.add("plaintext", data)
	env := []string{"SECRET_PW=" + string(pw), "WRONG=" + string(wrong)}
	if t.idx%3 > 0 { // talkative surroundings
		lv := []string{"", "1", "9"}[t.idx%3]
		for _, v := range []string{"DEBUG", "VERBOSE", "TRACE", "SIGTOOL_DEBUG", "SIGTOOL_VERBOSE", "SIGTOOL_TRACE", "LOGLEVEL", "LOG_LEVEL", "GODEBUG_SIGTOOL"} {
			env = append(env, v+"="+lv)
		}
	}
	inputs := map[string]bool{"in": true, "id_ed25519": true}
	run := func(s *scanner, args ...string) *Ran {
		r := t.CLI(Run{Args: args, Env: env})
		t.cleanRun(s, r)
		t.Seen("%s/%d/%s", args[0], r.Code, squash(string(r.Err)))
		return r
	}
	E := []string{"-E", "SECRET_PW"}
	a := func(v ...any) (r []string) {
		for _, x := range v {
			switch y := x.(type) {
			case string:
				r = append(r, y)
			case []string:
				r = append(r, y...)
			}
		}
		return
	}
	if r := run(sc, a("encrypt", E, "-s", ssf, "-o", t.Path("f.enc"), "-B", "64", pkf, in)...); r.Code != 0 {
		t.Failf("%v", r)
	}
	ct := mustRead(t.Path("f.enc"))
	ro, err := refOpen(ct, k, snd.PK)
	if err != nil {
		t.Failf("%v", err)
	}
	sc.addFile(ro)
	noData.addFile(ro)
	run(sc, a("sign", E, ssf, in)...)
	run(sc, a("verify", spf, in+".sig", in)...)
	run(sc, a("verify", pkf, in+".sig", in)...)
	run(noData, a("decrypt", E, "-v", spf, skf, t.Path("f.enc"))...)
	run(sc, a("decrypt", E, "-t", "-v", spf, skf, t.Path("f.enc"))...)
	run(sc, a("decrypt", "-t", "-v", spf, plain, t.Path("f.enc"))...)
	// failing ones
	run(sc, a("decrypt", "-E", "WRONG", skf, t.Path("f.enc"))...)
	run(sc, a("decrypt", E, skf, t.Path("f.enc"))...)
	run(sc, a("decrypt", E, "-v", pkf, skf, t.Path("f.enc"))...)
	run(sc, a("decrypt", E, "-v", plain, skf, t.Path("f.enc"))...)
	run(sc, a("decrypt", E, "-v", skf, skf, t.Path("f.enc"))...)
	run(sc, a("decrypt", E, ssf, t.Path("f.enc"))...)
	run(sc, a("decrypt", E, plain, plain)...)
	run(sc, a("decrypt", E, in, in)...)
	run(sc, a("sign", "-E", "WRONG", "--overwrite", ssf, in)...)
	run(sc, a("sign", E, ssf, in)...)
	run(sc, a("sign", "-o", "-", plain, t.Path("nosuchfile"))...)
	run(sc, a("verify", plain, in+".sig", in)...)
	run(sc, a("verify", skf, in+".sig", in)...)
	run(sc, a("verify", spf, plain, in)...)
	run(sc, a("verify", spf, skf, in)...)
	run(sc, a("encrypt", plain, in)...)
	run(sc, a("encrypt", skf, pkf, in)...)
	run(sc, a("encrypt", "-E", "WRONG", "-s", ssf, pkf, in)...)
	run(sc, a("encrypt", E, "-s", plain, pkf, t.Path("nosuchfile"))...)
	for i := 0; i < 4; i++ {
		d := append([]byte(nil), ct...)
		d[t.R.Intn(len(d))] ^= 1 << t.R.Intn(8)
		f := t.write("bad.enc", d, 0644)
		run(sc, a("decrypt", E, "-o", t.Path("bad.out"), "-v", spf, skf, f)...)
		// damaged plain key; the text stays text
		kb := newSSHPriv(t, k, "x").blob()
		if i == 0 {
			// the key type swallows what follows
			j := bytes.LastIndex(kb, []byte("\x00\x00\x00\x0bssh-ed25519"))
			kb[j+3] = byte(64 + t.R.Intn(60))
		} else {
			kb[t.R.Intn(len(kb))] ^= 1 << t.R.Intn(8)
		}
		if !costlySSH(kb) {
			f = t.write("damaged_key", pemWrap(kb), 0600)
			inputs["damaged_key"] = true
			run(sc, a("sign", "-o", "-", f, in)...)
			run(sc, a("encrypt", f, in)...)
		}
	}
	t.cleanFiles(sc, inputs)
}
