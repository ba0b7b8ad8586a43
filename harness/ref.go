// ref.go - independent implementation of the documented formats (version 3)
//
// Nothing in here uses sigtool's code: it is the oracle's own reader, writer
// and forger of encrypted files, keys and signatures.
package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/hkdf"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"hash"
	"math/big"
	"math/rand"
	"strconv"

	"golang.org/x/crypto/scrypt"
	"gopkg.in/yaml.v2"
)

// ---- keys ----

// RefKey is an Ed25519 key pair owned by the reference implementation.
type RefKey struct {
	SK ed25519.PrivateKey
	PK ed25519.PublicKey
}

func refKey(r *rand.Rand) *RefKey {
	seed := make([]byte, 32)
	r.Read(seed)
	return refKeyFromSeed(seed)
}

func refKeyFromSeed(seed []byte) *RefKey {
	sk := ed25519.NewKeyFromSeed(seed)
	return &RefKey{SK: sk, PK: sk.Public().(ed25519.PublicKey)}
}

var fieldP, _ = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)

// RFC 7748 birational map: u = (1+y)/(1-y); nil if y == 1
func refPKToX(pk []byte) []byte {
	be := make([]byte, 32)
	for i := range pk {
		be[31-i] = pk[i]
	}
	be[0] &= 0x7f
	y := new(big.Int).SetBytes(be)
	y.Mod(y, fieldP)
	den := new(big.Int).Sub(big.NewInt(1), y)
	den.Mod(den, fieldP)
	if den.Sign() == 0 {
		return nil
	}
	// Fermat inverse
	inv := new(big.Int).Exp(den, new(big.Int).Sub(fieldP, big.NewInt(2)), fieldP)
	u := new(big.Int).Add(big.NewInt(1), y)
	u.Mul(u, inv).Mod(u, fieldP)
	out := make([]byte, 32)
	u.FillBytes(out)
	for i := 0; i < 16; i++ {
		out[i], out[31-i] = out[31-i], out[i]
	}
	return out
}

func refSKToX(sk ed25519.PrivateKey) []byte {
	h := sha512.Sum512(sk[:32])
	k := make([]byte, 32)
	copy(k, h[:32])
	k[0] &= 248
	k[31] &= 127
	k[31] |= 64
	return k
}

func x25519(sk, pk []byte) ([]byte, error) {
	a, err := ecdh.X25519().NewPrivateKey(sk)
	if err != nil {
		return nil, err
	}
	b, err := ecdh.X25519().NewPublicKey(pk)
	if err != nil {
		return nil, err
	}
	return a.ECDH(b)
}

func x25519Pub(sk []byte) []byte {
	a, err := ecdh.X25519().NewPrivateKey(sk)
	must(err)
	return a.PublicKey().Bytes()
}

func refHash(pk []byte) []byte { h := sha256.Sum256(pk); return h[:16] }

// ---- key and signature files ----

type yamlPriv struct {
	Comment string `yaml:"comment,omitempty"`
	Esk     string `yaml:"esk"`
	Salt    string `yaml:"salt,omitempty"`
	Algo    string `yaml:"algo,omitempty"`
	Z       int    `yaml:"Z,flow,omitempty"`
	R       int    `yaml:"r,flow,omitempty"`
	P       int    `yaml:"p,flow,omitempty"`
}

type yamlPub struct {
	Comment string `yaml:"comment,omitempty"`
	Pk      string `yaml:"pk"`
	Hash    string `yaml:"hash"`
}

type yamlSig struct {
	Comment   string `yaml:"comment,omitempty"`
	Pkhash    string `yaml:"pkhash,omitempty"`
	Signature string `yaml:"signature"`
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }
func unb64(s string) []byte {
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		return nil
	}
	return b
}

func gcm(key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	must(err)
	g, err := cipher.NewGCM(b)
	must(err)
	return g
}

func refEsk(secret, pw, salt []byte, n, r, p int) []byte {
	pass := sha512.Sum512(pw)
	k, err := scrypt.Key(pass[:], salt, n, r, p, 32)
	must(err)
	return gcm(k).Seal(nil, salt[:12], secret, nil)
}

// refPrivFile writes a private key file with the given scrypt parameters.
func refPrivFile(secret []byte, pw []byte, comment string, salt []byte, n, r, p int) []byte {
	out, err := yaml.Marshal(&yamlPriv{comment, b64(refEsk(secret, pw, salt, n, r, p)), b64(salt), "scrypt-sha256", n, r, p})
	must(err)
	return out
}

// quickPriv is a private key file that is cheap to open.
func quickPriv(rd *rand.Rand, k *RefKey, pw []byte, comment string) []byte {
	salt := make([]byte, 32)
	rd.Read(salt)
	return refPrivFile(k.SK, pw, comment, salt, 16, 8, 1)
}

func refReadPriv(b, pw []byte) (*RefKey, *yamlPriv, error) {
	var y yamlPriv
	if err := yaml.Unmarshal(b, &y); err != nil {
		return nil, nil, err
	}
	salt, esk := unb64(y.Salt), unb64(y.Esk)
	if len(salt) < 12 || len(esk) != 80 {
		return nil, &y, fmt.Errorf("malformed key file: salt %d esk %d", len(salt), len(esk))
	}
	pass := sha512.Sum512(pw)
	k, err := scrypt.Key(pass[:], salt, y.Z, y.R, y.P, 32)
	if err != nil {
		return nil, &y, err
	}
	sk, err := gcm(k).Open(nil, salt[:12], esk, nil)
	if err != nil {
		return nil, &y, err
	}
	rk := refKeyFromSeed(sk[:32])
	if !bytes.Equal(rk.SK, sk) {
		return nil, &y, errors.New("halves disagree")
	}
	return rk, &y, nil
}

func refPubFile(pk []byte, comment string) []byte {
	out, err := yaml.Marshal(&yamlPub{comment, b64(pk), b64(refHash(pk))})
	must(err)
	return out
}

func refReadPub(b []byte) ([]byte, *yamlPub, error) {
	var y yamlPub
	if err := yaml.Unmarshal(b, &y); err != nil {
		return nil, nil, err
	}
	pk := unb64(y.Pk)
	if len(pk) != 32 {
		return nil, &y, fmt.Errorf("pk has %d bytes", len(pk))
	}
	if !bytes.Equal(unb64(y.Hash), refHash(pk)) {
		return nil, &y, fmt.Errorf("hash mismatch")
	}
	return pk, &y, nil
}

func signDigest(ck []byte) []byte {
	h := sha512.New()
	h.Write([]byte("sigtool signed message"))
	h.Write(ck)
	return h.Sum(nil)
}

func refSignMsg(sk ed25519.PrivateKey, ck []byte) []byte { return ed25519.Sign(sk, signDigest(ck)) }
func refVerifyMsg(pk []byte, ck, sig []byte) bool {
	return len(sig) == 64 && ed25519.Verify(pk, signDigest(ck), sig)
}

func refFileCksum(content []byte) []byte {
	h := sha512.New()
	h.Write(content)
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(len(content)))
	h.Write(b[:])
	return h.Sum(nil)
}

func refSigFile(k *RefKey, ck []byte, comment string) []byte {
	out, err := yaml.Marshal(&yamlSig{comment, b64(refHash(k.PK)), b64(refSignMsg(k.SK, ck))})
	must(err)
	return out
}

func refReadSig(b []byte) (sig, hash []byte, comment string, err error) {
	var y yamlSig
	if err = yaml.Unmarshal(b, &y); err != nil {
		return
	}
	return unb64(y.Signature), unb64(y.Pkhash), y.Comment, nil
}

// ---- encrypted files ----

type RefWrap struct {
	DKey, Nonce []byte
}

// RefHdr is the decoded header of an encrypted file.
type RefHdr struct {
	Magic   string
	Version byte
	Chunk   uint32
	Salt    []byte
	Pk      []byte
	Sender  []byte
	Keys    []RefWrap
	VarLen  uint32 // as stored
	Var     []byte
	Sum     []byte
	Raw     []byte // whole header
}

func putTag(b *bytes.Buffer, field, wire int) { putUvarint(b, uint64(field<<3|wire)) }
func putUvarint(b *bytes.Buffer, v uint64) {
	var x [10]byte
	b.Write(x[:binary.PutUvarint(x[:], v)])
}
func putBytes(b *bytes.Buffer, field int, v []byte) {
	if len(v) == 0 {
		return
	}
	putTag(b, field, 2)
	putUvarint(b, uint64(len(v)))
	b.Write(v)
}

// encodes the variable segment
func (h *RefHdr) encodeVar() []byte {
	var b bytes.Buffer
	if h.Chunk != 0 {
		putTag(&b, 1, 0)
		putUvarint(&b, uint64(h.Chunk))
	}
	putBytes(&b, 2, h.Salt)
	putBytes(&b, 3, h.Pk)
	putBytes(&b, 4, h.Sender)
	for _, k := range h.Keys {
		var w bytes.Buffer
		putBytes(&w, 1, k.DKey)
		putBytes(&w, 2, k.Nonce)
		putTag(&b, 5, 2)
		putUvarint(&b, uint64(w.Len()))
		b.Write(w.Bytes())
	}
	return b.Bytes()
}

// sealHdr builds a complete header around a variable segment
func sealHdr(magic string, ver byte, vr []byte) []byte {
	var b bytes.Buffer
	b.WriteString(magic)
	b.WriteByte(ver)
	var l [4]byte
	binary.BigEndian.PutUint32(l[:], uint32(len(vr)))
	b.Write(l[:])
	b.Write(vr)
	s := sha256.Sum256(b.Bytes())
	b.Write(s[:])
	return b.Bytes()
}

func (h *RefHdr) encode() []byte {
	m, v := h.Magic, h.Version
	if m == "" {
		m, v = "SigTool", 3
	}
	return sealHdr(m, v, h.encodeVar())
}

type pbField struct {
	num, wire  int
	v          uint64
	b          []byte
	start, end int
}

func pbFields(b []byte) ([]pbField, error) {
	var r []pbField
	i := 0
	for i < len(b) {
		st := i
		t, n := binary.Uvarint(b[i:])
		if n <= 0 {
			return nil, errors.New("pb: bad tag")
		}
		i += n
		f := pbField{num: int(t >> 3), wire: int(t & 7), start: st}
		switch f.wire {
		case 0:
			v, n := binary.Uvarint(b[i:])
			if n <= 0 {
				return nil, errors.New("pb: bad varint")
			}
			f.v = v
			i += n
		case 2:
			l, n := binary.Uvarint(b[i:])
			if n <= 0 || l > uint64(len(b)-i-n) {
				return nil, errors.New("pb: bad length")
			}
			i += n
			f.b = b[i : i+int(l)]
			i += int(l)
		default:
			return nil, fmt.Errorf("pb: wire type %d", f.wire)
		}
		f.end = i
		r = append(r, f)
	}
	return r, nil
}

func refParseHdr(file []byte) (*RefHdr, error) {
	if len(file) < 12 {
		return nil, errors.New("short header")
	}
	h := &RefHdr{Magic: string(file[:7]), Version: file[7], VarLen: binary.BigEndian.Uint32(file[8:12])}
	if h.Magic != "SigTool" || h.Version != 3 {
		return h, fmt.Errorf("magic %q version %d", h.Magic, h.Version)
	}
	if uint64(len(file)) < 12+uint64(h.VarLen)+32 {
		return h, errors.New("short header")
	}
	n := 12 + int(h.VarLen)
	h.Var = file[12:n]
	h.Sum = file[n : n+32]
	h.Raw = file[:n+32]
	s := sha256.Sum256(file[:n])
	if !bytes.Equal(s[:], h.Sum) {
		return h, errors.New("header checksum")
	}
	fs, err := pbFields(h.Var)
	if err != nil {
		return h, err
	}
	for _, f := range fs {
		switch {
		case f.num == 1 && f.wire == 0:
			h.Chunk = uint32(f.v)
		case f.num == 2 && f.wire == 2:
			h.Salt = f.b
		case f.num == 3 && f.wire == 2:
			h.Pk = f.b
		case f.num == 4 && f.wire == 2:
			h.Sender = f.b
		case f.num == 5 && f.wire == 2:
			ws, err := pbFields(f.b)
			if err != nil {
				return h, err
			}
			var w RefWrap
			for _, x := range ws {
				if x.num == 1 {
					w.DKey = x.b
				} else if x.num == 2 {
					w.Nonce = x.b
				}
			}
			h.Keys = append(h.Keys, w)
		default:
			return h, fmt.Errorf("unexpected field %d", f.num)
		}
	}
	return h, nil
}

func expandKey(secret, salt []byte, info string, n int) []byte {
	b, err := hkdf.Key(sha512.New, secret, salt, info, n)
	must(err)
	return b
}

// RefFile can build encrypted files in any (also malicious) way.
type RefFile struct {
	RefHdr
	Root   []byte // root key
	EphSK  []byte
	Signer *RefKey // sender identity or nil

	// derived from Root and header
	dk, nonce, hk []byte
	hm            []byte
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func newRefFile(r *rand.Rand, chunk uint32, signer *RefKey) *RefFile {
	f := &RefFile{Root: randBytes(r, 32), EphSK: randBytes(r, 32), Signer: signer}
	f.EphSK[0] &= 248
	f.EphSK[31] &= 127
	f.EphSK[31] |= 64
	f.Chunk = chunk
	f.Salt = randBytes(r, 32)
	f.Pk = x25519Pub(f.EphSK)
	f.Sender = f.sealSender(f.senderSig())
	return f
}

func senderDigest(pk, salt, root []byte) []byte {
	h := sha256.New()
	h.Write([]byte("SigTool"))
	h.Write([]byte{3})
	h.Write(pk)
	h.Write(salt)
	h.Write(root)
	return h.Sum(nil)
}

func (f *RefFile) senderSig() []byte {
	if f.Signer == nil {
		return make([]byte, 64)
	}
	return refSignMsg(f.Signer.SK, senderDigest(f.Pk, f.Salt, f.Root))
}

func (f *RefFile) sealSender(sig []byte) []byte {
	k := expandKey(f.Root, f.Salt, "Sender Sig", 44)
	return gcm(k[:32]).Seal(nil, k[32:], sig, nil)
}

func (f *RefFile) wrapFor(r *rand.Rand, pk []byte) RefWrap {
	x := refPKToX(pk)
	sh, err := x25519(f.EphSK, x)
	must(err)
	nonce := randBytes(r, 12)
	kek := wrapKEK(sh, f.Salt, nonce)
	return RefWrap{DKey: gcm(kek[:32]).Seal(nil, kek[32:], f.Root, pk), Nonce: nonce}
}

func wrapKEK(shared, salt, nonce []byte) []byte {
	h := sha256.New()
	h.Write(salt)
	h.Write(nonce)
	return expandKey(shared, h.Sum(nil), "Receiver Key", 44)
}

func (f *RefFile) addRx(r *rand.Rand, pk []byte) { f.Keys = append(f.Keys, f.wrapFor(r, pk)) }

// dataKeys derives the data keys for a header with checksum sum
func dataKeys(root, sum []byte) (nonce, dk, hk []byte) {
	k := expandKey(root, sum, "Data Key Expansion", 76)
	return k[:12], k[12:44], k[44:]
}

const eofBit = 1 << 31

// sealChunk returns one encrypted chunk
func sealChunk(dk, nonce []byte, idx uint32, pt []byte, eof bool) []byte {
	var l [4]byte
	z := uint32(len(pt))
	if eof {
		z |= eofBit
	}
	binary.BigEndian.PutUint32(l[:], z)
	return append(l[:], gcm(dk).Seal(nil, chunkNonce(nonce, idx), pt, l[:])...)
}

func chunkNonce(nonce []byte, idx uint32) []byte {
	n := append([]byte(nil), nonce...)
	binary.BigEndian.PutUint32(n[:4], idx)
	return n
}

func chunkMac(hk []byte, chunks [][]byte) []byte {
	m := hmac.New(sha256.New, hk)
	for i, c := range chunks {
		var l [4]byte
		z := uint32(len(c))
		if i == len(chunks)-1 {
			z |= eofBit
		}
		binary.BigEndian.PutUint32(l[:], z)
		m.Write(l[:])
		m.Write(c)
	}
	return m.Sum(nil)
}

// body encrypts chunks (the last gets the EOF mark) under header bytes hdr
func (f *RefFile) body(r *rand.Rand, hdr []byte, chunks [][]byte) (ct []byte, trailer []byte) {
	sum := hdr[len(hdr)-32:]
	nonce, dk, hk := dataKeys(f.Root, sum)
	for i, c := range chunks {
		ct = append(ct, sealChunk(dk, nonce, uint32(i), c, i == len(chunks)-1)...)
	}
	if f.Signer != nil {
		trailer = refSignMsg(f.Signer.SK, chunkMac(hk, chunks))
	} else {
		trailer = randBytes(r, 64)
	}
	return
}

// split cuts data in chunks of exactly n bytes, the last one shorter or equal
func splitChunks(b []byte, n int) (r [][]byte) {
	for len(b) > n {
		r = append(r, b[:n])
		b = b[n:]
	}
	return append(r, b)
}

// Encrypt makes a complete file
func (f *RefFile) Encrypt(r *rand.Rand, pt []byte) []byte {
	hdr := f.encode()
	ct, tr := f.body(r, hdr, splitChunks(pt, int(f.Chunk)))
	return append(append(append([]byte(nil), hdr...), ct...), tr...)
}

// RefOpen is what the reference reader learnt from an encrypted file.
type RefOpen struct {
	*RefHdr
	Index     int // recipient
	Root      []byte
	EphShared []byte
	Signed    bool // sender info present
	SenderSig []byte
	DataNonce []byte
	DataKey   []byte
	MacKey    []byte
	Chunks    [][]byte
	PT        []byte
	Trailer   []byte
	Frames    []refFrame
}

type refFrame struct {
	off, end int // position in the file
	n        int
	eof      bool
}

// refOpen decrypts file for key k, strictly.
func refOpen(file []byte, k *RefKey, sender []byte) (*RefOpen, error) {
	h, err := refParseHdr(file)
	if err != nil {
		return nil, err
	}
	o := &RefOpen{RefHdr: h, Index: -1}
	sh, err := x25519(refSKToX(k.SK), h.Pk)
	if err != nil {
		return nil, err
	}
	o.EphShared = sh
	for i, w := range h.Keys {
		if len(w.Nonce) != 12 || len(w.DKey) != 48 {
			return nil, fmt.Errorf("wrapped key %d: %d/%d bytes", i, len(w.DKey), len(w.Nonce))
		}
		kek := wrapKEK(sh, h.Salt, w.Nonce)
		if root, err := gcm(kek[:32]).Open(nil, kek[32:], w.DKey, k.PK); err == nil {
			o.Index, o.Root = i, root
			break
		}
	}
	if o.Root == nil {
		return nil, errors.New("not a recipient")
	}
	if len(h.Salt) != 32 || len(h.Pk) != 32 || len(h.Sender) != 80 {
		return nil, fmt.Errorf("salt %d pk %d sender %d", len(h.Salt), len(h.Pk), len(h.Sender))
	}
	sk := expandKey(o.Root, h.Salt, "Sender Sig", 44)
	o.SenderSig, err = gcm(sk[:32]).Open(nil, sk[32:], h.Sender, nil)
	if err != nil {
		return nil, fmt.Errorf("sender: %v", err)
	}
	o.Signed = !bytes.Equal(o.SenderSig, make([]byte, 64))
	if o.Signed && sender != nil && !refVerifyMsg(sender, senderDigest(h.Pk, h.Salt, o.Root), o.SenderSig) {
		return nil, errors.New("sender signature")
	}
	o.DataNonce, o.DataKey, o.MacKey = dataKeys(o.Root, h.Sum)
	fr, rest, err := refFrames(file, len(h.Raw))
	if err != nil {
		return nil, err
	}
	o.Frames = fr
	for i, f := range fr {
		if uint32(f.n) > h.Chunk {
			return nil, fmt.Errorf("chunk %d has %d bytes, block size %d", i, f.n, h.Chunk)
		}
		if !f.eof && f.n == 0 {
			return nil, fmt.Errorf("empty chunk %d", i)
		}
		b := file[f.off:f.end]
		pt, err := gcm(o.DataKey).Open(nil, chunkNonce(o.DataNonce, uint32(i)), b[4:], b[:4])
		if err != nil {
			return nil, fmt.Errorf("chunk %d: %v", i, err)
		}
		o.Chunks = append(o.Chunks, pt)
		o.PT = append(o.PT, pt...)
	}
	if len(rest) != 64 {
		return nil, fmt.Errorf("trailer has %d bytes", len(rest))
	}
	o.Trailer = rest
	if o.Signed && sender != nil && !refVerifyMsg(sender, chunkMac(o.MacKey, o.Chunks), rest) {
		return nil, errors.New("trailer signature")
	}
	return o, nil
}

// refFrames finds the chunk boundaries
func refFrames(file []byte, off int) ([]refFrame, []byte, error) {
	var r []refFrame
	for {
		if len(file) < off+4 {
			return r, nil, errors.New("short chunk header")
		}
		z := binary.BigEndian.Uint32(file[off:])
		n := int(z &^ eofBit)
		end := off + 4 + n + 16
		if end > len(file) {
			return r, nil, errors.New("short chunk")
		}
		f := refFrame{off, end, n, z&eofBit != 0}
		r = append(r, f)
		off = end
		if f.eof {
			return r, file[off:], nil
		}
	}
}

// ---- OpenSSH formats ----

func sshStr(b ...[]byte) []byte {
	var r []byte
	for _, x := range b {
		var l [4]byte
		binary.BigEndian.PutUint32(l[:], uint32(len(x)))
		r = append(append(r, l[:]...), x...)
	}
	return r
}

func sshPubBlob(pk []byte) []byte { return sshStr([]byte("ssh-ed25519"), pk) }

// sshPubLine is what ssh-keygen writes
func sshPubLine(pk []byte, comment string) string {
	s := "ssh-ed25519 " + b64(sshPubBlob(pk))
	if comment != "" {
		s += " " + comment
	}
	return s + "\n"
}

func itoa(i int) string { return strconv.Itoa(i) }

func newSHA512() hash.Hash { return sha512.New() }
