// sut.go - thin wrappers around the API of the code under test
package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"math/rand"
	"sort"

	"github.com/opencoff/sigtool/sign"
)

// Key is one key pair as both implementations see it.
type Key struct {
	*RefKey
	sk *sign.PrivateKey
	pk *sign.PublicKey
}

// newKey makes a key pair and loads it into the code under test.
func (t *T) newKey() *Key { return t.loadKey(refKey(t.R)) }

func (t *T) loadKey(k *RefKey) *Key {
	sk, err := sign.MakePrivateKey(quickPriv(t.R, k, nil, ""), func() ([]byte, error) { return nil, nil })
	if err != nil {
		t.Failf("valid private key file refused: %v", err)
	}
	pk, err := sign.MakePublicKey(refPubFile(k.PK, ""))
	if err != nil {
		t.Failf("valid public key file refused: %v", err)
	}
	return &Key{k, sk, pk}
}

func (t *T) newKeys(n int) []*Key {
	r := make([]*Key, n)
	for i := range r {
		r[i] = t.newKey()
	}
	return r
}

type encOpt struct {
	sender *Key
	rx     []*Key
	blk    uint64
	stream bool
	seg    func() int // segmentation of source or of the writes
}

// encryptTo encrypts pt into d; closes are part of it
func (t *T) encryptTo(o encOpt, pt []byte, d *Dst) error {
	var s *sign.PrivateKey
	if o.sender != nil {
		s = o.sender.sk
	}
	e, err := sign.NewEncryptor(s, o.blk)
	if err != nil {
		return fmt.Errorf("NewEncryptor: %w", err)
	}
	for i, k := range o.rx {
		if err := e.AddRecipient(k.pk); err != nil {
			return fmt.Errorf("AddRecipient %d: %w", i, err)
		}
	}
	if !o.stream {
		src := newSrc(pt)
		src.seg = o.seg
		return e.Encrypt(src, d)
	}
	w, err := e.NewStreamWriter(d)
	if err != nil {
		return fmt.Errorf("NewStreamWriter: %w", err)
	}
	for b := pt; len(b) > 0; {
		n := len(b)
		if o.seg != nil {
			n = min(n, max(1, o.seg()))
		}
		m, err := w.Write(b[:n])
		if err != nil {
			return fmt.Errorf("Write: %w", err)
		}
		if m != n {
			t.Failf("stream Write of %d bytes returned %d without error", n, m)
		}
		b = b[n:]
	}
	return w.Close()
}

// encrypt encrypts and requires success.
func (t *T) encrypt(o encOpt, pt []byte) []byte {
	d := &Dst{}
	if err := t.encryptTo(o, pt, d); err != nil {
		t.Failf("encryption of %d bytes (block size %d, %d recipients) failed: %v", len(pt), o.blk, len(o.rx), err)
	}
	return append([]byte(nil), d.Bytes()...)
}

type decOpt struct {
	sk     *sign.PrivateKey
	sender *sign.PublicKey
	stream bool
	seg    func() int // segmentation of the encrypted input
	rseg   func() int // read sizes
	max    int        // more output than this is a violation
}

// decrypt returns whatever plaintext is released, and the verdict.
func (t *T) decrypt(o decOpt, file []byte) (pt []byte, auth bool, err error) {
	src := newSrc(file)
	src.seg = o.seg
	return t.decryptFrom(o, src)
}

func (t *T) decryptFrom(o decOpt, src io.Reader) (pt []byte, auth bool, err error) {
	d, err := sign.NewDecryptor(src)
	if err != nil {
		return nil, false, err
	}
	if err = d.SetPrivateKey(o.sk, o.sender); err != nil {
		return nil, d.AuthenticatedSender(), err
	}
	auth = d.AuthenticatedSender()
	if !o.stream {
		dst := &Dst{}
		err = d.Decrypt(dst)
		return append([]byte(nil), dst.Bytes()...), auth, err
	}
	r, err := d.NewStreamReader()
	if err != nil {
		return nil, auth, err
	}
	next := o.rseg
	if next == nil {
		next = func() int { return 65536 }
	}
	mx := o.max
	if mx == 0 {
		mx = 1 << 30
	}
	pt, err, breach := readAllSized(r, next, mx)
	if breach != "" {
		t.Failf("%s", breach)
	}
	if err == io.EOF {
		err = nil
	}
	return pt, auth, err
}

// same contents with a short description when not
func diffBytes(got, want []byte) string {
	if bytes.Equal(got, want) {
		return ""
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("got %d bytes (sha256 %x), want %d bytes (sha256 %x), first difference at %d", len(got), sum8(got), len(want), sum8(want), i)
}

func sum8(b []byte) []byte { s := sha256.Sum256(b); return s[:6] }

// text makes recognisable and never repeating plaintext
func patterned(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0:
		r.Read(b)
	case 1: // text
		const s = "The quick brown fox jumps over the lazy dog 0123456789. "
		o := r.Intn(1000)
		for i := range b {
			b[i] = s[(i+o+i/97)%len(s)]
		}
	case 2: // zeros with some bytes
		for i := 0; i < n; i += 1 + r.Intn(64) {
			b[i] = byte(r.Intn(256))
		}
	case 3:
		v := byte(r.Intn(256))
		for i := range b {
			b[i] = v
		}
	}
	return b
}

// boundary lengths around multiples of blk
func boundaryLens(blk int) []int {
	v := []int{0, 1, 2, blk - 1, blk, blk + 1, 2*blk - 1, 2 * blk, 2*blk + 1, 3*blk - 1, 3 * blk, 5*blk + 1}
	seen := map[int]bool{}
	var r []int
	for _, x := range v {
		if x >= 0 && !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	return r
}

func pick[T any](r *rand.Rand, v ...T) T { return v[r.Intn(len(v))] }

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sortedInts(m map[int]bool) []int {
	r := make([]int, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}
