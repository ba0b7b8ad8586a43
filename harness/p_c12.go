package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/opencoff/sigtool/sign"
)

// C12: contexts are one-shot and refuse misuse
func init() {
	register("C12", &Prop{MinEval: 300,
		Rule: "random call histories on encryption contexts (add recipient, bulk encrypt, open stream, write, close; failing sources and destinations) and decryption contexts (right and wrong keys and senders, bulk, stream, reads, again), compared step by step with a state model; all histories of up to 4 (5) calls are enumerated, longer ones random. Distinct: call histories.",
		Run:  runC12})
}

const encOps = "alEfghSscWwCvx"

// one history of an encryption context
//
//	a  add a recipient            l  add a recipient that has to be refused
//	E  bulk encrypt               h  bulk encrypt, closing the destination fails
//	f  bulk encrypt, source fails g  bulk encrypt, destination fails late
//	S  open a stream              s  open a stream on a failing destination
//	c  open a stream on a destination that fails to close
//	W  write a block and more     w  write one byte     v empty write
//	C  close the newest stream    x  close the oldest stream
func encHistory(t *T, ops string) {
	t.Set("history", ops)
	sender := t.newKey()
	var ssk *sign.PrivateKey
	signed := t.R.Intn(2) == 0
	if signed {
		ssk = sender.sk
	}
	const blk = 16
	e, err := sign.NewEncryptor(ssk, blk)
	if err != nil {
		t.Failf("NewEncryptor: %v", err)
	}
	type stream struct {
		w      io.WriteCloser
		d      *Dst
		pt     []byte
		closed bool
	}
	var rx []*Key
	var streams []*stream
	type made struct {
		d  *Dst
		pt []byte
	}
	var done []made    // complete ciphertexts
	var touched []*Dst // destinations that saw anything of the payload
	pool := t.newKeys(3)
	begun := false // encryption has begun for sure
	maybe := false // a failed attempt: may or may not count as begun
	for pos, op := range ops {
		at := fmt.Sprintf("call %d (%c) of %q", pos, op, ops)
		t.Count("calls", 1)
		switch op {
		case 'a':
			k := pool[t.R.Intn(3)]
			err := e.AddRecipient(k.pk)
			switch {
			case begun && err == nil:
				t.Failf("%s: recipient added after encryption began", at)
			case !begun && !maybe && err != nil:
				t.Failf("%s: recipient refused: %v", at, err)
			case err == nil:
				rx = append(rx, k)
			}
		case 'l':
			if err := e.AddRecipient(unusableKey(t)); err == nil {
				t.Failf("%s: unusable recipient accepted", at)
			}
		case 'E', 'f', 'g', 'h':
			pt := patterned(t.R, t.R.Intn(60)+20)
			src := newSrc(pt)
			d := &Dst{}
			if op == 'f' {
				src.fault, src.err = 1+t.R.Intn(2), errInjected
				src.seg = func() int { return 17 }
			}
			if op == 'g' {
				d.fault, d.err, d.failForever = 2+t.R.Intn(2), errInjected, true
			}
			if op == 'h' {
				d.closeErr = errInjected
			}
			err := e.Encrypt(src, d)
			switch {
			case begun:
				if err == nil {
					t.Failf("%s: second encryption with the same context accepted", at)
				}
				if d.total > 0 {
					t.Failf("%s: refused encryption wrote %d bytes", at, d.total)
				}
				if d.closes > 0 {
					t.Count("refused_closed_dest", 1)
				}
			case op != 'E':
				if err == nil && !(op == 'g' && !d.fired) {
					t.Failf("%s: failing I/O not reported", at)
				}
				if err == nil {
					begun = true
					done = append(done, made{d, pt})
				} else {
					maybe = true
				}
			case err == nil:
				begun = true
				done = append(done, made{d, pt})
			case maybe:
				if d.total > 0 {
					t.Count("partial_retry", 1)
				}
			case len(rx) == 0: // nobody to encrypt to: may be refused
				maybe = true
			default:
				t.Failf("%s: refused: %v", at, err)
			}
			if d.total > 0 {
				touched = append(touched, d)
			}
		case 'S', 's', 'c':
			d := &Dst{}
			if op == 'c' {
				d.closeErr = errInjected
			}
			if op == 's' {
				d.fault, d.err, d.failForever = 2, errInjected, true
			}
			w, err := e.NewStreamWriter(d)
			switch {
			case begun:
				if err == nil {
					t.Failf("%s: second stream on the same context accepted", at)
				}
				if d.total > 0 {
					t.Failf("%s: refused stream wrote %d bytes", at, d.total)
				}
			case err == nil:
				begun = true
				streams = append(streams, &stream{w: w, d: d})
			case maybe:
			case len(rx) == 0:
				maybe = true
			default:
				t.Failf("%s: refused: %v", at, err)
			}
			if d.total > 0 {
				touched = append(touched, d)
			}
		case 'W', 'w', 'v':
			if len(streams) == 0 {
				continue
			}
			s := streams[len(streams)-1]
			b := patterned(t.R, map[rune]int{'W': blk*2 + 5, 'w': 1, 'v': 0}[op])
			was := s.d.total
			n, err := s.w.Write(b)
			switch {
			case s.closed:
				if err == nil && len(b) > 0 || n != 0 {
					t.Failf("%s: write after close: %d, %v", at, n, err)
				}
				if s.d.total != was {
					t.Failf("%s: write after close reached the destination", at)
				}
			case err == nil:
				if n != len(b) {
					t.Failf("%s: wrote %d of %d without error", at, n, len(b))
				}
				if s.d.fired {
					t.Failf("%s: destination failed but Write reports success", at)
				}
				s.pt = append(s.pt, b...)
			case !s.d.fired:
				t.Failf("%s: write refused: %v", at, err)
			}
		case 'C', 'x':
			if len(streams) == 0 {
				continue
			}
			s := streams[len(streams)-1]
			if op == 'x' {
				s = streams[0]
			}
			was, wc := s.d.total, s.d.closes
			err := s.w.Close()
			switch {
			case s.closed:
				if err == nil {
					t.Failf("%s: second close accepted", at)
				}
				if s.d.total != was || s.d.closes != wc {
					t.Failf("%s: second close reached the destination", at)
				}
			case err == nil:
				if s.d.fired || s.d.closeErr != nil {
					t.Failf("%s: destination failed but Close reports success", at)
				}
				if s.d.closes != 1 {
					t.Failf("%s: destination closed %d times", at, s.d.closes)
				}
				s.closed = true
				done = append(done, made{s.d, s.pt})
			case !s.d.fired && s.d.closeErr == nil:
				t.Failf("%s: close failed: %v", at, err)
			default:
				if s.d.closes > 1 {
					t.Failf("%s: destination closed %d times", at, s.d.closes)
				}
				s.closed = true
			}
		}
	}
	if len(done) > 1 {
		t.Failf("one context made %d ciphertexts", len(done))
	}
	// payload under the same keys in more than one place?
	n := 0
	for _, d := range touched {
		if h, err := refParseHdr(d.Bytes()); err == nil && d.total > int64(len(h.Raw)) {
			n++
		}
	}
	for _, s := range streams {
		if h, err := refParseHdr(s.d.Bytes()); err == nil && s.d.total > int64(len(h.Raw)) && !inDst(touched, s.d) {
			n++
		}
	}
	if n > 1 {
		t.Failf("history %q: data encrypted under the same keys to %d destinations", ops, n)
	}
	for _, m := range done {
		for _, k := range rx {
			d := decOpt{sk: k.sk}
			if signed {
				d.sender = sender.pk
			}
			got, _, err := t.decrypt(d, m.d.Bytes())
			if err != nil {
				t.Failf("history %q: result can't be decrypted: %v", ops, err)
			}
			if s := diffBytes(got, m.pt); s != "" {
				t.Failf("history %q: %s", ops, s)
			}
			t.Count("decrypted_results", 1)
		}
	}
	t.Seen("enc %s", ops)
}

// unusableKey is a public key nobody can be encrypted to.
func unusableKey(t *T) *sign.PublicKey {
	pk, err := sign.MakePublicKey(refPubFile(pick(t.R, smallOrder()...), ""))
	if err != nil || pk == nil {
		return &sign.PublicKey{Pk: pick(t.R, smallOrder()...)}
	}
	return pk
}

func inDst(v []*Dst, d *Dst) bool {
	for _, x := range v {
		if x == d {
			return true
		}
	}
	return false
}

const decOps = "kwpqDNrR"

// one history of a decryption context
//
//	k  right key (and sender)     w  wrong key
//	p  right key, wrong sender    q  right key, sender missing or superfluous
//	D  bulk decrypt               N  open a stream
//	r  read a little              R  read to the end
func decHistory(t *T, ops string, signed bool) {
	t.Set("history", ops)
	t.Set("signed", signed)
	me, other, sender := t.newKey(), t.newKey(), t.newKey()
	const blk = 16
	pt := patterned(t.R, pick(t.R, 0, 5, 16, 40, 64))
	o := encOpt{rx: []*Key{other, me}[t.R.Intn(2):], blk: blk}
	if signed {
		o.sender = sender
	}
	if len(o.rx) == 2 {
		o.rx[0] = t.newKey()
	}
	file := t.encrypt(o, pt)
	d, err := sign.NewDecryptor(bytes.NewReader(file))
	if err != nil {
		t.Failf("NewDecryptor: %v", err)
	}
	var spk, wrong *sign.PublicKey
	if signed {
		spk = sender.pk
	} else {
		wrong = sender.pk
	}
	key, used := false, false
	authSeen := func(at string) {
		if want := key && signed; d.AuthenticatedSender() != want {
			t.Failf("%s: AuthenticatedSender is %v, want %v", at, !want, want)
		}
	}
	var rd io.Reader
	var got []byte
	ended := false
	for pos, op := range ops {
		at := fmt.Sprintf("call %d (%c) of %q (signed %v)", pos, op, ops, signed)
		t.Count("calls", 1)
		switch op {
		case 'k':
			err := d.SetPrivateKey(me.sk, spk)
			if !used && err != nil {
				t.Failf("%s: right key refused: %v", at, err)
			}
			if err == nil {
				key = true
			}
		case 'w':
			if err := d.SetPrivateKey(other.sk, spk); err == nil {
				t.Failf("%s: wrong key accepted", at)
			}
		case 'p':
			if err := d.SetPrivateKey(me.sk, other.pk); err == nil {
				t.Failf("%s: wrong sender accepted", at)
			}
		case 'q':
			if err := d.SetPrivateKey(me.sk, wrong); err == nil {
				t.Failf("%s: missing or superfluous sender accepted", at)
			}
		case 'D':
			dst := &Dst{}
			err := d.Decrypt(dst)
			switch {
			case !key || used:
				if err == nil {
					t.Failf("%s: accepted (key %v, used %v)", at, key, used)
				}
				if dst.total > 0 {
					t.Failf("%s: refused decryption wrote %d bytes", at, dst.total)
				}
			case err != nil:
				t.Failf("%s: refused: %v", at, err)
			default:
				used = true
				if s := diffBytes(dst.Bytes(), pt); s != "" {
					t.Failf("%s: %s", at, s)
				}
			}
		case 'N':
			r, err := d.NewStreamReader()
			switch {
			case !key || used:
				if err == nil {
					t.Failf("%s: accepted (key %v, used %v)", at, key, used)
				}
				if r != nil {
					if b, _ := io.ReadAll(r); len(b) > 0 {
						t.Failf("%s: refused stream delivers data", at)
					}
				}
			case err != nil:
				t.Failf("%s: refused: %v", at, err)
			default:
				used = true
				rd = r
			}
		case 'r', 'R':
			if rd == nil {
				continue
			}
			for {
				b := make([]byte, 1+t.R.Intn(20))
				n, err := rd.Read(b)
				if ended && (n > 0 || err != io.EOF) {
					t.Failf("%s: read after the end: %d, %v", at, n, err)
				}
				got = append(got, b[:n]...)
				if !bytes.HasPrefix(pt, got) {
					t.Failf("%s: wrong data", at)
				}
				if err == io.EOF {
					ended = true
					if len(got) != len(pt) {
						t.Failf("%s: end after %d of %d bytes", at, len(got), len(pt))
					}
					break
				}
				if err != nil {
					t.Failf("%s: read failed: %v", at, err)
				}
				if op == 'r' {
					break
				}
			}
		}
		authSeen(at)
	}
	if rd != nil && !ended {
		b, err := io.ReadAll(rd)
		if err != nil {
			t.Failf("history %q: stream broken: %v", ops, err)
		}
		if s := diffBytes(append(got, b...), pt); s != "" {
			t.Failf("history %q: %s", ops, s)
		}
	}
	// refused calls leave the context usable
	if !used {
		if err := d.SetPrivateKey(me.sk, spk); err != nil {
			t.Failf("history %q: right key refused afterwards: %v", ops, err)
		}
		dst := &Dst{}
		if err := d.Decrypt(dst); err != nil || !bytes.Equal(dst.Bytes(), pt) {
			t.Failf("history %q: context unusable afterwards: %v", ops, err)
		}
	}
	t.Seen("dec %s %v", ops, signed)
}

// word number i of length n over alphabet a
func word(a string, n, i int) string {
	var b strings.Builder
	for ; n > 0; n-- {
		b.WriteByte(a[i%len(a)])
		i /= len(a)
	}
	return b.String()
}

func pow(b, e int) int {
	r := 1
	for ; e > 0; e-- {
		r *= b
	}
	return r
}

func runC12(c *Ctx) {
	// complete: every history "a" + 3 (4) further calls
	n := c.n(3, 4)
	const per = 64
	tot := pow(len(encOps), n)
	c.Cases("enc-all", (tot+per-1)/per, func(t *T) {
		for i := t.idx * per; i < min(tot, (t.idx+1)*per); i++ {
			encHistory(t, "a"+word(encOps, n, i))
		}
	})
	c.Cases("enc-random", c.n(1500, 60000), func(t *T) {
		var b strings.Builder
		if t.R.Intn(3) > 0 {
			b.WriteByte('a')
		}
		for k := 3 + t.R.Intn(12); k > 0; k-- {
			b.WriteByte(encOps[t.R.Intn(len(encOps))])
		}
		encHistory(t, b.String())
		t.Sample(map[string]any{"history": b.String()})
	})
	n = c.n(4, 5)
	dt := pow(len(decOps), n)
	c.Cases("dec-all", (dt+per-1)/per, func(t *T) {
		for i := t.idx * per; i < min(dt, (t.idx+1)*per); i++ {
			decHistory(t, word(decOps, n, i), i%2 == 0)
			if c.thorough() {
				decHistory(t, word(decOps, n, i), i%2 == 1)
			}
		}
	})
	c.Cases("dec-random", c.n(1500, 60000), func(t *T) {
		var b strings.Builder
		for k := 3 + t.R.Intn(10); k > 0; k-- {
			b.WriteByte(decOps[t.R.Intn(len(decOps))])
		}
		decHistory(t, b.String(), t.R.Intn(2) == 0)
		t.Sample(map[string]any{"history": b.String()})
	})
	// without any call in between, and on broken input
	c.Cases("dec-broken", c.n(200, 4000), func(t *T) {
		me := t.newKey()
		file := t.encrypt(encOpt{rx: []*Key{me}, blk: 16}, patterned(t.R, 50))
		o, err := refParseHdr(file)
		must(err)
		cut := len(o.Raw) + t.R.Intn(len(file)-len(o.Raw))
		src := newSrc(file[:cut])
		if t.R.Intn(2) == 0 {
			src.faultAtEOF, src.err = true, errInjected
		}
		d, err := sign.NewDecryptor(src)
		if err != nil {
			t.Failf("%v", err)
		}
		if err = d.SetPrivateKey(me.sk, nil); err != nil {
			t.Failf("%v", err)
		}
		total := 0
		for k := 2 + t.R.Intn(4); k > 0; k-- {
			dst := &Dst{}
			if t.R.Intn(2) == 0 {
				if err := d.Decrypt(dst); err == nil {
					t.Failf("truncated file decrypted")
				}
				total += int(dst.total)
			} else if r, err := d.NewStreamReader(); err == nil {
				b, err := io.ReadAll(r)
				if err == nil {
					t.Failf("truncated stream ended without error after %d bytes", len(b))
				}
				if n, err := r.Read(make([]byte, 10)); n > 0 || err == nil || err == io.EOF {
					t.Failf("after an error the stream returned %d, %v", n, err)
				}
			}
		}
		t.Seen("broken %d", cut)
	})
}
