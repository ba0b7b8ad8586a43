package main

import (
	"bytes"
	"crypto/rand"
	"crypto/sha512"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"sync"

	"github.com/opencoff/sigtool/sign"
)

// C16: freshness and randomness of keys, salts and nonces
func init() {
	register("C16", &Prop{MinEval: 300,
		Rule:   "every salt, ephemeral key, file key and wrapped-key nonce of thousands of encryptions (same input and recipients, many goroutines, bulk and stream, library and command), every generated key and key salt, goes into one set (a repeated value is a violation) and into per-bit statistics, also with a random source that answers in pieces; the same values must follow from the same answers of the source; and every operation is run with the source failing at each of its reads. Distinct: values observed and (operation, failing read) pairs.",
		Assume: []string{"the system's random source is what crypto/rand.Reader delivers; per-bit statistics use limits that a true random source exceeds with probability below 1e-10"},
		Run:    runC16})
	children["child-rand"] = childRand
}

// freshSet holds all values ever seen in a run.
type freshSet struct {
	mu sync.Mutex
	m  map[string]string
	w  map[string]string // windows of the values
}

// addWindows adds v and all of its parts of 8 bytes.
func (f *freshSet) addWindows(t *T, kind string, v []byte) {
	f.add(t, kind, v)
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.w == nil {
		f.w = map[string]string{}
	}
	for i := 0; i+8 <= len(v); i++ {
		k := string(v[i : i+8])
		if old, dup := f.w[k]; dup {
			t.Failf("bytes %d to %d of %s %x have been seen before, in %s", i, i+8, kind, v, old)
		}
		f.w[k] = fmt.Sprintf("%s %x at %d", kind, v, i)
	}
	t.Count("windows", len(v)-7)
}

func (f *freshSet) add(t *T, kind string, v []byte) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.m == nil {
		f.m = map[string]string{}
	}
	if old, dup := f.m[string(v)]; dup {
		t.Failf("%s has the same value (%x) as an earlier %s", kind, v, old)
	}
	f.m[string(v)] = kind
	t.Count("values_"+kind, 1)
}

// bitStat counts bits and equal bytes of values of one kind.
type bitStat struct {
	mu   sync.Mutex
	n    int
	ones map[int]int
	eq   map[[2]int]int
	size int
}

func (s *bitStat) add(v []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.ones == nil {
		s.ones, s.eq, s.size = map[int]int{}, map[[2]int]int{}, len(v)
	}
	s.n++
	for i, b := range v {
		for j := 0; j < 8; j++ {
			s.ones[i*8+j] += int(b >> j & 1)
		}
		for j := 0; j < i; j++ {
			if v[j] == b {
				s.eq[[2]int{j, i}]++
			}
		}
	}
}

// check: each bit is a fair coin and no two bytes are tied to each other
func (s *bitStat) check(t *T, kind string, skipBit int) {
	n := float64(s.n)
	lim := 7.5 * math.Sqrt(n) / 2
	for i := 0; i < s.size*8; i++ {
		if i == skipBit {
			continue
		}
		if d := math.Abs(float64(s.ones[i]) - n/2); d > lim {
			t.Failf("%s is not random: bit %d of byte %d is set in %d of %d values", kind, i%8, i/8, s.ones[i], s.n)
		}
		t.Count("bits_tested", 1)
	}
	el := n/256 + 9*math.Sqrt(n/256) + 12
	for i := 0; i < s.size; i++ {
		for j := 0; j < i; j++ {
			if e := s.eq[[2]int{j, i}]; float64(e) > el {
				t.Failf("%s is not random: bytes %d and %d are equal in %d of %d values", kind, j, i, e, s.n)
			}
		}
	}
	t.Seen("%s", kind)
}

func xor(a, b []byte) []byte {
	r := make([]byte, min(len(a), len(b)))
	for i := range r {
		r[i] = a[i] ^ b[i]
	}
	return r
}

type fileValues struct {
	salt, pk, root []byte
	nonces         [][]byte
}

func valuesOf(t *T, ct []byte, k *RefKey) *fileValues {
	o, err := refOpen(ct, k, nil)
	if err != nil {
		t.Failf("encrypted file is not readable by the reference: %v", err)
	}
	v := &fileValues{salt: o.Salt, pk: o.Pk, root: o.Root}
	for _, w := range o.Keys {
		v.nonces = append(v.nonces, w.Nonce)
	}
	return v
}

// pieceRand delivers the system's random bytes in small pieces.
type pieceRand struct {
	r io.Reader
	n int
}

func (p *pieceRand) Read(b []byte) (int, error) {
	if len(b) > p.n {
		b = b[:p.n]
	}
	return p.r.Read(b)
}

func runC16(c *Ctx) {
	orig := rand.Reader
	defer func() { rand.Reader = orig }()
	set := &freshSet{}
	var smu sync.Mutex
	var salts [][]byte
	for _, piece := range []int{0, 1, 5, 31} {
		rand.Reader = orig
		nm := "whole"
		if piece > 0 {
			rand.Reader = &pieceRand{orig, piece}
			nm = fmt.Sprintf("pieces-%d", piece)
		}
		var salt, pk, root, nonce0, nonce1, nx, sx, prev, seed bitStat
		var last []byte
		var lmu sync.Mutex
		var rx []*Key
		c.Serial("setup-"+nm, 1, func(t *T) { rx = t.newKeys(2) })
		if c.Only != "" && rx == nil {
			t := &T{c: c, R: newRand(c.Seed, piece), info: map[string]any{}}
			rx = t.newKeys(2)
		}
		if rx == nil {
			return
		}
		n := c.n(2000, 60000)
		if piece > 0 {
			n = c.n(1000, 20000)
		}
		const per = 10
		snd := rx[1]
		c.Cases("encrypt-"+nm, n/per, func(t *T) {
			for i := 0; i < per; i++ {
				o := encOpt{rx: rx, blk: 64, stream: i%2 == 1}
				if i%3 == 0 {
					o.sender = snd
				}
				v := valuesOf(t, t.encrypt(o, []byte("the very same input")), rx[0].RefKey)
				if len(v.salt) != 32 || len(v.pk) != 32 || len(v.root) != 32 || len(v.nonces) != 2 || len(v.nonces[0]) != 12 || len(v.nonces[1]) != 12 {
					t.Failf("values of unexpected size in the header")
				}
				set.add(t, "salt", v.salt)
				set.add(t, "ephemeral", v.pk)
				set.add(t, "filekey", v.root)
				for _, x := range v.nonces {
					set.add(t, "nonce", x)
				}
				salt.add(v.salt)
				pk.add(v.pk)
				root.add(v.root)
				nonce0.add(v.nonces[0])
				nonce1.add(v.nonces[1])
				nx.add(xor(v.nonces[0], v.nonces[1]))
				sx.add(xor(v.salt, v.root))
				lmu.Lock()
				if last != nil {
					prev.add(xor(last, v.root))
				}
				last = v.root
				lmu.Unlock()
			}
			t.Seen("%d", t.idx)
		})
		c.Cases("keys-"+nm, n/per, func(t *T) {
			for i := 0; i < per; i++ {
				k, err := sign.NewPrivateKey()
				if err != nil {
					t.Failf("can't generate a key: %v", err)
				}
				rk := refKeyFromSeed(k.Sk[:32])
				if !bytes.Equal(rk.SK, k.Sk) || !bytes.Equal(rk.PK, k.PublicKey().Pk) {
					t.Failf("generated key is not consistent")
				}
				set.add(t, "key", k.Sk[:32])
				seed.add(k.Sk[:32])
			}
		})
		// saved private keys; each costs a second and half a gigabyte
		if piece < 2 {
			c.casesN("saved-"+nm, c.n(5, 60), 5, func(t *T) {
				b, err := rx[0].sk.MarshalBinary("same", []byte("same"))
				if err != nil {
					t.Failf("%v", err)
				}
				_, y, err := refReadPriv(b, []byte("same"))
				if err != nil {
					t.Failf("saved key: %v", err)
				}
				s := unb64(y.Salt)
				if len(s) != 32 {
					t.Failf("key salt of %d bytes", len(s))
				}
				set.add(t, "keysalt", s)
				smu.Lock()
				salts = append(salts, s)
				smu.Unlock()
			})
		}
		c.Serial("stats-"+nm, 1, func(t *T) {
			if c.Only != "" {
				return
			}
			salt.check(t, "salt", -1)
			pk.check(t, "ephemeral public key", 255)
			root.check(t, "file key", -1)
			nonce0.check(t, "wrapped-key nonce", -1)
			nonce1.check(t, "wrapped-key nonce", -1)
			nx.check(t, "difference of two wrapped-key nonces", -1)
			sx.check(t, "difference of salt and file key", -1)
			prev.check(t, "difference of two file keys", -1)
			seed.check(t, "generated key", -1)
			for i := 0; len(salts) >= 5 && i < 32; i++ {
				same := true
				for _, s := range salts {
					same = same && s[i] == salts[0][i]
				}
				if same {
					t.Failf("key salt is not random: byte %d is %#x in all of %d saved keys", i, salts[0][i], len(salts))
				}
			}
			t.Sample(map[string]any{"source": nm, "files": salt.n, "keys": seed.n, "values_in_set": len(set.m)})
		})
	}
	rand.Reader = orig

	// every block size, number of recipients and length
	c.Cases("shapes", c.n(600, 20000), func(t *T) {
		blks := []uint64{0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 1000, 4096, 65536, 100000, 1 << 20}
		o := encOpt{blk: blks[t.idx%len(blks)], stream: t.R.Intn(2) == 0}
		o.rx = t.newKeys(pick(t.R, 1, 1, 2, 3, 5, 17))
		if t.R.Intn(2) == 0 {
			o.sender = t.newKey()
			if t.R.Intn(3) == 0 {
				o.rx[0] = o.sender
			}
		}
		n := pick(t.R, 0, 1, 31, 32, 33, 64, 1000)
		v := valuesOf(t, t.encrypt(o, patterned(t.R, n)), o.rx[0].RefKey)
		set.addWindows(t, "salt", v.salt)
		set.addWindows(t, "ephemeral", v.pk)
		set.addWindows(t, "filekey", v.root)
		for _, x := range v.nonces {
			set.addWindows(t, "nonce", x)
		}
		t.Seen("shape %d/%d/%d/%v", o.blk, len(o.rx), n, o.sender != nil)
	})
	// all nonces of one file
	c.Cases("many-recipients", c.n(4, 40), func(t *T) {
		k := t.newKey()
		rx := make([]*Key, pick(t.R, 300, 700, 1500, 3000))
		for i := range rx {
			rx[i] = k
		}
		v := valuesOf(t, t.encrypt(encOpt{rx: rx, blk: 64}, []byte("x")), k.RefKey)
		var one, diff bitStat
		for i, x := range v.nonces {
			set.add(t, "nonce", x)
			one.add(x)
			if i > 0 {
				diff.add(xor(x, v.nonces[i-1]))
			}
		}
		one.check(t, "wrapped-key nonce of one file", -1)
		diff.check(t, "difference of neighbouring wrapped-key nonces", -1)
		t.Seen("many %d", t.idx)
	})

	// the command, the same input over and over
	c.Cases("command", c.n(24, 400), func(t *T) {
		k := refKey(newRand(c.Seed, 99))
		pkf := t.write("a.pub", refPubFile(k.PK, ""), 0644)
		in := t.write("in", []byte("same"), 0644)
		v := valuesOf(t, t.OK(Run{Args: []string{"encrypt", pkf, pkf, in}}).Out, k)
		set.add(t, "salt", v.salt)
		set.add(t, "ephemeral", v.pk)
		set.add(t, "filekey", v.root)
		for _, x := range v.nonces {
			set.add(t, "nonce", x)
		}
		t.Seen("%d", t.idx)
	})
	c.casesN("generate", c.n(4, 40), 4, func(t *T) {
		t.OK(Run{Args: []string{"generate", "--no-password", t.Path("k")}})
		rk, y, err := refReadPriv(mustRead(t.Path("k.key")), nil)
		if err != nil {
			t.Failf("generated key: %v", err)
		}
		set.add(t, "key", rk.SK[:32])
		set.add(t, "keysalt", unb64(y.Salt))
		smu.Lock()
		salts = append(salts, unb64(y.Salt))
		smu.Unlock()
		t.Seen("%d", t.idx)
	})
	// Key salts cost too much for statistics, but no two bytes may be tied to
	// each other, nor a byte be constant, in all of them.
	c.Serial("key-salts", 1, func(t *T) {
		if c.Only != "" || len(salts) < 8 {
			return
		}
		for i := 0; i < 32; i++ {
			for j := 0; j <= i; j++ {
				rel := map[string]bool{"": true}
				for nm, f := range map[string]func(a, b byte) byte{"constant": func(a, b byte) byte { return a }, "xor": func(a, b byte) byte { return a ^ b }, "difference": func(a, b byte) byte { return a - b }} {
					if i == j && nm != "constant" {
						continue
					}
					for _, s := range salts {
						rel[nm] = rel[nm] || f(s[i], s[j]) != f(salts[0][i], salts[0][j])
					}
					if !rel[nm] {
						t.Failf("key salts are not random: bytes %d and %d (%s) are tied to each other in all of %d saved keys", j, i, nm, len(salts))
					}
				}
			}
		}
		t.Count("keysalts_compared", len(salts))
		t.Seen("%d", len(salts))
	})

	// Same answers of the source, same values: nothing else goes in.
	ops := []string{"bulk", "stream", "signed", "key"}
	c.Cases("provenance", len(ops)*c.n(6, 60), func(t *T) {
		op := ops[t.idx%len(ops)]
		t.Set("op", op)
		x := t.child("child-rand", Run{Args: []string{"same", op, fmt.Sprint(t.idx)}})
		if x.Code != 0 {
			t.Failf("%v", x)
		}
		var runs []map[string]string
		must(json.Unmarshal(x.Out, &runs))
		for _, f := range sortedKeys(runs[0]) {
			d := map[string]bool{}
			for _, r := range runs {
				d[r[f]] = true
			}
			if len(d) == len(runs) {
				t.Failf("%s: %d runs with identical answers of the random source gave %d different values of %s: it does not come from the source", op, len(runs), len(d), f)
			}
			t.Count("values_reproduced", 1)
		}
		t.Seen("%s/%d", op, t.idx)
	})

	// Each operation takes as many random bytes as its values have.
	need := []struct {
		op string
		n  int
	}{{"bulk", 3*32 + 2*12}, {"stream", 3*32 + 2*12}, {"signed", 3*32 + 2*12}, {"key", 32}, {"save", 32}}
	c.Cases("amount", len(need), func(t *T) {
		x := t.child("child-rand", Run{Args: []string{"count", need[t.idx].op}})
		if x.Code != 0 {
			t.Failf("%v", x)
		}
		var n int
		fmt.Sscan(string(x.Out), &n)
		if n > 0 && n < need[t.idx].n {
			t.Failf("%s: only %d random bytes were taken from the source for values of %d random bytes", need[t.idx].op, n, need[t.idx].n)
		}
		t.Count("source_bytes", n)
		t.Seen("amount %s", need[t.idx].op)
	})

	// the source fails at its n'th read
	modes := []string{"error", "partial", "eof"}
	fops := []string{"bulk", "stream", "signed", "key", "save"}
	const reads = 8
	c.Cases("failing-source", len(fops)*len(modes)*reads, func(t *T) {
		op := fops[t.idx%len(fops)]
		mode := modes[t.idx/len(fops)%len(modes)]
		at := 1 + t.idx/len(fops)/len(modes)
		if op == "save" && at > 2 {
			return
		}
		out := t.Path("out")
		x := t.rawChild("child-rand", Run{Args: []string{"fail", op, mode, fmt.Sprint(at), out}})
		fired := bytes.Contains(x.Err, []byte("SOURCE FAILED"))
		ok := bytes.Contains(x.Out, []byte("OPERATION SUCCEEDED"))
		if x.Code != 0 && x.Code != 2 && x.Code != 9 {
			herr("child: %v", x)
		}
		t.Set("op", op)
		t.Set("failing read", at)
		if fired && ok {
			t.Failf("%s: reported success although the random source failed (%s) at its read %d", op, mode, at)
		}
		if !fired && !ok {
			t.Failf("%s: failed although the random source did not: %v", op, x)
		}
		if fired {
			t.Count("source_failures", 1)
			t.Seen("%s/%s/%d", op, mode, at)
			// nothing usable may be left
			if b, err := os.ReadFile(out); err == nil && len(b) > 0 {
				t.failedOutput(op, b)
			}
		}
	})
}

// failedOutput: what a failed operation left behind is not complete.
func (t *T) failedOutput(op string, b []byte) {
	switch op {
	case "bulk", "stream", "signed":
		k := refKey(newRand(1, 1))
		if o, err := refOpen(b, k, nil); err == nil {
			t.Failf("%s failed, but left a complete file of %d bytes", op, len(o.PT))
		}
	default:
		t.Failf("%s failed, but produced %d bytes", op, len(b))
	}
}

// rawChild is child without the demand not to crash.
func (t *T) rawChild(name string, r Run) *Ran {
	exe, err := os.Executable()
	must(err)
	r.Wrap = []string{"/bin/sh", "-c", `"$0" "$@" 2>"` + t.Path("stderr") + `"`}
	x := t.prog(exe, Run{Args: append([]string{name}, r.Args...), Wrap: r.Wrap})
	x.Err, _ = os.ReadFile(t.Path("stderr"))
	return x
}

// seqRand delivers a fixed sequence of bytes.
type seqRand struct {
	key [64]byte
	ctr int
	buf []byte
}

func (s *seqRand) Read(b []byte) (int, error) {
	for i := range b {
		if len(s.buf) == 0 {
			h := sha512.Sum512(append(s.key[:], byte(s.ctr), byte(s.ctr>>8)))
			s.ctr++
			s.buf = h[:]
		}
		b[i] = s.buf[0]
		s.buf = s.buf[1:]
	}
	return len(b), nil
}

// failRand fails at its n'th read and from then on.
type failRand struct {
	r    io.Reader
	n    int
	at   int
	mode string
}

func (f *failRand) Read(b []byte) (int, error) {
	f.n++
	if f.n < f.at {
		return f.r.Read(b)
	}
	fmt.Fprintln(os.Stderr, "SOURCE FAILED")
	switch f.mode {
	case "partial":
		n, _ := f.r.Read(b[:len(b)/2])
		return n, errInjected
	case "eof":
		return 0, io.EOF
	}
	return 0, errInjected
}

func childRand(args []string) {
	c := newCtx()
	t := &T{c: c, R: newRand(1, 1), info: map[string]any{}}
	rk := refKey(t.R)
	k := t.loadKey(rk)
	op := args[1]
	do := func(d *Dst) ([]byte, error) {
		switch op {
		case "key":
			s, err := sign.NewPrivateKey()
			if err != nil {
				return nil, err
			}
			return s.Sk, nil
		case "save":
			return k.sk.MarshalBinary("", nil)
		}
		o := encOpt{rx: []*Key{k, k}, blk: 16, stream: op == "stream"}
		if op == "signed" {
			o.sender = k
		}
		return nil, t.encryptTo(o, []byte("some content of a few blocks, always the same"), d)
	}
	switch args[0] {
	case "count":
		p := &countRand{r: rand.Reader}
		rand.Reader = p
		if _, err := do(&Dst{}); err != nil {
			must(err)
		}
		fmt.Println(p.n)
	case "same":
		var out []map[string]string
		for i := 0; i < 12; i++ {
			rand.Reader = &seqRand{key: sha512.Sum512([]byte(args[2]))}
			d := &Dst{}
			b, err := do(d)
			must(err)
			m := map[string]string{}
			if op == "key" {
				m["the key"] = fmt.Sprintf("%x", b)
			} else {
				o, err := refOpen(d.Bytes(), rk, nil)
				must(err)
				m["the salt"] = fmt.Sprintf("%x", o.Salt)
				m["the ephemeral key"] = fmt.Sprintf("%x", o.Pk)
				m["the file key"] = fmt.Sprintf("%x", o.Root)
				m["the first nonce"] = fmt.Sprintf("%x", o.Keys[0].Nonce)
				m["the second nonce"] = fmt.Sprintf("%x", o.Keys[1].Nonce)
			}
			out = append(out, m)
		}
		b, err := json.Marshal(out)
		must(err)
		os.Stdout.Write(b)
	case "fail":
		var at int
		fmt.Sscan(args[3], &at)
		f := &failRand{r: rand.Reader, at: at, mode: args[2]}
		rand.Reader = f
		d := &Dst{}
		defer func() {
			// a panic is a way to fail, too
			p := recover()
			os.WriteFile(args[4], d.Bytes(), 0644)
			if p != nil {
				fmt.Fprintln(os.Stderr, "panicked:", p)
				os.Exit(9)
			}
		}()
		b, err := do(d)
		if err != nil {
			fmt.Fprintln(os.Stderr, "error:", err)
			os.WriteFile(args[4], append(b, d.Bytes()...), 0644)
			os.Exit(9)
		}
		fmt.Println("OPERATION SUCCEEDED")
	}
}

type countRand struct {
	r io.Reader
	n int
}

func (c *countRand) Read(b []byte) (int, error) {
	n, err := c.r.Read(b)
	c.n += n
	return n, err
}
