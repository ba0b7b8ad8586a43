package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"math/rand"
	"os/exec"
	"strings"

	"github.com/opencoff/sigtool/sign"
)

// C07: authorized_keys yields exactly its Ed25519 keys with their comments
func init() {
	register("C07", &Prop{MinEval: 500,
		Rule:   "authorized-keys files generated line by line with known meaning (keys with and without options, comments, other types, malformed lines, all blanks and line ends), each line cross-checked with a reference parser and samples with ssh-keygen; good files with one line mutated at random. Distinct: kinds of adjacent lines seen together.",
		Assume: []string{"a line whose type word contradicts the type inside its blob is not generated "},
		Run:    runC07})
}

type akKey struct {
	pk      []byte
	comment string
}

// akLine makes one line (without line end) and the key it stands for.
func akLine(r *rand.Rand) (line, kind string, key *akKey) {
	k := refKey(r)
	blob := b64(sshPubBlob(k.PK))
	decoy := "ssh-ed25519 " + b64(sshPubBlob(refKey(r).PK)) + " decoy@host"
	rsa := b64(sshStr([]byte("ssh-rsa"), []byte{1, 0, 1}, append([]byte{0, 0x80 | byte(r.Intn(128))}, randBytes(r, 128)...)))
	pt := randBytes(r, 65)
	pt[0] = 4
	_ = pt
	cms := []string{"", "user@host", "a b c", "#hash", "x # y", "é ü", "say \"hi\"", "a,b,c", "user@host (laptop, work)", "no-pty", "ssh-rsa AAAA", "'q'", "\\", "\"", "a=\"b", strings.Repeat("long ", 200) + "end", "x@y x@y", "=", "-", "two  blanks", "a\tb", "a \t b   c", "x\u00a0y", "Upper Case", "\"q  q\"", "caf\xe9 \xff\xfe", "\xc3\x28x", "e\u0301 \u00c9", "nul\x00byte", "esc\x1b[1m", "\u202eright", "%s%d", "&amp;", "x\u2028y", itoa(r.Intn(1000)) + "@h"}
	cm := cms[r.Intn(len(cms))]
	opts := []string{"no-pty", "restrict", "cert-authority", "command=\"echo hi\"", "command=\"echo \\\"hi, there\\\" #x\"", "from=\"10.0.0.0/8,*.example.com\"", "environment=\"A=b c\"", "permitopen=\"h:1\"", "command=\"" + decoy + "\"", "command=\"x ssh-ed25519 " + b64(sshPubBlob(refKey(r).PK)) + " y\"", "expiry-time=\"20300101\"", "expiry-time=\"19990101\"", "expiry-time=\"200802291230Z\"", "from=\"127.0.0.1,!10.0.0.1\"", "from=\"!*\"", "verify-required", "no-touch-required", "pty", "user-rc", "command=\"/bin/false\"", "NO-PTY", "Restrict", "tunnel=\"0\"", "command=\"\"", "command=\"a\tb\"", "command=\"" + strings.Repeat("a, ", 500) + "\"", "no-agent-forwarding", "environment=\"X=\\\"\"", "principals=\"# x\""}
	opt := func() string {
		v := []string{}
		for n := 1 + r.Intn(3); n > 0; n-- {
			v = append(v, opts[r.Intn(len(opts))])
		}
		return strings.Join(v, ",")
	}
	sp := func() string { return pick(r, " ", " ", " ", "  ", "\t", " \t", "\t\t ") }
	tail := ""
	if cm != "" {
		tail = sp() + cm
	}
	ind := pick(r, "", "", "", " ", "\t", "   ")
	trail := pick(r, "", "", "", " ", "\t", "  \t")
	switch r.Intn(16) {
	case 0, 1, 2, 3:
		return ind + "ssh-ed25519" + sp() + blob + tail + trail, "key", &akKey{k.PK, cm}
	case 4, 5, 6:
		return ind + opt() + sp() + "ssh-ed25519" + sp() + blob + tail + trail, "key with options", &akKey{k.PK, cm}
	case 7:
		return pick(r, "", " ", "\t", "  \t "), "blank", nil
	case 8:
		return ind + "#" + pick(r, "", " comment", decoy, " "+decoy, "#", " \"open quote"), "comment", nil
	case 9:
		return ind + "ssh-rsa" + sp() + rsa + tail, "rsa", nil
	case 10:
		return ind + opt() + sp() + "ssh-rsa" + sp() + rsa + tail, "rsa with options", nil
	case 11:
		return ind + pick(r, "ecdsa-sha2-nistp256 ", opt()+" ecdsa-sha2-nistp256 ") + b64(sshStr([]byte("ecdsa-sha2-nistp256"), []byte("nistp256"), p256point)) + tail, "ecdsa", nil
	case 12:
		// damaged blob
		b := blob
		switch r.Intn(5) {
		case 0:
			b = b[:4*(1+r.Intn(len(b)/4-1))]
		case 1:
			b = b[:len(b)-1]
		case 2:
			x := []byte(b)
			x[r.Intn(len(x))] = pick(r, byte('!'), '*', '_', ',')
			b = string(x)
		case 3:
			b = b64(append(sshPubBlob(k.PK), randBytes(r, 3)...))
		case 4:
			b = b64(sshStr([]byte("ssh-ed25519"), k.PK[:31]))
		}
		return ind + pick(r, "", opt()+" ") + "ssh-ed25519 " + b + tail, "damaged blob", nil
	case 13:
		return ind + pick(r, "ssh-ed25519", "ssh-ed25519 ", opt(), opt()+" ssh-ed25519", blob, "garbage", "two words", "\"", "=", ",", "\\"), "missing fields", nil
	case 14:
		return ind + "command=\"unclosed " + decoy, "open quote", nil
	default:
		return ind + "sk-ssh-ed25519@openssh.com " + b64(sshStr([]byte("sk-ssh-ed25519@openssh.com"), k.PK, []byte("ssh:"))) + tail, "hardware key", nil
	}
}

// a valid point so that x/crypto accepts the line
var p256point = func() []byte {
	b := []byte{4}
	x := "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c2964fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"
	for i := 0; i < len(x); i += 2 {
		var v byte
		fmt.Sscanf(x[i:i+2], "%02x", &v)
		b = append(b, v)
	}
	return b
}()

// refAuthLine reads one line as OpenSSH does: [options] type blob [comment],
// where options end at the first blank outside of quotes.
func refAuthLine(line string) *akKey {
	l := strings.Trim(line, " \t")
	if l == "" || l[0] == '#' {
		return nil
	}
	key := func(l string) *akKey {
		typ, l, _ := cutBlank(l)
		blob, cm, _ := cutBlank(l)
		b, err := base64.StdEncoding.DecodeString(blob)
		if typ != "ssh-ed25519" || err != nil || len(b) != 51 || !bytes.Equal(b[:19], sshPubBlob(make([]byte, 32))[:19]) {
			return nil
		}
		return &akKey{b[19:], cm}
	}
	if k := key(l); k != nil {
		return k
	}
	quoted := false
	i := 0
	for ; i < len(l) && (quoted || l[i] != ' ' && l[i] != '\t'); i++ {
		if l[i] == '\\' && i+1 < len(l) && l[i+1] == '"' {
			i++
		} else if l[i] == '"' {
			quoted = !quoted
		}
	}
	if i >= len(l) {
		return nil
	}
	return key(strings.Trim(l[i:], " \t"))
}

func cutBlank(l string) (a, rest string, ok bool) {
	i := strings.IndexAny(l, " \t")
	if i < 0 {
		return l, "", false
	}
	return l[:i], strings.Trim(l[i:], " \t"), true
}

func runC07(c *Ctx) {
	check := func(t *T, file []byte, want []*akKey) {
		cp := append([]byte(nil), file...)
		got, err := sign.ParseAuthorizedKeys(file)
		if err != nil {
			t.Failf("authorized keys refused: %v", err)
		}
		if !bytes.Equal(cp, file) {
			t.Failf("parsing changed the caller's data")
		}
		t.Count("files", 1)
		for i, p := range got {
			if i >= len(want) {
				t.Failf("key %d (%x %q) is not in the file", i, p.Pk, p.Comment)
			}
			if !bytes.Equal(p.Pk, want[i].pk) {
				t.Failf("key %d is %x %q, want %x %q", i, p.Pk, p.Comment, want[i].pk, want[i].comment)
			}
			if p.Comment != want[i].comment {
				t.Failf("comment of key %d is %q, want %q", i, p.Comment, want[i].comment)
			}
			if !bytes.Equal(p.Hash(), refHash(want[i].pk)) {
				t.Failf("key %d has a wrong hash", i)
			}
			t.Count("keys", 1)
		}
		if len(got) < len(want) {
			t.Failf("key %d (%q) is missing: %d of %d found", len(got), want[len(got)].comment, len(got), len(want))
		}
	}
	gen := func(t *T, n int) (lines []string, kinds []string, keys []*akKey, all []*akKey) {
		for i := 0; i < n; i++ {
			l, kind, k := akLine(t.R)
			if s := refAuthLine(l); (s == nil) != (k == nil) || s != nil && (!bytes.Equal(s.pk, k.pk) || s.comment != k.comment) {
				herr("reference parser sees %+v in %q, want %+v", s, l, k)
			}
			lines = append(lines, l)
			kinds = append(kinds, kind)
			all = append(all, k)
			if k != nil {
				keys = append(keys, k)
			}
			t.Count("line "+kind, 1)
		}
		return
	}
	c.Cases("lines", c.n(2000, 100000), func(t *T) {
		// one line alone, in all line end styles
		ls, kinds, keys, _ := gen(t, 1)
		t.Set("line", clip(ls[0], 2000))
		for _, e := range []string{"", "\n", "\r\n", "\n\n", "\r\n\r\n", "\n# x\n"} {
			for _, b := range []string{"", "\n", "\r\n", "# c\n"} {
				check(t, []byte(b+ls[0]+e), keys)
			}
		}
		t.Seen("%s", kinds[0])
		// two copies are two keys
		check(t, []byte(ls[0]+"\n"+ls[0]+"\n"), append(append([]*akKey(nil), keys...), keys...))
	})
	c.Cases("files", c.n(2000, 100000), func(t *T) {
		n := 2 + t.R.Intn(12)
		if t.idx%50 == 0 {
			n = 1000
		}
		ls, kinds, keys, _ := gen(t, n)
		var b strings.Builder
		crlf := t.R.Intn(3)
		for i, l := range ls {
			b.WriteString(l)
			switch {
			case i == len(ls)-1 && t.R.Intn(2) == 0:
			case crlf == 1 || crlf == 2 && t.R.Intn(2) == 0:
				b.WriteString("\r\n")
			default:
				b.WriteString("\n")
			}
			if i > 0 {
				t.Seen("%s>%s", kinds[i-1], kinds[i])
			}
		}
		t.Set("file", clip(b.String(), 4000))
		check(t, []byte(b.String()), keys)
		t.Sample(map[string]any{"lines": kinds, "keys": len(keys)})
	})
	// long lines and files hide nothing
	c.Cases("long", c.n(60, 1500), func(t *T) {
		ls, _, keys, all := gen(t, 4+t.R.Intn(4))
		n := pick(t.R, 1000, 4095, 4096, 8191, 8192, 32768, 65535, 65536, 65537, 70000, 131072, 200000, 1<<20+1)
		k := refKey(t.R)
		blob := b64(sshPubBlob(k.PK))
		var long string
		var lk *akKey
		kind := t.idx % 6
		switch kind {
		case 0:
			long = "# " + strings.Repeat("x", n)
		case 1:
			long = strings.Repeat(" ", n)
		case 2:
			long = "ssh-rsa " + strings.Repeat("A", n) + " c"
		case 3:
			long = "command=\"" + strings.Repeat("ls -l; ", n/7) + "\" ssh-ed25519 " + blob + " me"
			lk = &akKey{k.PK, "me"}
		case 4:
			cm := strings.Repeat("c", n)
			long = "ssh-ed25519 " + blob + " " + cm
			lk = &akKey{k.PK, cm}
		case 5:
			long = strings.Repeat("no-pty,", n/7) + "no-pty ssh-ed25519 " + blob + strings.Repeat(" ", n)
			lk = &akKey{k.PK, ""}
		}
		if lk != nil {
			at, i := t.R.Intn(len(ls)+1), 0
			keys = nil
			for j, x := range all {
				if j == at {
					keys = append(keys, lk)
				}
				if x != nil {
					keys = append(keys, x)
				}
				i++
			}
			if at == i {
				keys = append(keys, lk)
			}
			ls = append(ls[:at], append([]string{long}, ls[at:]...)...)
		} else {
			at := t.R.Intn(len(ls) + 1)
			ls = append(ls[:at], append([]string{long}, ls[at:]...)...)
		}
		t.Set("kind", kind)
		t.Set("length", n)
		check(t, []byte(strings.Join(ls, "\n")), keys)
		t.Seen("long %d/%d", kind, n)
	})
	c.Cases("many", c.n(2, 20), func(t *T) {
		ls, _, keys, _ := gen(t, 20000)
		check(t, []byte(strings.Join(ls, "\n")), keys)
		t.Seen("many")
	})
	// one line mutated: the others stay what they are
	c.Cases("mutated", c.n(20000, 1000000), func(t *T) {
		n := 2 + t.R.Intn(6)
		ls, _, _, all := gen(t, n)
		i := t.R.Intn(n)
		m := []byte(ls[i])
		for j := 1 + t.R.Intn(3); j > 0; j-- {
			alpha := []byte("\"\\ \t,=#'a\x00\xffé%|")
			switch p := t.R.Intn(len(m) + 1); {
			case t.R.Intn(3) == 0 && len(m) > 0:
				m = m[:p]
			case t.R.Intn(2) == 0 || p == len(m):
				m = splice(m, p, p, alpha[t.R.Intn(len(alpha)):][:1])
			default:
				m[p] = alpha[t.R.Intn(len(alpha))]
			}
		}
		var before, after []*akKey
		for j, k := range all {
			if k != nil && j < i {
				before = append(before, k)
			}
			if k != nil && j > i {
				after = append(after, k)
			}
		}
		mls := append([]string(nil), ls...)
		mls[i] = string(m)
		file := strings.Join(mls, "\n") + "\n"
		t.Set("file", clip(file, 4000))
		t.Set("mutated", clip(string(m), 2000))
		got, err := sign.ParseAuthorizedKeys([]byte(file))
		if err != nil {
			t.Failf("a malformed line hides the whole file: %v", err)
		}
		t.Count("files", 1)
		extra := len(got) - len(before) - len(after)
		if extra < 0 || extra > 1 {
			t.Failf("%d keys read, %d on the other lines", len(got), len(before)+len(after))
		}
		for j, p := range got {
			var w *akKey
			switch {
			case j < len(before):
				w = before[j]
			case j >= len(before)+extra:
				w = after[j-len(before)-extra]
			default:
				// the mutated line's own key: only what it says
				if s := refAuthLine(strings.SplitN(string(m), "\r", 2)[0]); s == nil || !bytes.Equal(s.pk, p.Pk) {
					t.Failf("mutated line %q yields key %x", m, p.Pk)
				}
				continue
			}
			if !bytes.Equal(p.Pk, w.pk) || p.Comment != w.comment {
				t.Failf("key %d is %x %q, want %x %q", j, p.Pk, p.Comment, w.pk, w.comment)
			}
		}
		t.Seen("%d/%d", extra, len(got))
	})
	// OpenSSH itself agrees with the generator about the keys
	c.Cases("openssh", c.n(40, 2000), func(t *T) {
		ls, _, keys, _ := gen(t, 2+t.R.Intn(8))
		// ssh-keygen prints nothing about options that sshd would refuse and
		// warns about bad lines; only the Ed25519 lines count here
		fn := t.write("ak", []byte(strings.Join(ls, "\n")+"\n"), 0644)
		out, _ := exec.Command("ssh-keygen", "-l", "-f", fn).Output()
		var got []string
		for _, l := range strings.Split(string(out), "\n") {
			if strings.HasSuffix(l, "(ED25519)") {
				got = append(got, strings.Fields(l)[1])
			}
		}
		var want []string
		for _, k := range keys {
			h := sha256.Sum256(sshPubBlob(k.pk))
			want = append(want, "SHA256:"+base64.RawStdEncoding.EncodeToString(h[:]))
		}
		// (it misses keys after options and more than one blank)
		w := want
		for _, g := range got {
			for len(w) > 0 && w[0] != g {
				w = w[1:]
			}
			if len(w) == 0 {
				herr("ssh-keygen sees %q in %q, want %q", got, ls, want)
			}
			w = w[1:]
		}
		t.Count("keys_ssh_keygen_agrees_on", len(got))
		check(t, []byte(strings.Join(ls, "\n")+"\n"), keys)
		t.Seen("%d", len(keys))
	})
	c.Cases("empty", 1, func(t *T) {
		for _, s := range []string{"", "\n", "\r", "\r\n", " ", "\t\n", "\n\n\n", "#", "#\n", "\x00", "x"} {
			check(t, []byte(s), nil)
			t.Seen("%q", s)
		}
		check(t, nil, nil)
	})
}
