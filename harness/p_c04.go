package main

import (
	"bytes"
	"crypto/sha512"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unicode"

	"github.com/opencoff/sigtool/sign"
	"gopkg.in/yaml.v2"
)

// C04: a stored private key opens only with its exact passphrase, unaltered
func init() {
	register("C04", &Prop{MinEval: 200,
		Rule: "key files (of the reference writer with cheap parameters, of the code under test, and of the generate command) opened with the right passphrase and with every kind of near miss; every bit of the decoded encrypted key and salt flipped, lengths changed, work parameters edited; file mode under all umasks; the stored bytes searched for the secret. Distinct: (kind of passphrase change), (field, bit), (parameter edit), (umask).",
		Run:  runC04})
}

type pwTry struct {
	kind string
	pw   []byte
}

// passphrases close to pw but different from it
func nearMisses(t *T, pw []byte) (r []pwTry) {
	add := func(kind string, p []byte) {
		if !bytes.Equal(p, pw) {
			r = append(r, pwTry{kind, append([]byte(nil), p...)})
		}
	}
	add("empty", nil)
	add("trailing newline", append(append([]byte(nil), pw...), '\n'))
	add("trailing CRLF", append(append([]byte(nil), pw...), '\r', '\n'))
	add("trailing space", append(append([]byte(nil), pw...), ' '))
	add("leading space", append([]byte(" "), pw...))
	add("trailing NUL", append(append([]byte(nil), pw...), 0))
	add("many NULs", append(append([]byte(nil), pw...), make([]byte, 128)...))
	add("padded to 64", append(append([]byte(nil), pw...), make([]byte, 64-min(64, len(pw)))...))
	add("doubled", append(append([]byte(nil), pw...), pw...))
	add("extended", append(append([]byte(nil), pw...), 'x'))
	if len(pw) > 0 {
		add("last byte cut", pw[:len(pw)-1])
		add("first byte cut", pw[1:])
		add("first byte only", pw[:1])
		for _, n := range []int{8, 16, 32, 55, 56, 63, 64, 72, 127, 128, 255, 256} {
			if n < len(pw) {
				add(fmt.Sprintf("first %d bytes", n), pw[:n])
			}
		}
		up := bytes.ToUpper(pw)
		add("upper case", up)
		add("lower case", bytes.ToLower(pw))
		sw := []byte(strings.Map(func(r rune) rune {
			if unicode.IsUpper(r) {
				return unicode.ToLower(r)
			}
			return unicode.ToUpper(r)
		}, string(pw)))
		add("case swapped", sw)
		i := t.R.Intn(len(pw))
		x := append([]byte(nil), pw...)
		x[i] ^= 1 << t.R.Intn(8)
		add("one bit", x)
		x = append([]byte(nil), pw...)
		x[len(x)-1] ^= 0x80
		add("top bit of last byte", x)
		add("trimmed", bytes.TrimSpace(pw))
		add("up to NUL", bytes.SplitN(pw, []byte{0}, 2)[0])
		add("first line", bytes.SplitN(pw, []byte{'\n'}, 2)[0])
	}
	h := sha512.Sum512(pw)
	add("its SHA-512", h[:])
	add("its SHA-512 in hex", []byte(hex.EncodeToString(h[:])))
	h2 := sha512.Sum512(h[:])
	add("its double SHA-512", h2[:])
	add("base64", []byte(b64(pw)))
	add("random", randBytes(t.R, 12))
	return
}

// does b contain (part of) the secret in some form?
func findSecret(b, secret []byte) string {
	for _, part := range [][]byte{secret[:32], secret[:16], secret[16:32], secret[:64]} {
		if bytes.Contains(b, part) {
			return "raw"
		}
		if bytes.Contains(bytes.ToLower(b), []byte(hex.EncodeToString(part))) {
			return "hex"
		}
	}
	s := strings.TrimRight(b64(secret[:30]), "=")
	if bytes.Contains(b, []byte(s)) {
		return "base64"
	}
	return ""
}

func runC04(c *Ctx) {
	refuse := func(t *T, b []byte, pw []byte, what string, k *RefKey) {
		t.Count("refusals_expected", 1)
		s, err := sign.MakePrivateKey(b, func() ([]byte, error) { return pw, nil })
		if err == nil {
			same := s != nil && bytes.Equal(s.Sk, k.SK)
			t.Failf("accepted with %s (same key: %v)", what, same)
		}
		if s != nil {
			t.Failf("error (%v) together with a key for %s", err, what)
		}
	}
	// every kind of wrong passphrase
	c.Cases("passphrase", c.n(160, 12000), func(t *T) {
		pw := hostilePw(t, t.idx%60)
		if t.idx%3 == 0 {
			pw = []byte(pick(t.R, "Correct Horse", "Battery Staple", "ÉTÉ", "Pass\x00Word", strings.Repeat("Ab", 60), "p\nq"))
		}
		t.Set("passphrase", fmt.Sprintf("%q", clip(string(pw), 200)))
		k := refKey(t.R)
		b := quickPriv(t.R, k, pw, "")
		s, err := sign.MakePrivateKey(b, func() ([]byte, error) { return pw, nil })
		if err != nil {
			t.Failf("right passphrase refused: %v", err)
		}
		t.samePriv("right passphrase", s, k)
		fn := t.write("k.key", b, 0600)
		for _, m := range nearMisses(t, pw) {
			refuse(t, b, m.pw, "a wrong passphrase ("+m.kind+")", k)
			if s, err := sign.ReadPrivateKey(fn, func() ([]byte, error) { return m.pw, nil }); err == nil || s != nil {
				t.Failf("key file accepted with a wrong passphrase (%s)", m.kind)
			}
			t.Seen("%s/%d", m.kind, min(len(pw), 130)/10)
		}
		// no passphrase source is the empty passphrase
		s, err = sign.MakePrivateKey(b, nil)
		if len(pw) == 0 {
			if err != nil {
				t.Failf("key without passphrase refused without a passphrase source: %v", err)
			}
		} else if err == nil || s != nil {
			t.Failf("protected key opened without any passphrase")
		}
		// a passphrase source that fails
		e := errors.New("no passphrase today")
		s, err = sign.MakePrivateKey(b, func() ([]byte, error) { return pw, e })
		if err == nil || s != nil {
			t.Failf("key opened although obtaining the passphrase failed")
		}
		s, err = sign.ReadPrivateKey(fn, func() ([]byte, error) { return nil, e })
		if err == nil || s != nil {
			t.Failf("key opened although obtaining the passphrase failed")
		}
		t.Sample(map[string]any{"passphrase": clip(fmt.Sprintf("%q", pw), 60)})
	})

	// every bit of the stored key and salt
	c.Cases("bits", c.n(8, 1200), func(t *T) {
		pw := []byte(pick(t.R, "", "pw", "other"))
		k := refKey(t.R)
		b := quickPriv(t.R, k, pw, "comment")
		var y yamlPriv
		must(yaml.Unmarshal(b, &y))
		esk, salt := unb64(y.Esk), unb64(y.Salt)
		try := func(e, s []byte, what string) {
			z := y
			z.Esk, z.Salt = b64(e), b64(s)
			refuse(t, mustYAML(&z), pw, what, k)
			t.Seen("%s", what)
		}
		// whatever was opened before in this process makes no difference
		open := func() {
			s, err := sign.MakePrivateKey(b, func() ([]byte, error) { return pw, nil })
			if err != nil {
				t.Failf("right passphrase refused: %v", err)
			}
			t.samePriv("right passphrase", s, k)
		}
		if t.idx%2 == 0 {
			open()
		}
		defer open()
		for i := 0; i < len(esk)*8; i++ {
			x := append([]byte(nil), esk...)
			x[i/8] ^= 1 << (i % 8)
			try(x, salt, fmt.Sprintf("bit %d of the encrypted key flipped", i))
		}
		for i := 0; i < len(salt)*8; i++ {
			x := append([]byte(nil), salt...)
			x[i/8] ^= 1 << (i % 8)
			try(esk, x, fmt.Sprintf("bit %d of the salt flipped", i))
		}
		for n := 0; n < len(esk); n++ {
			try(esk[:n], salt, fmt.Sprintf("encrypted key cut to %d bytes", n))
		}
		// (a shorter salt is the same salt to the password hash when only
		// zero bytes are cut, which random salts don't end with - checked)
		for n := 0; n < len(salt); n++ {
			try(esk, salt[:n], fmt.Sprintf("salt cut to %d bytes", n))
		}
		for _, n := range []int{1, 16, 64} {
			try(append(append([]byte(nil), esk...), make([]byte, n)...), salt, fmt.Sprintf("encrypted key extended by %d zeros", n))
			try(append(make([]byte, n), esk...), salt, fmt.Sprintf("encrypted key preceded by %d zeros", n))
			try(esk, append(append([]byte(nil), salt...), randBytes(t.R, n)...), fmt.Sprintf("salt extended by %d", n))
		}
		o := refKey(t.R)
		var yo yamlPriv
		must(yaml.Unmarshal(quickPriv(t.R, o, pw, ""), &yo))
		try(unb64(yo.Esk), salt, "encrypted key of another file")
		try(esk, unb64(yo.Salt), "salt of another file")
		try(append(append([]byte(nil), esk[:32]...), unb64(yo.Esk)[32:]...), salt, "halves of two files")
		try(k.SK, salt, "clear key in place of the encrypted one")
		try(append(append([]byte(nil), k.SK...), make([]byte, 16)...), salt, "clear key with a zero tag")
	})

	c.Cases("parameters", c.n(40, 2000), func(t *T) {
		pw := []byte(pick(t.R, "", "pw"))
		k := refKey(t.R)
		b := quickPriv(t.R, k, pw, "comment")
		var y yamlPriv
		must(yaml.Unmarshal(b, &y))
		if t.idx%2 == 0 {
			if s, err := sign.MakePrivateKey(b, func() ([]byte, error) { return pw, nil }); err != nil || !bytes.Equal(s.Sk, k.SK) {
				t.Failf("right passphrase refused: %v", err)
			}
		}
		vals := []int{-1 << 62, -1 << 31, -16, -8, -1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 64, 128, 1000, 1024, 1 << 30, 1 << 31, 1 << 32, 1<<32 + 8, 1<<32 + 16, 1 << 62, 1<<63 - 1}
		for _, v := range vals {
			for f := 0; f < 3; f++ {
				z := y
				switch f {
				case 0:
					z.Z = v
				case 1:
					z.R = v
				case 2:
					z.P = v
				}
				if z == y {
					continue
				}
				refuse(t, mustYAML(&z), pw, fmt.Sprintf("work parameter %d set to %d", f, v), k)
				t.Seen("%d=%d", f, v)
			}
		}
		for _, drop := range []string{"Z:", "r:", "p:", "salt:", "esk:"} {
			var out []string
			for _, l := range strings.Split(string(b), "\n") {
				if !strings.HasPrefix(l, drop) {
					out = append(out, l)
				}
			}
			refuse(t, []byte(strings.Join(out, "\n")), pw, "line "+drop+" missing", k)
			t.Seen("drop %s", drop)
		}
		z := y
		z.R, z.P = y.P, y.R
		refuse(t, mustYAML(&z), pw, "r and p exchanged", k)
		z = y
		z.Z, z.R = 8, 16
		refuse(t, mustYAML(&z), pw, "Z and r exchanged", k)
	})

	// files the code under test writes (full work factor)
	c.Cases("own-file", c.n(4, 160), func(t *T) {
		pw := hostilePw(t, t.R.Intn(40))
		t.Set("passphrase", fmt.Sprintf("%q", clip(string(pw), 200)))
		k := t.newKey()
		var b []byte
		var err error
		if t.idx%2 == 0 {
			b, err = k.sk.MarshalBinary("c", pw)
			if err != nil {
				t.Failf("%v", err)
			}
		} else {
			// to a file, in place of one that others may use
			fn := t.Path("own")
			pre := t.idx%4 == 1
			if pre {
				mode := pick(t.R, os.FileMode(0644), 0666, 0640, 0604, 0777, 0622)
				t.write("own", []byte("old"), mode)
				must(os.Chmod(fn, mode))
			}
			seen := t.watchKey(t.Path("."))
			err = k.sk.Serialize(fn, "c", pre || t.R.Intn(2) == 0, pw)
			if s := seen(); s != "" {
				t.Failf("while a private key is saved, %s", s)
			}
			if err != nil {
				t.Failf("%v", err)
			}
			st, err := os.Stat(fn)
			must(err)
			if st.Mode().Perm()&0077 != 0 {
				t.Failf("saved private key (over an existing file: %v) has mode %v", pre, st.Mode().Perm())
			}
			b = mustRead(fn)
		}
		if w := findSecret(b, k.SK); w != "" {
			t.Failf("the stored key contains the secret in %s form", w)
		}
		_, y, err := refReadPriv(b, pw)
		if err != nil {
			t.Failf("own key file can't be read by the reference reader: %v", err)
		}
		salt, esk := unb64(y.Salt), unb64(y.Esk)
		if y.Z*y.R*y.P < 1<<15 {
			t.Failf("stored with a work factor of only %d*%d*%d", y.Z, y.R, y.P)
		}
		if len(salt) < 16 {
			t.Failf("stored with a salt of only %d bytes", len(salt))
		}
		nm := nearMisses(t, pw)
		for i := 0; i < 2; i++ {
			m := nm[(t.idx*2+i)%len(nm)]
			refuse(t, b, m.pw, "a wrong passphrase ("+m.kind+")", k.RefKey)
			t.Seen("%s", m.kind)
		}
		z := *y
		if t.R.Intn(2) == 0 {
			esk[t.R.Intn(len(esk))] ^= 1 << t.R.Intn(8)
			z.Esk = b64(esk)
		} else {
			salt[t.R.Intn(len(salt))] ^= 1 << t.R.Intn(8)
			z.Salt = b64(salt)
		}
		refuse(t, mustYAML(&z), pw, "an altered key or salt", k.RefKey)
	})

	// generated files: mode, secrecy, passphrase given through the environment
	umasks := []string{"0000", "0022", "0077", "0002", "0007", "0177", "0666", "0777"}
	c.Cases("generate", c.n(9, 96), func(t *T) {
		um := umasks[t.idx%len(umasks)]
		pre := []string{"", "wide", "exec", "link"}[t.idx/2%4]
		t.Set("umask", um)
		t.Set("existing", pre)
		pw := pick(t.R, "secret", " spaced ", "é", strings.Repeat("z", 100), "two\nlines", "line\n", "\nline", "cr\r\n", "tab\t", "a=b", "\xff\xfe", string(hostilePwEnv(t)))
		args := []string{"generate", "-E", "PW", t.Path("k")}
		switch pre {
		case "wide":
			t.write("k.key", []byte("old"), 0666)
			t.write("k.pub", []byte("old"), 0666)
		case "exec":
			t.write("k.key", []byte("old"), 0777)
		case "link":
			t.write("target", []byte("old"), 0666)
			must(os.Symlink("target", t.Path("k.key")))
		}
		if pre != "" {
			args = append([]string{args[0], "--overwrite"}, args[1:]...)
		}
		r := t.CLI(Run{Args: args, Env: []string{"PW=" + pw}, Umask: um})
		if r.Code != 0 {
			if pre == "link" {
				return
			}
			t.Failf("generate failed: %v", r)
		}
		fn := t.Path("k.key")
		st, err := os.Stat(fn)
		must(err)
		if st.Mode().Perm()&0177 != 0 {
			t.Failf("private key file has mode %v under umask %s (%s)", st.Mode().Perm(), um, pre)
		}
		if l, err := os.Lstat(fn); err == nil && l.Mode()&os.ModeSymlink != 0 {
			t.Count("through_link", 1)
		}
		b := mustRead(fn)
		k, y, err := refReadPriv(b, []byte(pw))
		if err != nil {
			t.Failf("generated key does not open with its passphrase: %v", err)
		}
		for _, f := range [][]byte{b, mustRead(t.Path("k.pub")), r.Out, r.Err} {
			if w := findSecret(f, k.SK); w != "" {
				t.Failf("generate leaves the secret in %s form", w)
			}
		}
		// the other passphrases one might type
		alt := []string{"", pw + "x"}[t.idx%2]
		if _, _, err := refReadPriv(b, []byte(alt)); err == nil {
			t.Failf("generated key opens with %q", alt)
		}
		t.write("f", []byte("x"), 0644)
		must(os.Chmod(fn, 0600))
		if x := t.CLI(Run{Args: []string{"sign", "-E", "PW", "-o", "-", fn, t.Path("f")}, Env: []string{"PW=" + alt}}); x.Code == 0 {
			t.Failf("sign accepts a wrong passphrase %q: %v", alt, x)
		}
		_ = y
		t.Seen("%s/%s", um, pre)
	})

	// while a key is written, too, nobody else may read it: files are looked
	// at between the system calls of the command
	c.casesN("while-writing", c.n(4, 32), 2, func(t *T) {
		um := []string{"0000", "0022"}[t.idx%2]
		args := []string{"generate", "-E", "PW", t.Path("k")}
		if t.idx/2%2 == 1 {
			t.write("k.key", []byte("old"), 0666)
			t.write("k.pub", []byte("old"), 0666)
			args = append([]string{args[0], "--overwrite"}, args[1:]...)
		}
		var w []string
		if straceOK() {
			w = inject("write:delay_enter=3000:delay_exit=3000", "openat:delay_exit=3000", "renameat:delay_exit=5000", "fchmodat:delay_enter=5000", "fchmod:delay_enter=5000", "close:delay_enter=2000")
		}
		seen := t.watchKey(t.Path("."))
		r := t.CLI(Run{Args: args, Env: []string{"PW=secret"}, Umask: um, Wrap: w})
		if s := seen(); s != "" {
			t.Failf("while generate runs (umask %s), %s", um, s)
		}
		if r.Code != 0 {
			t.Failf("generate failed: %v", r)
		}
		t.Seen("while-writing/%s/%d", um, t.idx/2%2)
	})

	// the same for a key already open: switching passphrases re-encrypts
	c.Cases("commands", c.n(60, 1500), func(t *T) {
		pw := string(hostilePwEnv(t))
		k := refKey(t.R)
		skf, pkf := t.writeKey("k", k, pw, "c")
		t.write("f", []byte("some data"), 0644)
		nm := nearMisses(t, []byte(pw))
		m := nm[t.R.Intn(len(nm))]
		if bytes.IndexByte(m.pw, 0) >= 0 {
			m = pwTry{"random text", []byte("zzz")}
		}
		enc := t.OK(Run{Args: []string{"encrypt", "-o", t.Path("f.enc"), pkf, t.Path("f")}})
		_ = enc
		cmds := [][]string{
			{"sign", "-E", "PW", "-o", t.Path("out"), skf, t.Path("f")},
			{"decrypt", "-E", "PW", "-o", t.Path("out"), skf, t.Path("f.enc")},
			{"encrypt", "-E", "PW", "-s", skf, "-o", t.Path("out"), pkf, t.Path("f")},
		}
		a := cmds[t.idx%3]
		if x := t.CLI(Run{Args: a, Env: []string{"PW=" + string(m.pw)}}); x.Code == 0 || exists(t.Path("out")) {
			t.Failf("%s accepts a wrong passphrase (%s %q for %q): %v", a[0], m.kind, m.pw, pw, x)
		}
		t.Seen("%s/%s", a[0], m.kind)
		if pw != "" {
			b := append([]string{a[0], "--no-password"}, a[3:]...)
			if x := t.CLI(Run{Args: b}); x.Code == 0 || exists(t.Path("out")) {
				t.Failf("%s --no-password opens a protected key: %v", a[0], x)
			}
			if x := t.CLI(Run{Args: a}); x.Code == 0 || exists(t.Path("out")) {
				t.Failf("%s opens a protected key with an unset passphrase variable: %v", a[0], x)
			}
		}
		t.OK(Run{Args: a, Env: []string{"PW=" + pw}})
	})
}

// a passphrase that can be put into an environment variable
func hostilePwEnv(t *T) []byte {
	for {
		p := hostilePw(t, t.R.Intn(40))
		if bytes.IndexByte(p, 0) < 0 {
			return p
		}
	}
}

// watchKey looks at the files in dir until the function it returns is called,
// which says whether one that others may read had a private key in it.
func (t *T) watchKey(dir string) func() string {
	stop := make(chan bool)
	bad := make(chan string, 1)
	go func() {
		looks, withKey, res := 0, 0, ""
		for done := false; !done; {
			select {
			case <-stop:
				done = true
			default:
			}
			es, _ := os.ReadDir(dir)
			for _, e := range es {
				fd, err := os.OpenFile(filepath.Join(dir, e.Name()), os.O_RDONLY|syscall.O_NONBLOCK, 0)
				if err != nil {
					continue
				}
				// the content first: the mode that counts is one it has with it
				b, _ := io.ReadAll(io.LimitReader(fd, 65536))
				st, err := fd.Stat()
				fd.Close()
				looks++
				if err != nil || !bytes.Contains(b, []byte("esk:")) {
					continue
				}
				withKey++
				if st.Mode().Perm()&0077 != 0 && res == "" {
					res = fmt.Sprintf("%s has mode %v with the key in it", e.Name(), st.Mode().Perm())
				}
			}
			time.Sleep(100 * time.Microsecond)
		}
		t.Count("looks_while_writing", looks)
		t.Count("looks_that_saw_the_key", withKey)
		bad <- res
	}()
	return func() string {
		close(stop)
		return <-bad
	}
}
