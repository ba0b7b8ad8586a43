package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// C24: naming keys on the command line
func init() {
	register("C24", &Prop{MinEval: 300,
		Rule:   "encrypt with random lists of recipients named as native file, OpenSSH file or user@host of an authorized-keys file full of near misses (other users, prefixes, options, other key types, commented and damaged lines); the reference implementation determines which of all keys of the case can open the output, which must be exactly the named ones. One unresolvable name of many kinds at any position must make the command fail without output. Sender keys (-s, -v), the private key of decrypt and sign, and the public keys and key strings of verify are named in the same ways, right and wrong ones. Distinct: (command, ways of naming, outcome).",
		Assume: []string{"a comment carried by two Ed25519 entries, and file names with '@' for encrypt, are not judged"},
		Run:    runC24})
}

// names is a directory with keys under many names.
type names struct {
	*lab
	home string
	keys []*RefKey // every key that exists in the case
	auth []string  // lines of authorized_keys
	used map[string]bool
	n    int
	big  int // authorized_keys is to be about that large
}

func (t *T) newNames() *names {
	n := &names{lab: t.newLab(1+t.R.Intn(4000), 700), home: t.Path("home"), used: map[string]bool{}}
	must(os.MkdirAll(n.home+"/.ssh", 0700))
	must(os.MkdirAll(n.path("sub/deep"), 0755))
	n.keys = []*RefKey{n.rx, n.snd}
	return n
}

func (n *names) key() *RefKey {
	k := refKey(n.t.R)
	n.keys = append(n.keys, k)
	return k
}

// file stores b somewhere and returns a name for it as a command would get it
func (n *names) file(ext string, b []byte) string {
	r := n.t.R
	n.n++
	base := pick(r, "k", "key file ", "k.", "K-", "ключ", "abcd", "AAAA", "x=", "%41", "~", "+k", "$K", "k*", "k?[x]", "a,b", "a:b", "#k", "\"k\"", "AAAAC3NzaC1lZDI1NTE5") + fmt.Sprint(n.n) + ext
	dir := pick(r, "", "", "", "sub/", "sub/deep/")
	if r.Intn(12) == 0 {
		// not user@host: there is no user
		dir, base = "", pick(r, "@", "@k", "@host.")+fmt.Sprint(n.n)+ext
	}
	n.put(dir+base, b, 0600)
	p := dir + base
	how := r.Intn(6)
	if base[0] == '@' && how != 2 {
		how = 5
	}
	switch how {
	case 0:
		p = n.path(p)
	case 1:
		p = "./" + p
	case 2:
		l := fmt.Sprintf("link%d", n.n)
		must(os.Symlink(p, n.path(l)))
		p = l
	case 3:
		p = "sub/../" + p
	}
	return p
}

func sshComment(n *names) string {
	return pick(n.t.R, "", "user@host", "a b", "x@y z", "#c", fmt.Sprintf("u%d@h", n.t.R.Intn(99)))
}

// public names k's public key; kind tells how.
func (n *names) public(k *RefKey, kinds ...string) (name, kind string) {
	r := n.t.R
	kind = kinds[r.Intn(len(kinds))]
	switch kind {
	case "native":
		name = n.file(pick(r, ".pub", ".pub", "", ".key"), refPubFile(k.PK, pick(r, "", "me@there", "c: d")))
	case "ssh":
		l := sshPubLine(k.PK, sshComment(n))
		name = n.file(pick(r, ".pub", "", "_ed25519.pub"), []byte(strings.TrimRight(l, "\n")+pick(r, "\n", "\n", "", "\r\n")))
	case "user":
		for {
			name = pick(r, "alice", "bob", "carol.x", "d-e", "f+g", "ü", "UPPER", "a.b.c", "z") + pick(r, "", fmt.Sprint(r.Intn(50))) + "@" +
				pick(r, "host", "example.com", "h", "10.0.0.1", "localhost", fmt.Sprint("h", r.Intn(50))) + pick(r, "", "", "", ":22", " (work)", "@x", "\\", "\"", "'", ">", ",")
			if !n.used[name] {
				break
			}
		}
		n.used[name] = true
		opt := pick(r, "", "", "no-pty ", "command=\"echo "+strings.ReplaceAll(name, "\"", "")+"x #\",no-pty ", "from=\"*.x\" ", "environment=\"A=\\\"b c\" ")
		n.auth = append(n.auth, opt+"ssh-ed25519"+pick(r, " ", "\t", "  ")+b64(sshPubBlob(k.PK))+" "+name)
		// near misses, all of other keys
		for i := r.Intn(5); i > 0; i-- {
			o := n.key()
			b := b64(sshPubBlob(o.PK))
			miss := pick(r, name+"x", "x"+name, strings.ToUpper(name)+"~", name+" 2", strings.Split(name, "@")[0]+"@", "@"+strings.Split(name, "@")[1], strings.Split(name, "@")[0])
			l := pick(r, "ssh-ed25519 "+b+" "+miss, "# ssh-ed25519 "+b+" "+name, "#ssh-ed25519 "+b+" "+name, "ssh-ed25519 "+b[:len(b)-4]+" "+name,
				"command=\"ssh-ed25519 "+b+" "+name, "ssh-rsa "+b64(sshStr([]byte("ssh-rsa"), []byte{1, 0, 1}, append([]byte{0, 0x81}, make([]byte, 127)...)))+" "+name,
				"command=\"x ssh-ed25519 "+b+" "+name+" y\" ssh-ed25519 "+b64(sshPubBlob(n.key().PK))+" "+miss)
			if strings.HasSuffix(l, " "+miss) && n.used[miss] {
				continue
			}
			if strings.HasSuffix(l, " "+miss) {
				n.used[miss] = true
			}
			n.auth = append(n.auth, l)
		}
	}
	return
}

func (n *names) writeAuth() {
	r := n.t.R
	r.Shuffle(len(n.auth), func(i, j int) { n.auth[i], n.auth[j] = n.auth[j], n.auth[i] })
	eol := pick(r, "\n", "\n", "\r\n")
	if n.big > 0 && len(n.auth) > 0 {
		// many other lines before and between the ones that matter
		var l []string
		for i, x := range n.auth {
			for sz := n.big / len(n.auth); sz > 0; {
				y := pick(r, "# "+strings.Repeat("comment ", 1+r.Intn(9)), fmt.Sprintf("ssh-ed25519 %s other%d.%d@host", b64(sshPubBlob(refKey(r).PK)), i, sz),
					"ssh-rsa "+b64(sshStr([]byte("ssh-rsa"), []byte{1, 0, 1}, append([]byte{0, 0x81}, make([]byte, 500)...)))+" rsa@host", "")
				l = append(l, y)
				sz -= len(y) + 1
			}
			l = append(l, x)
		}
		n.auth = l
	}
	s := strings.Join(n.auth, eol)
	if r.Intn(4) > 0 {
		s += eol
	}
	if len(n.auth) > 0 || r.Intn(2) == 0 {
		n.t.write(filepath.Join(n.home, ".ssh/authorized_keys"), []byte(s), 0600)
	}
}

// bad makes a name that stands for no Ed25519 key.
var badNames = []string{"missing", "dir", "empty", "private", "sshprivate", "rsa", "ecdsa", "text", "binary", "short-native", "long-native", "bad-base64", "no-pk", "damaged-blob", "truncated-blob", "sk-key", "cert",
	"unknown-user", "case-user", "prefix-user", "rsa-user", "commented-user", "damaged-user", "quoted-user", "space-user", "longer-comment-user", "dot-user", "wrapped-user", "inner-user", "tab-user", "missing-with-pub", "missing-with-key", "two-names", "enc-file", "sig-file", "empty-name", "elsewhere", "low-order"}

func (n *names) bad(kind string) string {
	r := n.t.R
	k := n.key()
	blob := b64(sshPubBlob(k.PK))
	rsaBlob := b64(sshStr([]byte("ssh-rsa"), []byte{1, 0, 1}, append([]byte{0, 0x81}, make([]byte, 127)...)))
	n.n++
	usr := fmt.Sprintf("Target%d@host", n.n)
	n.used[usr] = true
	f := func(b string) string { return n.file(".pub", []byte(b)) }
	switch kind {
	case "low-order": // a point with which there is no shared secret
		x, err := hex.DecodeString(pick(r, "0000000000000000000000000000000000000000000000000000000000000000", "0100000000000000000000000000000000000000000000000000000000000000",
			"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "0000000000000000000000000000000000000000000000000000000000000080",
			"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a"))
		must(err)
		switch r.Intn(3) {
		case 0:
			return n.file(".pub", []byte(sshPubLine(x, "c")+"\n"))
		case 1:
			n.auth = append(n.auth, sshPubLine(x, usr))
			return usr
		}
		return n.file(".pub", refPubFile(x, ""))
	case "missing":
		return fmt.Sprintf("nosuch%d.pub", n.n)
	case "dir":
		return "sub"
	case "empty":
		return f("")
	case "private":
		return n.file(".pub", quickPriv(r, k, nil, ""))
	case "sshprivate":
		return n.file("", pemWrap(newSSHPriv(n.t, k, "c").blob()))
	case "rsa":
		return f("ssh-rsa " + rsaBlob + " x@y\n")
	case "ecdsa":
		return f("ecdsa-sha2-nistp256 " + b64(sshStr([]byte("ecdsa-sha2-nistp256"), []byte("nistp256"), p256point)) + " x@y\n")
	case "text":
		return f("hello world\n")
	case "binary":
		return n.file(".pub", randBytes(r, 64))
	case "short-native":
		return f("comment: x\npk: " + b64(k.PK[:31]) + "\n")
	case "long-native":
		return f("comment: x\npk: " + b64(append(append([]byte(nil), k.PK...), 0)) + "\n")
	case "bad-base64":
		return f("comment: x\npk: '*" + b64(k.PK)[1:] + "'\n")
	case "no-pk":
		return f("comment: x\n")
	case "damaged-blob":
		return f("ssh-ed25519 *" + blob[1:] + " x@y\n")
	case "truncated-blob":
		return f("ssh-ed25519 " + blob[:len(blob)-8] + " x@y\n")
	case "sk-key":
		return f("sk-ssh-ed25519@openssh.com " + b64(sshStr([]byte("sk-ssh-ed25519@openssh.com"), k.PK, []byte("ssh:"))) + " x@y\n")
	case "cert":
		return f("ssh-ed25519-cert-v01@openssh.com " + b64(sshStr([]byte("ssh-ed25519-cert-v01@openssh.com"), randBytes(r, 32), k.PK)) + " x@y\n")
	case "unknown-user":
		return usr
	case "case-user":
		n.auth = append(n.auth, "ssh-ed25519 "+blob+" "+strings.ToLower(usr))
		return usr
	case "prefix-user":
		n.auth = append(n.auth, "ssh-ed25519 "+blob+" "+usr+"name")
		return usr
	case "rsa-user":
		n.auth = append(n.auth, "ssh-rsa "+rsaBlob+" "+usr)
		return usr
	case "commented-user":
		n.auth = append(n.auth, "#ssh-ed25519 "+blob+" "+usr)
		return usr
	case "damaged-user":
		n.auth = append(n.auth, "ssh-ed25519 "+blob[:len(blob)-4]+" "+usr)
		return usr
	case "quoted-user":
		n.auth = append(n.auth, "command=\"ssh-ed25519 "+blob+" "+usr+" \" ssh-rsa "+rsaBlob+" other@h")
		return usr
	case "space-user":
		n.auth = append(n.auth, "ssh-ed25519 "+blob+" "+usr)
		return usr + " "
	case "longer-comment-user":
		n.auth = append(n.auth, "ssh-ed25519 "+blob+" "+usr+pick(r, " laptop", "\tlaptop", " (home)", " "+usr+"2"))
		return usr
	case "inner-user":
		n.auth = append(n.auth, "ssh-ed25519 "+blob+" key of "+usr)
		return usr
	case "wrapped-user":
		for _, w := range []string{"<>", "()", "[]", "\"\"", "''", "{}", "``", "**", "//", "\\\\", ",,", ";;", "::", "--", "__", "##"} {
			for _, v := range []string{w[:1] + usr + w[1:], w[:1] + usr, usr + w[1:]} {
				n.auth = append(n.auth, "ssh-ed25519 "+b64(sshPubBlob(n.key().PK))+" "+v)
			}
		}
		for _, p := range []string{"mailto:", "user:", "ssh://", "user=", "x ", "by ", "www."} {
			n.auth = append(n.auth, "ssh-ed25519 "+b64(sshPubBlob(n.key().PK))+" "+p+usr)
		}
		return usr
	case "dot-user":
		n.auth = append(n.auth, "ssh-ed25519 "+blob+" "+usr+pick(r, ".", ".local", ".example.com", "@", ":22"))
		return usr
	case "tab-user":
		n.auth = append(n.auth, "ssh-ed25519 "+blob+" "+usr)
		return pick(r, usr+".", usr+"\t", " "+usr, strings.Replace(usr, "@", "@.", 1), strings.Replace(usr, "@", " @", 1), usr[:len(usr)-1], usr[1:])
	case "missing-with-pub":
		f := pick(r, "id", "sub/id", "a.key") + fmt.Sprint(n.n)
		n.put(f+".pub", refPubFile(k.PK, ""), 0644)
		return pick(r, f, f, strings.TrimSuffix(f+".pub", "b"), f+".", f+".pub.pub", f+".PUB")
	case "missing-with-key":
		f := "id" + fmt.Sprint(n.n)
		n.put(f, refPubFile(k.PK, ""), 0644)
		n.put(f+".key", quickPriv(r, k, nil, ""), 0600)
		return f + pick(r, ".pub", ".", ".txt", "/", " ")
	case "two-names":
		a, b := n.file(".pub", refPubFile(k.PK, "")), n.file(".pub", refPubFile(n.key().PK, ""))
		return a + pick(r, ",", " ", ":", ";") + b
	case "elsewhere":
		// a file of that name exists, but not here
		f := pick(r, "id_ed25519", "id_ed25519.pub", "key.pub", "friend") + pick(r, "", fmt.Sprint(n.n))
		n.t.write(n.home+"/.ssh/"+f, []byte(sshPubLine(k.PK, "x@y")+"\n"), 0644)
		for _, d := range []string{n.home, n.home + "/.sigtool", n.home + "/.config/sigtool", n.path("sub"), n.t.Path("")} {
			n.t.write(d+"/"+f, refPubFile(k.PK, ""), 0644)
			n.t.write(d+"/"+f+".pub", refPubFile(k.PK, ""), 0644)
		}
		return f
	case "enc-file":
		return "in.enc"
	case "sig-file":
		return "good.sig"
	}
	return ""
}

func runC24(c *Ctx) {
	c.Cases("recipients", c.n(250, 6000), func(t *T) {
		n := t.newNames()
		n.big = pick(t.R, 0, 0, 0, 0, 0, 0, 0, 5000, 40000, 70000, 140000, 1100000)
		var args, kinds []string
		want := map[string]bool{}
		for i := 1 + t.R.Intn(5); i > 0; i-- {
			k := n.key()
			if len(want) > 0 && t.R.Intn(8) == 0 {
				k = n.keys[len(n.keys)-2] // maybe a key listed already, under another name
				if !want[string(k.PK)] {
					continue
				}
			}
			nm, kind := n.public(k, "native", "ssh", "user", "user")
			want[string(k.PK)] = true
			args = append(args, nm)
			kinds = append(kinds, kind)
		}
		n.writeAuth()
		a := []string{"encrypt"}
		var spk []byte
		switch t.R.Intn(4) {
		case 0:
			a = append(a, "--no-password", "-s", n.file(".key", quickPriv(t.R, n.snd, nil, "")))
			spk = n.snd.PK
		case 1:
			a = append(a, "--no-password", "-s", n.file("_id", pemWrap(newSSHPriv(t, n.snd, "c").blob())))
			spk = n.snd.PK
		}
		out := t.R.Intn(2) == 0
		if out {
			a = append(a, "-o", "out")
		}
		a = append(append(a, args...), "in")
		r := t.CLI(Run{Args: a, Dir: n.W, Home: n.home})
		t.Set("authorized_keys", n.auth[max(0, len(n.auth)-30):])
		if r.Code != 0 {
			t.Failf("encryption for existing keys failed: %v", r)
		}
		b := r.Out
		if out {
			b = mustRead(n.path("out"))
		}
		can := 0
		for _, k := range n.keys {
			o, err := refOpen(b, k, spk)
			switch {
			case err == nil && !want[string(k.PK)]:
				t.Failf("a key that was not named can decrypt the output: %v", r)
			case err != nil && want[string(k.PK)]:
				t.Failf("a named key can't decrypt the output (%v): %v", err, r)
			case err == nil:
				can++
				if !bytes.Equal(o.PT, n.data) || o.Signed != (spk != nil) {
					t.Failf("output decrypts to something else (sender %v): %v", o.Signed, r)
				}
			}
		}
		t.Count("keys_tried", len(n.keys))
		t.Count("keys_named", can)
		sort.Strings(kinds)
		t.Seen("%v/%v/%v", kinds, spk != nil, out)
		t.Sample(map[string]any{"command": r.Cmd, "keys": len(n.keys), "named": can})
	})

	// more recipients than anybody would type
	c.Cases("crowd", c.n(9, 120), func(t *T) {
		n := t.newNames()
		cnt := pick(t.R, 30, 64, 65, 66, 100, 127, 129, 255, 257, 300, 600)
		var args []string
		var named []*RefKey
		for i := 0; i < cnt; i++ {
			k := refKey(t.R)
			nm, _ := n.public(k, "native", "ssh", "user")
			args = append(args, nm)
			named = append(named, k)
		}
		n.writeAuth()
		r := t.OK(Run{Args: append(append([]string{"encrypt"}, args...), "in"), Dir: n.W, Home: n.home})
		for i, k := range named {
			if o, err := refOpen(r.Out, k, nil); err != nil || !bytes.Equal(o.PT, n.data) {
				t.Failf("key %d of %d named keys can't decrypt the output: %v", i, cnt, err)
			}
		}
		for _, k := range n.keys {
			if _, err := refOpen(r.Out, k, nil); err == nil {
				t.Failf("a key that was not named can decrypt the output for %d recipients", cnt)
			}
		}
		t.Count("keys_named", cnt)
		t.Count("keys_tried", cnt+len(n.keys))
		t.Seen("%d", cnt)
	})

	// many of them do not exist
	manyBad := []int{2, 3, 16, 64, 127, 128, 129, 254, 255, 256, 257, 512, 1000, 1024}
	c.Cases("crowd-unresolvable", len(manyBad)*c.n(1, 20), func(t *T) {
		n := t.newNames()
		cnt := manyBad[t.idx%len(manyBad)]
		var args []string
		for i := t.R.Intn(4); i > 0; i-- {
			nm, _ := n.public(n.key(), "native", "ssh", "user")
			args = append(args, nm)
		}
		kind := badNames[t.R.Intn(len(badNames))]
		for i := 0; i < cnt; i++ {
			if t.idx%3 == 0 {
				kind = badNames[t.R.Intn(len(badNames))]
			}
			args = append(args, n.bad(kind))
		}
		t.R.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
		n.writeAuth()
		before := snapshot(n.W)
		r := t.CLI(Run{Args: append(append([]string{"encrypt", "-o", "out"}, args...), "in"), Dir: n.W, Home: n.home})
		r.Cmd = clip(r.Cmd, 300)
		if r.Code == 0 {
			t.Failf("encryption succeeded with %d recipients that are no Ed25519 keys (%s): %v", cnt, kind, r)
		}
		if d := snapDiff(before, snapshot(n.W)); len(d) > 0 {
			t.Failf("failed encryption (%d times %s) changed files: %v", cnt, kind, d)
		}
		t.Count("refusals", 1)
		t.Seen("crowd %d/%s", cnt, kind)
	})

	c.Cases("unresolvable", len(badNames)*c.n(6, 60), func(t *T) {
		kind := badNames[t.idx%len(badNames)]
		n := t.newNames()
		var args []string
		for i := t.R.Intn(4); i > 0; i-- {
			nm, _ := n.public(n.key(), "native", "ssh", "user")
			args = append(args, nm)
		}
		at := t.R.Intn(len(args) + 1)
		args = append(args[:at:at], append([]string{n.bad(kind)}, args[at:]...)...)
		n.writeAuth()
		a := []string{"encrypt"}
		out := t.R.Intn(2) == 0
		if out {
			a = append(a, "-o", "out")
		}
		a = append(append(a, args...), "in")
		before := snapshot(n.W)
		r := t.CLI(Run{Args: a, Dir: n.W, Home: n.home})
		t.Set("kind", kind)
		t.Set("authorized_keys", n.auth)
		if r.Code == 0 {
			t.Failf("encryption succeeded with a recipient that is no Ed25519 key (%s): %v", kind, r)
		}
		if len(r.Out) > 0 && !out && bytes.Contains(r.Out, []byte("SigTool")) {
			t.Failf("failed encryption (%s) wrote output: %v", kind, r)
		}
		if d := snapDiff(before, snapshot(n.W)); len(d) > 0 {
			t.Failf("failed encryption (%s) changed files: %v", kind, d)
		}
		t.Count("refusals", 1)
		t.Seen("%s/%d/%d/%v", kind, at, len(args), out)
	})

	// verification keys
	c.Cases("verify", c.n(250, 5000), func(t *T) {
		n := t.newNames()
		k := pick(t.R, n.snd, n.snd, n.rx, n.key())
		kind := pick(t.R, "native", "ssh", "string", "ssh-string", "bad", "string-like-file")
		var nm string
		switch kind {
		case "string-like-file": // its name is valid base64, but no key
			nm = pick(t.R, "keys", "AAAAC3NzaC1lZDI1NTE5", "testkey1", "alicepub", b64(k.PK)[:40], "sub/deepkeys", b64(sshPubBlob(k.PK))[:64])
			if nm != "sub/deepkeys" {
				nm = strings.ReplaceAll(nm, "/", "Q")
			}
			n.put(nm, pick(t.R, refPubFile(k.PK, ""), []byte(sshPubLine(k.PK, "c")+"\n")), 0644)
		case "native", "ssh":
			nm, _ = n.public(k, kind)
		case "string":
			nm = b64(k.PK)
		case "ssh-string":
			nm = b64(sshPubBlob(k.PK))
		case "bad":
			for {
				b := badNames[t.R.Intn(len(badNames))]
				if nm = n.bad(b); !strings.HasSuffix(b, "user") {
					kind = "bad/" + b
					break
				}
			}
			if t.R.Intn(3) == 0 {
				kind = "bad/string"
				blob := b64(sshPubBlob(n.snd.PK))
				nm = pick(t.R, b64(n.snd.PK[:31]), b64(n.snd.PK)+"AAAA", b64(n.snd.PK)[1:], blob[:len(blob)-4], b64(append(sshPubBlob(n.snd.PK), 0)), "ssh-ed25519", b64(sshStr([]byte("ssh-rsa"), n.snd.PK)), b64(n.snd.PK)[:43])
			}
		}
		if strings.Contains(nm, "/") && (kind == "string" || kind == "ssh-string") {
			t.Count("strings_with_slash", 1)
		}
		n.writeAuth()
		r := t.CLI(Run{Args: []string{"verify", nm, "good.sig", "in"}, Dir: n.W, Home: n.home})
		good := !strings.HasPrefix(kind, "bad") && bytes.Equal(k.PK, n.snd.PK)
		if (r.Code == 0) != good {
			t.Failf("verify with a key named as %s (signer's: %v): %v", kind, good, r)
		}
		t.Seen("%s/%v", kind, good)
	})

	// sender keys of decryption, private keys
	c.Cases("sender", c.n(150, 3000), func(t *T) {
		n := t.newNames()
		good := t.R.Intn(2) == 0
		k := n.snd
		kind := "bad"
		var nm string
		if !good {
			k = pick(t.R, n.rx, n.key())
		}
		if good || t.R.Intn(2) == 0 {
			nm, kind = n.public(k, "native", "ssh")
		} else {
			for {
				kind = badNames[t.R.Intn(len(badNames))]
				if kind != "empty-name" {
					nm = n.bad(kind)
					break
				}
			}
		}
		n.writeAuth()
		var skf string
		if t.R.Intn(2) == 0 {
			skf = n.file(".key", quickPriv(t.R, n.rx, nil, ""))
		} else {
			skf = n.file("_id", pemWrap(newSSHPriv(t, n.rx, "c").blob()))
		}
		r := t.CLI(Run{Args: []string{"decrypt", "--no-password", "-v", nm, skf, "sin.enc"}, Dir: n.W, Home: n.home})
		if !good && kind != "native" && kind != "ssh" {
			// nor is a file without a sender accepted from it
			f := newRefFile(t.R, 500, nil)
			f.addRx(t.R, n.rx.PK)
			n.put("anon.enc", f.Encrypt(t.R, n.data), 0644)
			a := []string{"decrypt", "--no-password", "-v", nm, skf, "anon.enc"}
			if t.R.Intn(2) == 0 {
				a = append(a[:1], append([]string{"-t"}, a[1:]...)...)
			}
			if r := t.CLI(Run{Args: a, Dir: n.W, Home: n.home}); r.Code == 0 {
				t.Failf("decrypt of an anonymous file with a sender key that is none (%s) succeeded: %v", kind, r)
			}
			t.Count("refusals", 1)
		}
		if (r.Code == 0) != good {
			t.Failf("decrypt with sender key %s (right one: %v): %v", kind, good, r)
		}
		if good {
			if s := diffBytes(r.Out, n.data); s != "" {
				t.Failf("decrypt: %s: %v", s, r)
			}
		}
		t.Seen("%s/%v", kind, good)
	})

	// private keys: the named one is used
	c.Cases("private", c.n(100, 2000), func(t *T) {
		n := t.newNames()
		k := n.key()
		kind := pick(t.R, "native", "native-pw", "ssh")
		env := []string{"PW=open sesame"}
		pwo := []string{"--no-password"}
		var skf string
		switch kind {
		case "native":
			skf = n.file(pick(t.R, ".key", ".pub", ""), quickPriv(t.R, k, nil, ""))
		case "native-pw":
			skf = n.file(".key", quickPriv(t.R, k, []byte("open sesame"), ""))
			pwo = []string{"-E", "PW"}
		case "ssh":
			skf = n.file("", pemWrap(newSSHPriv(t, k, "c").blob()))
		}
		r := t.OK(Run{Args: append(append([]string{"sign"}, pwo...), "-o", "-", skf, "in"), Dir: n.W, Env: env})
		sg, h, _, err := refReadSig(r.Out)
		if err != nil || !bytes.Equal(h, refHash(k.PK)) || !refVerifyMsg(k.PK, refFileCksum(n.data), sg) {
			t.Failf("sign with a %s key made a signature that is not by that key (%v): %v", kind, err, r)
		}
		f := newRefFile(t.R, 500, nil)
		mine := t.R.Intn(2) == 0
		f.addRx(t.R, n.rx.PK)
		if mine {
			f.addRx(t.R, k.PK)
		}
		n.put("x.enc", f.Encrypt(t.R, n.data), 0644)
		r = t.CLI(Run{Args: append(append([]string{"decrypt"}, pwo...), skf, "x.enc"), Dir: n.W, Env: env})
		if (r.Code == 0) != mine || mine && !bytes.Equal(r.Out, n.data) {
			t.Failf("decrypt with a %s key (recipient: %v): %v", kind, mine, r)
		}
		t.Seen("%s/%v", kind, mine)
	})
}
