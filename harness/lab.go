// lab.go - a directory with keys, inputs and outputs to run commands in
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
)

// lab is a working directory W (below the case's own directory) holding
// everything a command needs.
type lab struct {
	t        *T
	W        string
	rx, snd  *RefKey
	data     []byte
	ct, sct  []byte // data encrypted for rx, plain and by snd
	sig      []byte // signature file of data by snd
	blk      int
	pristine map[string]snapEntry
	mayGo    bool // watched path may disappear
}

func (t *T) newLab(n, blk int) *lab {
	l := &lab{t: t, W: t.Path("w"), rx: refKey(t.R), snd: refKey(t.R), blk: blk}
	must(os.MkdirAll(l.W, 0755))
	l.data = patterned(t.R, n)
	f := newRefFile(t.R, uint32(blk), nil)
	f.addRx(t.R, l.rx.PK)
	l.ct = f.Encrypt(t.R, l.data)
	f = newRefFile(t.R, uint32(blk), l.snd)
	f.addRx(t.R, refKey(t.R).PK)
	f.addRx(t.R, l.rx.PK)
	l.sct = f.Encrypt(t.R, l.data)
	l.sig = refSigFile(l.snd, refFileCksum(l.data), "in")
	l.put("in", l.data, 0644)
	l.put("in.enc", l.ct, 0644)
	l.put("sin.enc", l.sct, 0644)
	l.put("good.sig", l.sig, 0644)
	l.put("rx.key", quickPriv(t.R, l.rx, nil, ""), 0600)
	l.put("rx.pub", refPubFile(l.rx.PK, ""), 0644)
	l.put("snd.key", quickPriv(t.R, l.snd, nil, ""), 0600)
	l.put("snd.pub", refPubFile(l.snd.PK, ""), 0644)
	return l
}

func (l *lab) put(name string, b []byte, mode os.FileMode) string {
	return l.t.write(filepath.Join(l.W, name), b, mode)
}

func (l *lab) path(n string) string { return filepath.Join(l.W, n) }

// labCmd is a command, the place of its output and how to judge the output.
type labCmd struct {
	name   string
	args   []string // without the output option
	outOpt bool     // takes -o
	defOut string   // output used without -o ("": stdout)
	in     string   // input file, to be replaced by variants
	judge  func(b []byte) error
}

// with returns the arguments for output o ("" none, "-" stdout)
func (c *labCmd) with(o string, force bool) []string {
	a := []string{c.args[0]}
	if c.outOpt && o != "" {
		a = append(a, "-o", o)
	}
	if force {
		a = append(a, "--overwrite")
	}
	return append(a, c.args[1:]...)
}

// commands of the lab that make an output and succeed.
func (l *lab) commands() []*labCmd {
	np := "--no-password"
	isEnc := func(snd []byte) func(b []byte) error {
		return func(b []byte) error {
			o, err := refOpen(b, l.rx, snd)
			if err != nil {
				return err
			}
			if o.Signed != (snd != nil) {
				return fmt.Errorf("sender %v", o.Signed)
			}
			return sameErr(o.PT, l.data)
		}
	}
	return []*labCmd{
		{name: "encrypt", args: []string{"encrypt", "-B", fmt.Sprint(l.blk), "rx.pub", "in"}, outOpt: true, in: "in", judge: isEnc(nil)},
		{name: "encrypt-signed", args: []string{"encrypt", np, "-s", "snd.key", "-B", fmt.Sprint(l.blk), "rx.pub", "in"}, outOpt: true, in: "in", judge: isEnc(l.snd.PK)},
		{name: "decrypt", args: []string{"decrypt", np, "rx.key", "in.enc"}, outOpt: true, in: "in.enc", judge: func(b []byte) error { return sameErr(b, l.data) }},
		{name: "decrypt-signed", args: []string{"decrypt", np, "-v", "snd.pub", "rx.key", "sin.enc"}, outOpt: true, in: "sin.enc", judge: func(b []byte) error { return sameErr(b, l.data) }},
		{name: "sign", args: []string{"sign", np, "snd.key", "in"}, outOpt: true, defOut: "in.sig", in: "in", judge: func(b []byte) error {
			sg, h, _, err := refReadSig(b)
			if err != nil {
				return err
			}
			if !bytes.Equal(h, refHash(l.snd.PK)) || !refVerifyMsg(l.snd.PK, refFileCksum(l.data), sg) {
				return fmt.Errorf("signature does not verify")
			}
			return nil
		}},
	}
}

func sameErr(got, want []byte) error {
	if s := diffBytes(got, want); s != "" {
		return fmt.Errorf("%s", s)
	}
	return nil
}

// replaceArg returns a copy of a with argument old replaced.
func replaceArg(a []string, old, new string) []string {
	r := append([]string(nil), a...)
	for i := len(r) - 1; i > 0; i-- {
		if r[i] == old {
			r[i] = new
			break
		}
	}
	return r
}

var straceOnce sync.Once
var straceFine bool

// straceOK says whether programs can be run under strace here.
func straceOK() bool {
	straceOnce.Do(func() {
		out, err := exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "-e", "inject=write:error=ENOSPC", "/bin/sh", "-c", "echo x").CombinedOutput()
		straceFine = err != nil && !bytes.Contains(out, []byte("strace:"))
	})
	return straceFine
}

// inject makes the system calls of a run fail or be delayed.
func inject(spec ...string) []string {
	a := []string{"strace", "-f", "-qq", "-o", "/dev/null"}
	for _, s := range spec {
		a = append(a, "-e", "inject="+s)
	}
	return a
}

// faults are single failures of system calls that a command must survive
// in an orderly way.
func randFault(r *rand.Rand) string {
	f := []string{
		"write:error=ENOSPC", "write:error=EIO", "write:error=EDQUOT", "read:error=EIO", "pread64:error=EIO", "fsync:error=EIO", "fsync:error=ENOSPC",
		"renameat:error=EIO", "renameat:error=ENOSPC", "renameat:error=EACCES", "close:error=EIO", "close:error=ENOSPC",
		"openat:error=EACCES", "openat:error=ENOSPC", "openat:error=EMFILE", "newfstatat:error=EIO", "fstat:error=EIO",
		"write:error=EFBIG",
	}[r.Intn(18)]
	switch r.Intn(4) {
	case 0:
		return f
	case 1:
		return fmt.Sprintf("%s:when=%d+", f, 1+r.Intn(12))
	}
	return fmt.Sprintf("%s:when=%d", f, 1+r.Intn(16))
}
