#!/usr/bin/env python3
"""Make and try planted bugs.

  plant.py make DEFS.py [ID..]  write /verif/seeded/ID from the definitions
  plant.py try ID..             confirm each one in a scratch copy of /repo
                                (applies, builds, stable tests pass, demo
                                quiet without and loud with it), then run the
                                check of its property on the copy
  plant.py all ID..             run every check on the copy

DEFS.py holds a list BUGS of dicts: id, property, needs, breaks, edits
[(file, old, new)..], and demo: ("go", code) or ("sh", script).
"""
import json, os, subprocess, sys, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
SCR = "/tmp/plant"

GO_HEAD = '''package sign_test

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/opencoff/sigtool/sign"
)

var (
	_ = base64.StdEncoding
	_ = binary.BigEndian
	_ = errors.New
	_ = fmt.Sprint
	_ = os.Getpid
	_ = filepath.Join
	_ = strings.Repeat
)

type sink struct{ bytes.Buffer }

func (s *sink) Close() error { return nil }

func newKey(t *testing.T) *sign.PrivateKey {
	t.Helper()
	k, err := sign.NewPrivateKey()
	if err != nil {
		t.Fatal(err)
	}
	return k
}

func encrypt(t *testing.T, data []byte, blk uint64, snd *sign.PrivateKey, rx ...*sign.PublicKey) []byte {
	t.Helper()
	e, err := sign.NewEncryptor(snd, blk)
	if err != nil {
		t.Fatal(err)
	}
	for _, k := range rx {
		if err = e.AddRecipient(k); err != nil {
			t.Fatal(err)
		}
	}
	var s sink
	if err = e.Encrypt(bytes.NewReader(data), &s); err != nil {
		t.Fatal(err)
	}
	return s.Bytes()
}

func decrypt(ct []byte, k *sign.PrivateKey, snd *sign.PublicKey) ([]byte, error) {
	d, err := sign.NewDecryptor(bytes.NewReader(ct))
	if err != nil {
		return nil, err
	}
	if err = d.SetPrivateKey(k, snd); err != nil {
		return nil, err
	}
	var s sink
	err = d.Decrypt(&s)
	return s.Bytes(), err
}

func decryptStream(ct []byte, k *sign.PrivateKey, snd *sign.PublicKey) ([]byte, error) {
	d, err := sign.NewDecryptor(bytes.NewReader(ct))
	if err != nil {
		return nil, err
	}
	if err = d.SetPrivateKey(k, snd); err != nil {
		return nil, err
	}
	r, err := d.NewStreamReader()
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

'''
GO_SH = '''#!/bin/bash
# exit 0 if the property holds, nonzero otherwise; run in the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 1
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/sign/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
export TMPDIR=$t GOFLAGS=-mod=readonly
go test -overlay "$t/overlay.json" -vet=off -count=1 -timeout 250s RACE-run 'TestDemo' ./sign
'''
SH_HEAD = '''#!/bin/bash
# exit 0 if the property holds, nonzero otherwise; run in the repository
t=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 1
trap 'rm -rf "$t"' EXIT
GOFLAGS=-mod=readonly go build -trimpath -buildvcs=false -o "$t/sigtool" ./src || exit 1
export HOME=$t
bin=$t/sigtool
mkdir "$t/w" && cd "$t/w" || exit 1
bad() { echo "BAD: $*"; exit 1; }

'''

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def make(defs, only):
    ns = {}
    exec(compile(open(defs).read(), defs, "exec"), ns)
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = os.path.join(S, b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        scr = SCR + "/make-" + b["id"]
        shutil.rmtree(scr, ignore_errors=True)
        os.makedirs(SCR, exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", scr])
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(scr, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "edit matches", s.count(old), "times in", f, ":", old[:60])
                ok = False
                continue
            open(p, "w").write(s.replace(old, new))
        r = sh(["gofmt", "-l", "src", "sign"], cwd=scr)
        if r.stdout.strip():
            sh(["gofmt", "-w"] + [x for x in r.stdout.split() if x in [e[0] for e in b["edits"]]], cwd=scr)
        diff = subprocess.check_output(["git", "diff"], cwd=scr, text=True)
        shutil.rmtree(scr)
        if not ok:
            shutil.rmtree(d)
            continue
        open(d + "/patch.diff", "w").write(diff)
        kind, code = b["demo"][:2]
        if kind == "go":
            lines = code.strip().split("\n")
            imp = [l for l in lines if l.startswith("import ")]
            code = "\n".join(l for l in lines if l not in imp)
            head = GO_HEAD.replace(")\n\nvar (", ")\n" + "\n".join(imp) + "\n\nvar (", 1)
            open(d + "/demo_test.go", "w").write(head + code.strip() + "\n")
            r = sh(["gofmt", "-w", d + "/demo_test.go"])
            if r.returncode: print(b["id"], r.stdout)
            race = "-race " if len(b["demo"]) > 2 and b["demo"][2] == "race" else ""
            open(d + "/demo.sh", "w").write(GO_SH.replace("RACE", race))
        else:
            open(d + "/demo.sh", "w").write(SH_HEAD + code.strip() + "\nexit 0\n")
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("made", b["id"])

def copy(i):
    scr = SCR + "/try-" + i
    shutil.rmtree(scr, ignore_errors=True)
    os.makedirs(SCR, exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", scr])
    return scr

def demo(i, scr):
    t = SCR + "/demo-" + i
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(os.path.join(S, i), t)
    try:
        return sh(["bash", t + "/demo.sh"], cwd=scr, timeout=300)
    except subprocess.TimeoutExpired as e:
        class R: returncode = "timeout"; stdout = str(e.output)
        return R
    finally:
        shutil.rmtree(t)

def tests(i, scr):
    e = dict(os.environ, GOFLAGS="-mod=readonly")
    r = sh("go build -buildvcs=false ./... && go build -trimpath -buildvcs=false -o ../bin-%s ./src" % i, shell=True, cwd=scr, env=e)
    if r.returncode: return "does not build: " + r.stdout
    r = sh("go test -vet=off -count=1 ./... ", shell=True, cwd=scr, env=e)
    if r.returncode: return "tests fail: " + r.stdout[-1500:]
    r = sh("mkdir -p ../rt-%s; timeout 300 bash ./tests.sh bin=$PWD/../bin-%s tmpdir=$PWD/../rt-%s/x < /dev/null" % (i, i, i), shell=True, cwd=scr, env=e)
    sh(["rm", "-rf", "%s/rt-%s" % (SCR, i), "%s/bin-%s" % (SCR, i)])
    if r.returncode: return "tests.sh fails: " + r.stdout[-1500:]
    return None

def check(c, scr):
    e = dict(os.environ, VERIF_REPO=scr)
    e.pop("VERIF_TIER", None)
    r = sh(["timeout", "900", os.path.join(os.environ.get("VERIF_CHECKS", V), "check"), c], env=e)
    first = [l for l in r.stdout.splitlines() if l.startswith(c) or "VIOL" in l]
    return r.returncode, (first[0] if first else r.stdout[-300:])[:330]

def tryone(i, everything=False, only_check=False):
    out = []
    prop = json.load(open(os.path.join(S, i, "meta.json")))["property"]
    scr = copy(i)
    try:
        if not only_check:
            r = demo(i, scr)
            if r.returncode != 0: out.append("DEMO FAILS UNPATCHED %s: %s" % (r.returncode, r.stdout[-800:]))
        r = sh(["git", "apply", os.path.join(S, i, "patch.diff")], cwd=scr)
        if r.returncode: return i, ["DOES NOT APPLY " + r.stdout]
        if not only_check:
            e = tests(i, scr)
            if e: out.append("UNUSABLE: " + e)
            r = demo(i, scr)
            if r.returncode in (0, "timeout"): out.append("DEMO QUIET (%s): %s" % (r.returncode, r.stdout[-500:]))
        if everything:
            hits = []
            for n in range(1, 60):
                c = "C%02d" % n
                if os.path.exists("%s/harness/p_c%02d.go" % (V, n)):
                    rc, m = check(c, scr)
                    if rc != 0: hits.append(c if rc == 1 else "%s=%d" % (c, rc))
            out.append("caught by: " + " ".join(hits))
        else:
            rc, m = check(prop, scr)
            out.append("%s %s: %s" % ({1: "caught", 0: "MISSED"}.get(rc, "NOVERDICT %d" % rc), prop, m))
    finally:
        shutil.rmtree(scr, ignore_errors=True)
    return i, out

if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        make(args[0], args[1:])
    else:
        ids = args or sorted(os.listdir(S))
        with cf.ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
            for i, out in ex.map(lambda i: tryone(i, cmd == "all", cmd == "check"), ids):
                for o in out: print(i, "|", o, flush=True)
