#!/usr/bin/env python3
"""plant.py FILE.py...: makes /verif/seeded/<id>/ from descriptions of planted bugs, after confirming each in a
scratch copy: it builds, the stable tests pass, the demonstration passes without and fails with the change.
A description sets id, prop, needs, breaks, edits [(file, old, new)...], pkg (of the demonstration), test (Go source);
{LINK} in the test stands for an in-memory data link."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LINK = '''
type memLink struct {
	rx     chan []byte
	tx     chan []byte
	closed chan struct{}
	src    []byte
	answer func(l *memLink, b []byte)
}

func newMemLink(answer func(l *memLink, b []byte)) *memLink {
	return &memLink{rx: make(chan []byte, 1024), tx: make(chan []byte, 1024), closed: make(chan struct{}), src: []byte{10, 0, 0, 2, 0xBA, 0xC0}, answer: answer}
}
func (l *memLink) GetMyAddress() *btypes.Address {
	return &btypes.Address{Mac: []byte{10, 0, 0, 1, 0xBA, 0xC0}, MacLen: 6}
}
func (l *memLink) GetBroadcastAddress() *btypes.Address {
	return &btypes.Address{Mac: []byte{10, 0, 0, 255, 0xBA, 0xC0}, MacLen: 6}
}
func (l *memLink) Send(data []byte, npdu *btypes.NPDU, dest *btypes.Address) (int, error) {
	b := append([]byte{}, data...)
	select {
	case l.tx <- b:
	default:
	}
	if l.answer != nil {
		l.answer(l, b)
	}
	return len(b), nil
}
func (l *memLink) Receive(data []byte) (*btypes.Address, int, error) {
	select {
	case b := <-l.rx:
		return &btypes.Address{Mac: append([]byte{}, l.src...), MacLen: 6}, copy(data, b), nil
	case <-l.closed:
		return nil, 0, errors.New("closed")
	}
}
func (l *memLink) Close() error { close(l.closed); return nil }

// frame is a unicast B/IP frame around an APDU
func frame(apdu ...byte) []byte {
	n := 6 + len(apdu)
	return append([]byte{0x81, 0x0A, byte(n >> 8), byte(n), 1, 0}, apdu...)
}
'''
DEMO = '''#!/bin/bash
# Exit status 0: the behaviour is right; anything else: it is not. Run with cwd = the repository.
set -e
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%(dir)szz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$t/overlay.json"
go test -overlay "$t/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestDemo$' ./%(pkg)s
'''


def sh(cmd, cwd):
    return subprocess.run(". /opt/vp/env.sh; " + cmd, shell=True, cwd=cwd, capture_output=True, text=True)


def plant(s):
    d = tempfile.mkdtemp(prefix="plant")
    repo = d + "/repo"
    try:
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        demo = d + "/demo"
        os.makedirs(demo)
        pkg = s.get("pkg", ".")
        open(demo + "/demo.sh", "w").write(DEMO % dict(dir="" if pkg == "." else pkg + "/", pkg="" if pkg == "." else pkg))
        open(demo + "/demo_test.go", "w").write(s["test"].replace("{LINK}", LINK))
        r = sh("gofmt -l -e " + demo + "/demo_test.go", d)
        if r.stderr:
            return "demo does not parse: " + r.stderr
        r = sh("bash %s/demo.sh" % demo, repo)
        if r.returncode:
            return "demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-1500:]
        for f, a, b in s["edits"]:
            t = open(repo + "/" + f).read()
            if t.count(a) != 1:
                return "%d matches in %s of %r" % (t.count(a), f, a)
            open(repo + "/" + f, "w").write(t.replace(a, b))
        p = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
        r = sh("go build ./btypes/... ./datalink/... ./encoding/... ./helpers/... ./network/... ./tsm/... ./utsm/... .", repo)
        if r.returncode:
            return "does not build: " + r.stdout + r.stderr
        r = sh("go test -json -vet=off -count=1 $(go list ./... | grep -v -e /cmd -e 'bacnet$' -e /network$) > %s/t.jsonl" % d, repo)
        passed = set()
        for l in open(d + "/t.jsonl"):
            e = json.loads(l)
            if e.get("Action") == "pass" and e.get("Test"):
                passed.add(e["Package"] + "/" + e["Test"])
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        miss = [x for x in stable if x not in passed]
        if miss:
            return "tests fail: " + str(miss[:5])
        r = sh("bash %s/demo.sh" % demo, repo)
        if r.returncode == 0:
            return "the demo does not notice"
        if "--- FAIL: TestDemo" not in r.stdout and "panic" not in r.stdout + r.stderr:
            return "the demo fails for another reason: " + (r.stdout + r.stderr)[-800:]
        # lines removed have to be lines of the original repository
        out = V + "/seeded/" + s["id"]
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(demo, out)
        open(out + "/patch.diff", "w").write(p)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
        return None
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    for f in sys.argv[1:]:
        s = {}
        exec(open(f).read(), s)
        e = plant(s)
        print(s["id"], "kept" if e is None else "REFUSED " + e, flush=True)
