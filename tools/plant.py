#!/usr/bin/env python3
"""Plant a bug: make the patch in a scratch copy of /repo, confirm that it builds, passes the
existing tests and is shown by its demonstration, and write /verif/seeded/<id>/.

plant.py SPEC.py [id ...]   SPEC.py defines BUGS, a list of dicts:
  id, prop, needs, breaks, edits=[(file, old, new)], pkg, test (Go source with TestDemo)
  or demo (a shell script) and files={name: text}
"""
import json, os, re, shutil, subprocess, sys, tempfile

BASE = "3b69134"
SEEDED = "/verif/seeded"
DEMO = '''#!/bin/bash
# Exits 0 if the behaviour is right, nonzero if it is broken. Run with cwd /repo.
D=$(dirname "$(readlink -f "$0")")
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d) || exit 3
trap 'rm -rf -- "$T"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD/{pkg}" "$D" >"$T/overlay.json"
go test {flags}-overlay "$T/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestDemo$' ./{pkg}
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, capture_output=True, text=True, **kw)


def plant(b):
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        w = d + "/repo"
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        for f, old, new in b["edits"]:
            s = open(f"{w}/{f}").read()
            if s.count(old) != 1:
                return f"{f}: old text found {s.count(old)} times"
            open(f"{w}/{f}", "w").write(s.replace(old, new))
        r = sh("gofmt -l . | grep -v _test.go", w)
        diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
        removed, f, warn = [], None, []
        for l in diff.splitlines():
            if l.startswith("+++ "):
                f = l[6:]
            elif l.startswith("-") and not l.startswith("---") and l[1:].strip():
                removed.append((f, l[1:]))
        n_orig = 0
        for f, l in removed:
            orig = subprocess.run(["git", "show", f"{BASE}:{f}"], cwd=w, capture_output=True, text=True).stdout
            if l in orig.splitlines():
                n_orig += 1
            else:
                warn.append(f"not original: {f}: {l.strip()}")
        if n_orig == 0:
            return "no original line changed " + str(warn)
        r = sh("go build ./... && go vet ./... 2>&1 | tail -3; go test ./... 2>&1", w)
        if "FAIL" in r.stdout or "FAIL" in r.stderr or r.returncode:
            return "tests fail:\n" + r.stdout[-1500:] + r.stderr[-1500:]
        out = f"{SEEDED}/{b['id']}"
        os.makedirs(out, exist_ok=True)
        for n in os.listdir(out):
            os.remove(f"{out}/{n}")
        open(out + "/patch.diff", "w").write(diff)
        if "test" in b:
            open(out + "/demo_test.go", "w").write(b["test"].lstrip())
            open(out + "/demo.sh", "w").write(DEMO.replace("{pkg}", b["pkg"]).replace("{flags}", b.get("flags", "")))
        else:
            open(out + "/demo.sh", "w").write(b["demo"].lstrip())
            for n, t in b.get("files", {}).items():
                open(f"{out}/{n}", "w").write(t.lstrip())
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        elsewhere = d + "/demo"
        shutil.copytree(out, elsewhere)
        bad = sh(f"bash {elsewhere}/demo.sh", w)
        if bad.returncode == 0:
            shutil.rmtree(out)
            return "demo passes with the patch\n" + bad.stdout[-800:]
        if "build failed" in bad.stdout + bad.stderr or "setup failed" in bad.stdout:
            shutil.rmtree(out)
            return "demo does not compile\n" + bad.stdout[-1500:] + bad.stderr[-800:]
        sh("git checkout -- .", w)
        ok = sh(f"bash {elsewhere}/demo.sh", w)
        if ok.returncode != 0:
            shutil.rmtree(out)
            return "demo fails without the patch\n" + ok.stdout[-1500:] + ok.stderr[-800:]
        if sh("git status --short", w).stdout.strip():
            return "demo leaves files: " + sh("git status --short", w).stdout
        return "ok" + (" (" + "; ".join(warn) + ")" if warn else "")
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for b in ns["BUGS"]:
        if sys.argv[2:] and b["id"] not in sys.argv[2:]:
            continue
        print(b["id"], plant(b), flush=True)
