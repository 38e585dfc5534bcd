#!/usr/bin/env python3
"""plantbug.py SPEC.py [ID...]: turns bug descriptions into seeded/<id>/ after confirming each in a scratch copy of /repo.

SPEC.py defines BUGS, a list of dicts: id, property, needs, what, edits=[(file, old, new)], demo (Go source of main.go),
optional inpkg={"dsp": source}, arch ("386").  A bug is kept only if the patched copy builds, keeps the 30 stable tests and
its demonstration exits 0 on the unchanged tree and nonzero on the patched one."""
import json, os, subprocess, sys, shutil, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
want = sys.argv[2:]
DEMO = '''#!/bin/bash
# Builds main.go, beside this file, against the repository in the current directory and runs it:
# exit 0 when the repository behaves as it should, nonzero when it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd -P)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
mkdir "$t/prog"
cp "$here/main.go" "$t/prog/"
printf 'module demo\\n\\ngo 1.17\\n\\nrequire github.com/samuel/go-dsp v0.0.0\\n\\nreplace github.com/samuel/go-dsp => %s\\n' "$repo" > "$t/prog/go.mod"
printf 'module github.com/samuel/go-dsp\\n\\ngo 1.17\\n' > "$t/repo.mod"
rep=""
[ -e "$repo/go.mod" ] || rep="\\"$repo/go.mod\\": \\"$t/repo.mod\\""
if [ -e "$here/inpkg_dsp.go" ]; then
	[ -z "$rep" ] || rep="$rep, "
	rep="$rep\\"$repo/dsp/zz_demo_inpkg.go\\": \\"$here/inpkg_dsp.go\\""
fi
@OV@printf '{"Replace": {%s}}' "$rep" > "$t/overlay.json"
export PATH="$PATH:/usr/local/go/bin" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on GOWORK=off
export HOME="${HOME:-/root}" @ENV@
(cd "$t/prog" && go build @FLAGS@ -buildvcs=false -overlay "$t/overlay.json" -o "$t/demo" .) || exit 9
timeout 120 "$t/demo"
rc=$?
exit $rc
'''
SERVERDEMO = '''#!/bin/bash
# Builds the repository's boripserver against the scripted receivers of rtl.go and runs main.go (with ctl.go) against it:
# exit 0 when the server behaves as it should, nonzero when it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd -P)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
mkdir "$t/prog" "$t/lib" "$t/lib/rtl"
cp "$here/main.go" "$here/ctl.go" "$t/prog/"
cp "$here/rtl.go" "$t/lib/rtl/"
printf 'module github.com/samuel/go-rtlsdr\\n\\ngo 1.17\\n' > "$t/lib/go.mod"
printf 'module demo\\n\\ngo 1.17\\n' > "$t/prog/go.mod"
printf 'module github.com/samuel/go-dsp\\n\\ngo 1.17\\n\\nrequire github.com/samuel/go-rtlsdr v0.0.0\\n\\nreplace github.com/samuel/go-rtlsdr => %s\\n' "$t/lib" > "$t/repo.mod"
rep=""
[ -e "$repo/go.mod" ] || rep="\\"$repo/go.mod\\": \\"$t/repo.mod\\""
printf '{"Replace": {%s}}' "$rep" > "$t/overlay.json"
export PATH="$PATH:/usr/local/go/bin" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on GOWORK=off
export HOME="${HOME:-/root}" CGO_ENABLED=0
(cd "$t/prog" && go build -buildvcs=false -o "$t/demo" .) || exit 9
(cd "$repo" && go build -buildvcs=false -overlay "$t/overlay.json" -modfile "$t/repo.mod" -o "$t/server" ./boripserver) || exit 9
own=""
unshare -Urn true 2>/dev/null && own="unshare -Urn" # the server's port is fixed
timeout 200 $own "$t/demo" "$t/server"
rc=$?
exit $rc
'''
def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def tests(wt):
    # the stable tests, on the copy
    env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GO111MODULE="on", GOWORK="off")
    with tempfile.TemporaryDirectory() as d:
        open(d + "/m", "w").write("module github.com/samuel/go-dsp\n\ngo 1.17\n")
        json.dump({"Replace": {wt + "/go.mod": d + "/m"}}, open(d + "/o.json", "w"))
        p = sh(["go", "build", "-overlay", d + "/o.json", "./dsp/...", "./borip/..."], wt, env=env)
        if p.returncode:
            return "build: " + p.stdout[-1500:]
        p = sh(["go", "test", "-json", "-vet=off", "-count=1", "-overlay", d + "/o.json", "./dsp/...", "./borip/..."], wt, env=env)
        ok = set()
        for l in p.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get("Action") == "pass" and e.get("Test"):
                ok.add(e["Package"] + "/" + e["Test"])
        miss = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]
        return "tests: " + " ".join(miss) if miss else ""
for b in spec["BUGS"]:
    if want and b["id"] not in want: continue
    out = os.path.join(VERIF, "seeded", b["id"])
    tmp = tempfile.mkdtemp(prefix="plant.")
    wt = os.path.join(tmp, "repo")
    try:
        sh(["git", "clone", "-q", "/repo", wt])
        bad = ""
        for f, old, new in b["edits"]:
            p = os.path.join(wt, f); s = open(p).read()
            if s.count(old) != 1:
                bad = "edit matches %d times in %s: %r" % (s.count(old), f, old[:60]); break
            open(p, "w").write(s.replace(old, new))
        if bad: print("REJECT", b["id"], bad); continue
        if all(f.endswith(".go") for f, _, _ in b["edits"]):
            sh(["gofmt", "-w"] + [e[0] for e in b["edits"]], wt)
        diff = subprocess.run(["git", "diff"], cwd=wt, stdout=subprocess.PIPE, text=True).stdout
        bad = tests(wt)
        if bad: print("REJECT", b["id"], bad); continue
        d = os.path.join(tmp, "demo"); os.mkdir(d)
        open(d + "/main.go", "w").write(b["demo"].lstrip())
        if b.get("inpkg"): open(d + "/inpkg_dsp.go", "w").write(b["inpkg"].lstrip())
        for k, v in b.get("files", {}).items(): open(d + "/" + k, "w").write(v)
        env = "CGO_ENABLED=0"
        if b.get("arch"): env += " GOARCH=" + b["arch"]
        flags = ""
        if b.get("cgo"): env = "CGO_ENABLED=1"
        if b.get("race"): env = "CGO_ENABLED=1"; flags = "-race"
        if b.get("server"):
            shutil.copy(VERIF + "/tools/serverdemo/ctl.go", d)
            shutil.copy(VERIF + "/stubs/go-rtlsdr/rtl/rtl.go", d)
            DEM = SERVERDEMO
        else: DEM = DEMO
        open(d + "/demo.sh", "w").write(DEM.replace("@ENV@", env).replace("@FLAGS@", flags).replace("@OV@", "".join('rep="$rep${rep:+, }\\"$repo/%s\\": \\"$here/%s\\""\n' % kv for kv in b.get("ov", {}).items())).replace("  -build", " -build"))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
        p = sh([d + "/demo.sh"], wt)
        if p.returncode in (0, 9): print("REJECT", b["id"], "demo does not fail on patch", p.returncode, p.stdout[-1500:]); continue
        why = p.stdout.strip().splitlines()[:1]
        sh(["git", "checkout", "--", "."], wt)
        p = sh([d + "/demo.sh"], wt)
        if p.returncode != 0: print("REJECT", b["id"], "demo fails on clean", p.returncode, p.stdout[-1500:]); continue
        open(d + "/patch.diff", "w").write(diff)
        p = sh(["git", "apply", "--check", d + "/patch.diff"], wt)
        if p.returncode: print("REJECT", b["id"], p.stdout); continue
        if os.path.exists(out): shutil.rmtree(out)
        shutil.copytree(d, out)
        print("KEPT", b["id"], why)
    finally:
        shutil.rmtree(tmp)
