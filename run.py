#!/usr/bin/env python3
"""Driver of the runtime monitors: run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--variant V] [--only CASE]

Builds the worker programs from /repo's working tree, runs them, judges how they ended, writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.  Exit 2: inconclusive (could not decide).
"""
import argparse, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")

# build variants run per property; the first one must build, the others are skipped with a note when they do not
DEFAULT_VARIANTS = ["amd64", "386"]
WITH_ARM = DEFAULT_VARIANTS + ["arm", "arm64"]
VARIANTS = {
    "C01": WITH_ARM, "C02": ["amd64", "checkptr", "386", "arm", "arm64"], "C03": WITH_ARM, "C04": WITH_ARM, "C05": WITH_ARM, "C06": WITH_ARM, "C07": WITH_ARM,
    "C08": WITH_ARM, "C09": WITH_ARM, "C25": WITH_ARM,
    "C24": ["race", "amd64"],
    "C26": ["server"],
    "C27": ["server"],
    "C28": ["cpu"],
    "C29": ["families"],
    "C30": ["armsel"],
    "C32": WITH_ARM,
    "C33": ["isa", "arm"],
    "C37": ["server"],
    "C38": ["server"],
    "C34": ["amd64", "386", "server"],
    "C35": WITH_ARM + ["isa"],
}

CPU_LIMIT = 150.0    # CPU seconds inside one case: it does not terminate
WALL_LIMIT = 400.0   # wall seconds inside one case without progress


def log(*a):
    print(*a, flush=True)


def go_env(variant):
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    for k in ("GOFLAGS", "GOARCH", "GOAMD64", "GOOS", "GOEXPERIMENT", "GODEBUG", "GORACE", "GOMAXPROCS", "GOTRACEBACK"):
        env.pop(k, None)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOWORK="off", GOFLAGS="")
    if "/usr/local/go/bin" not in env.get("PATH", ""):
        env["PATH"] = env.get("PATH", "/usr/bin:/bin") + ":/usr/local/go/bin"
    if variant in ("386", "arm"):  # arm: emulated in a 386 process
        env.update(GOARCH="386", CGO_ENABLED="0")
    elif variant == "race":
        env.update(CGO_ENABLED="1")
    else:
        env.update(CGO_ENABLED="0")
    return env


def overlay(work):
    rep = {}
    if not os.path.exists(os.path.join(REPO, "go.mod")):
        gm = os.path.join(work, "repo.go.mod")
        with open(gm, "w") as f:
            f.write("module github.com/samuel/go-dsp\n\ngo 1.17\n")
        rep[os.path.join(REPO, "go.mod")] = gm
    path = os.path.join(work, "overlay.json")
    with open(path, "w") as f:
        json.dump({"Replace": rep}, f)
    return path


# the emulated builds: host architecture, code of the other architecture, emulator source
EMULATED = {"arm": ("386", "arm32.go.txt", "host386.go.txt"), "arm64": ("amd64", "arm64.go.txt", "hostamd64.go.txt")}


def go_files(d, arch):
    """The Go files of a directory that a linux build for arch compiles (build constraints inside the files are left to go)."""
    other = set("386 amd64 arm arm64 loong64 mips mipsle mips64 mips64le ppc64 ppc64le riscv64 s390x wasm".split()) - {arch}
    systems = set("windows darwin freebsd netbsd openbsd plan9 solaris aix android js".split())
    for n in sorted(os.listdir(d)):
        if n.endswith(".go") and not n.endswith("_test.go"):
            w = n[:-3].split("_")[1:]
            if not (w and (w[-1] in other or w[-1] in systems)):
                yield os.path.join(d, n)


def bodyless(d, arch):
    """Functions of package dsp that are written in assembly: name -> ([parameter types], [result types])."""
    out = {}
    for f in go_files(d, arch):
        with open(f, encoding="utf-8", errors="replace") as fh:
            txt = fh.read()
        if re.search(r"^//\s*(go:build|\+build)\s+.*(ignore|gofuzz)", txt, re.M):
            continue
        for m in re.finditer(r"^func (\w+)\(([^(){}]*)\)[ \t]*([^\n{}]*)$", txt, re.M):
            types, pend = [], 0
            for p in [x.strip() for x in m.group(2).split(",") if x.strip()]:
                w = p.split(None, 1)
                pend += 1
                if len(w) == 2:
                    types += [w[1]] * pend
                    pend = 0
            res = re.sub(r"//.*", "", m.group(3)).strip()
            rt = []
            if res.startswith("("):
                for p in [x.strip() for x in res[1:-1].split(",")]:
                    w = p.split(None, 1)
                    rt.append(w[-1])
            elif res:
                rt = [res]
            out[m.group(1)] = (types, rt)
    return out


def assembly(d, arch):
    """The functions a directory defines in assembly."""
    out = set(bodyless(d, arch))
    for n in os.listdir(d):
        if n.endswith(".s"):
            with open(os.path.join(d, n), encoding="utf-8", errors="replace") as f:
                out.update(re.findall(r"^\s*TEXT\s+·?(\w+)(?:<[^>]*>)?\(SB\)", f.read(), re.M))
    return out


def emulated_overlay(variant, work):
    """Builds the program of the other architecture and returns the overlay entries that make package dsp call its functions in
    the emulator, or a message."""
    host, cpu, hostfile = EMULATED[variant]
    dsp = os.path.join(REPO, "dsp")
    fns = bodyless(dsp, variant)
    if not fns:
        return None, "no assembly functions"
    refs, prog = os.path.join(work, "zz_refs.go"), os.path.join(work, "zz_probe.go")
    with open(refs, "w") as f:
        f.write("package dsp\n\nvar ZZRefs = []interface{}{%s}\n" % ", ".join(sorted(fns)))
    with open(prog, "w") as f:
        f.write('package main\n\nimport "github.com/samuel/go-dsp/dsp"\n\nfunc main() { println(len(dsp.ZZRefs)) }\n')
    with open(overlay(work)) as f:
        ov = json.load(f)["Replace"]
    pov = os.path.join(work, "overlay.probe.json")
    with open(pov, "w") as f:
        json.dump({"Replace": {**ov, os.path.join(dsp, "zz_verif_refs.go"): refs, os.path.join(dsp, "zz_verif_probe", "main.go"): prog}}, f)
    env = go_env(host)
    env.update(GOARCH=variant, GOARM="7", CGO_ENABLED="0")
    p = subprocess.run(["go", "build", "-overlay", pov, "-buildvcs=false"] + (["-ldflags=-T 0x10000011000"] if variant == "arm64" else []) +
                       ["-o", os.path.join(work, "probe"), "./dsp/zz_verif_probe"],
                       cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None, p.stdout[-2000:]
    host_fns = bodyless(dsp, host)
    go = ['package dsp', '', 'import "unsafe"', '']
    asm = ['#include "textflag.h"', '']
    sigs = []
    for n, (types, rt) in sorted(host_fns.items()):
        fields = ["p%d %s" % (i, t) for i, t in enumerate(types)] + (["zzEnd [0]uintptr"] if rt else []) + ["r%d %s" % (i, t) for i, t in enumerate(rt)]
        go.append("type zzA_%s struct { %s }" % (n, "; ".join(fields)))
        go.append("func zzE_%s(%s) (%s) {" % (n, ", ".join("p%d %s" % (i, t) for i, t in enumerate(types)), ", ".join("r%d %s" % (i, t) for i, t in enumerate(rt))))
        go.append("\ta := &zzA_%s{%s}" % (n, ", ".join("p%d: p%d" % (i, i) for i in range(len(types)))))
        go.append("\tzzRun(zzSigs[%s], unsafe.Pointer(a))" % json.dumps(n))
        go.append("\treturn %s\n}" % ", ".join("a.r%d" % i for i in range(len(rt))))
        rg = []
        for i, t in enumerate(types):
            if t.startswith("[]") or t.startswith("*"):
                el = t[2:] if t.startswith("[]") else t[1:]
                rg.append("{off: int(unsafe.Offsetof(zzA_%s{}.p%d)), kind: %d, size: func() int { var e %s; return int(unsafe.Sizeof(e)) }()}" % (n, i, 0 if t.startswith("[]") else 1, el))
        sigs.append('\t"%s": {name: "%s", in: int(%s), out: int(unsafe.Sizeof(zzA_%s{})), ranges: []zzRange{%s}},' % (
            n, n, "unsafe.Offsetof(zzA_%s{}.zzEnd)" % n if rt else "unsafe.Sizeof(zzA_%s{})" % n, n, ", ".join(rg)))
        asm.append("TEXT ·%s(SB), NOSPLIT, $0\n\tJMP ·zzE_%s(SB)\n" % (n, n))
    go += ["", "var zzSigs = map[string]*zzSig{"] + sigs + ["}", ""]
    gf, af = os.path.join(work, "zz_gen.go"), os.path.join(work, "zz_gen.s")
    with open(gf, "w", encoding="utf-8") as f:
        f.write("\n".join(go))
    with open(af, "w", encoding="utf-8") as f:
        f.write("\n".join(asm))
    rep = {os.path.join(dsp, "zz_verif_gen.go"): gf, os.path.join(dsp, "zz_verif_%s.s" % host): af}
    for n in os.listdir(dsp):
        if n.endswith("_%s.s" % host):
            rep[os.path.join(dsp, n)] = ""
    for n in ("load.go.txt", cpu, hostfile):
        rep[os.path.join(dsp, "zz_verif_" + n[:-len(".go.txt")] + "_emu.go")] = os.path.join(VERIF, "stubs", "armemu", n)
    return rep, ""


def build(variant, work):
    """Returns (binary or None, message)."""
    out = os.path.join(work, "worker." + variant)
    ovfile = overlay(work)
    if variant in EMULATED:
        rep, msg = emulated_overlay(variant, work)
        if rep is None:
            return None, "the %s program does not build: %s" % (variant, msg)
        with open(ovfile) as f:
            rep.update(json.load(f)["Replace"])
        ovfile = os.path.join(work, "overlay.emu.json")
        with open(ovfile, "w") as f:
            json.dump({"Replace": rep}, f)
    mod = os.path.join(work, "go.mod")
    with open(os.path.join(HARNESS, "go.mod")) as f:
        txt = f.read().replace("=> /repo", "=> " + REPO)
    with open(mod, "w") as f:
        f.write(txt)
    cmd = ["go", "build", "-overlay", ovfile, "-modfile", mod, "-mod=mod", "-buildvcs=false", "-o", out]
    if variant == "race":
        cmd.append("-race")
    elif variant == "checkptr":
        cmd.append("-gcflags=all=-d=checkptr")
    cmd.append(".")
    p = subprocess.run(cmd, cwd=HARNESS, env=go_env(variant), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None, p.stdout[-4000:]
    msg = build_server(work) if variant == "server" else build_probes(work) if variant == "cpu" else build_families(work) if variant == "families" else build_armsel(work) if variant == "armsel" else build_isa(work, mod) if variant == "isa" else ""
    if msg:
        return None, msg
    return out, ""


def build_probes(work):
    """The programs that run dsp/internal/cpu, on this processor ("real") and on scripted ones ("sim"); only real.amd64 is a must."""
    src = os.path.join(VERIF, "stubs", "cpuprobe")
    must = ""
    for arch in ("amd64", "386"):
        for kind in ("real", "sim"):
            with open(overlay(work)) as f:
                ov = json.load(f)
            prog, pkg = os.path.join(REPO, "dsp", "zz_verif_cpuprobe"), os.path.join(REPO, "dsp", "internal", "cpu")
            rep = {os.path.join(prog, "main.go"): "main.go.txt", os.path.join(prog, kind + ".go"): kind + ".go.txt",
                   os.path.join(pkg, "zz_verif.go"): "incpu_%s.go.txt" % kind,
                   os.path.join(pkg, "zz_verif_x86.s" if kind == "real" else "cpu_x86.s"): "real.s.txt" if kind == "real" else "sim_%s.s.txt" % arch}
            ov["Replace"].update({k: os.path.join(src, v) for k, v in rep.items()})
            path = os.path.join(work, "overlay.%s.%s.json" % (kind, arch))
            with open(path, "w") as f:
                json.dump(ov, f)
            p = subprocess.run(["go", "build", "-overlay", path, "-buildvcs=false", "-o", os.path.join(work, "cpuprobe.%s.%s" % (kind, arch)), "./dsp/zz_verif_cpuprobe"],
                               cwd=REPO, env=go_env("386" if arch == "386" else "cpu"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0 and kind == "real" and arch == "amd64":
                must = p.stdout[-4000:]
            elif p.returncode != 0:
                log("note: the %s %s probe does not build: %s" % (kind, arch, p.stdout[-600:]))
    return must


def build_isa(work, mod):
    """The worker with a scripted CPUID, to be stepped through; only the amd64 one is a must."""
    src, must = os.path.join(VERIF, "stubs", "cpuprobe"), ""
    pkg = os.path.join(REPO, "dsp", "internal", "cpu")
    for arch in ("amd64", "386"):
        with open(overlay(work)) as f:
            ov = json.load(f)
        ov["Replace"][os.path.join(pkg, "zz_verif.go")] = os.path.join(src, "incpu_isa.go.txt")
        ov["Replace"][os.path.join(pkg, "cpu_x86.s")] = os.path.join(src, "sim_%s.s.txt" % arch)
        path = os.path.join(work, "overlay.isa.%s.json" % arch)
        with open(path, "w") as f:
            json.dump(ov, f)
        p = subprocess.run(["go", "build", "-overlay", path, "-modfile", mod, "-mod=mod", "-buildvcs=false", "-o", os.path.join(work, "isachild." + arch), "."],
                           cwd=HARNESS, env=go_env("386" if arch == "386" else "isa"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 and arch == "amd64":
            must = p.stdout[-4000:]
        elif p.returncode != 0:
            log("note: the %s program does not build: %s" % (arch, p.stdout[-600:]))
    return must


FAMILIES = ["linux/arm", "linux/arm64", "android/arm64", "freebsd/arm64", "darwin/arm64", "openbsd/arm64", "linux/ppc64le", "linux/ppc64", "aix/ppc64",
            "linux/s390x", "linux/mips64le", "linux/mips64", "linux/riscv64", "linux/mips", "linux/mipsle", "js/wasm"]
# what the detection code reads through assembly: function -> 64-bit words of its result
WORDS = {"stfle": 4, "kmQuery": 2, "kmcQuery": 2, "kmctrQuery": 2, "kmaQuery": 2, "kimdQuery": 2, "klmdQuery": 2, "kdsaQuery": 2,
         "getisar0": 1, "getMIDR": 1, "getsystemcfg": 1}


def family_package(t, work):
    """Makes the detection code of a target a package for this processor, in the module of the probe; returns a message if it cannot."""
    pkg = os.path.join(REPO, "dsp", "internal", "cpu")
    env = go_env("cpu")
    env.update(GOOS=t.split("/")[0], GOARCH=t.split("/")[1], GO111MODULE="off")
    p = subprocess.run(["go", "list", "-e", "-f", "{{range .GoFiles}}{{.}} {{end}}", "."], cwd=pkg, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0 or not p.stdout.split():
        return p.stderr or "no files"
    alias = "zz_" + t.replace("/", "_")
    w = os.path.join(work, "families.src", alias)
    os.makedirs(w, exist_ok=True)
    txt = ""
    for k, n in enumerate(p.stdout.split()):
        with open(os.path.join(pkg, n), encoding="utf-8", errors="replace") as f:
            s = f.read()
        s = re.sub(r"^//[ \t]*(go:build|\+build)\b.*$", "//", s, flags=re.M)
        txt += s
        with open(os.path.join(w, "zz%d.go" % k), "w", encoding="utf-8") as f:
            f.write(s)
    fns = [m.group(1) for m in re.finditer(r"^func (\w+)\([^(){}]*\)[^{}\n]*$", txt, re.M)]
    go, asm = ["package cpu", "", "var VerifWords [64]uint64", "", "var VerifUse [16]uint64", ""], ['#include "textflag.h"', ""]
    words, use, sysctl, off = [], [], "nil", 0
    for k, n in enumerate(fns):
        if n == "getsysctlbyname":
            go += ["var VerifSysctl func([]byte) (int32, int32)", "", "func zzSysctl(name []byte) (int32, int32) { return VerifSysctl(name) }", ""]
            asm += ["TEXT ·%s(SB), NOSPLIT, $0" % n, "\tJMP ·zzSysctl(SB)", ""]
            sysctl = "&%s.VerifSysctl" % alias
            continue
        if n not in WORDS:
            return "nothing is known of %s" % n
        asm += ["TEXT ·%s(SB), NOSPLIT, $0" % n, "\tINCQ ·VerifUse+%d(SB)" % (8 * k)]
        ret = 0
        if n == "getsystemcfg":
            ret = 8
            asm += ["\tMOVQ $-1, AX", "\tMOVQ $2, CX", "\tCMPQ CX, label+0(FP)", "\tJNE 2(PC)", "\tMOVQ ·VerifWords+%d(SB), AX" % (8 * off), "\tMOVQ AX, ret+8(FP)"]
        else:
            for i in range(WORDS[n]):
                asm += ["\tMOVQ ·VerifWords+%d(SB), AX" % (8 * (off + i)), "\tMOVQ AX, r%d+%d(FP)" % (i, 8 * i)]
        asm += ["\tRET", ""]
        words.append('"%s": {%s}' % (n, ", ".join("&%s.VerifWords[%d]" % (alias, off + i) for i in range(WORDS[n]))))
        use.append('"%s": &%s.VerifUse[%d]' % (n, alias, k))
        off += WORDS[n]
    for n, lines in (("zz_verif.go", go), ("zz_verif_amd64.s", asm)):
        with open(os.path.join(w, n), "w", encoding="utf-8") as f:
            f.write("\n".join(lines) + "\n")
    hw = ["&%s.%s" % (alias, v) if re.search(r"\b%s\s+uint\b" % v, txt) else "nil" for v in ("HWCap", "HWCap2")]
    vs = ['"%s": &%s.%s' % (v, alias, v) for v in ("X86", "ARM", "ARM64", "MIPS64X", "PPC64", "S390X") if re.search(r"^var %s\b" % v, txt, re.M)]
    reg = ('package main\n\nimport %s "families/%s"\n\nfunc init() {\n'
           '\ttargets["%s"] = &target{vars: map[string]interface{}{%s}, hw: [2]*uint{%s}, init: %s.Initialize, name: %s.Name,\n'
           '\t\twords: map[string][]*uint64{%s}, use: map[string]*uint64{%s}, sysctl: %s}\n}\n') % (
        alias, alias, t, ", ".join(vs), ", ".join(hw), alias, alias, ", ".join(words), ", ".join(use), sysctl)
    with open(os.path.join(w, "register.go.txt"), "w", encoding="utf-8") as f:
        f.write(reg)
    return ""


def build_families(work):
    """The program that runs the detection code of the other processor families; families that cannot be built are left out."""
    src = os.path.join(work, "families.src")
    os.makedirs(src, exist_ok=True)
    with open(os.path.join(src, "go.mod"), "w") as f:
        f.write("module families\n\ngo 1.17\n")
    shutil.copy(os.path.join(VERIF, "stubs", "cpuprobe", "families.go.txt"), os.path.join(src, "main.go"))
    ready = []
    for t in FAMILIES:
        msg = family_package(t, work)
        if msg:
            log("note: %s is left out: %s" % (t, msg[-600:]))
        else:
            ready.append(t)

    def go(which):
        for t in FAMILIES:
            alias = "zz_" + t.replace("/", "_")
            reg = os.path.join(src, alias + "_register.go")  # a name that no build constraint hides
            if t in which:
                shutil.copy(os.path.join(src, alias, "register.go.txt"), reg)
            elif os.path.exists(reg):
                os.remove(reg)
        p = subprocess.run(["go", "build", "-buildvcs=false", "-o", os.path.join(work, "families"), "."],
                           cwd=src, env=go_env("cpu"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode == 0, p.stdout

    ok, msg = go(ready)
    if ok:
        return ""
    good = []
    for t in ready:
        ok, m = go([t])
        if ok:
            good.append(t)
        else:
            log("note: %s is left out, it does not build: %s" % (t, m[-600:]))
    return "" if good and go(good)[0] else msg


def machine_code(arch, work):
    """Lists the machine code of the detection package's assembly functions; an empty file where that cannot be had."""
    out = os.path.join(work, arch + ".objdump")
    tmp = os.path.join(work, arch + ".obj")
    os.makedirs(tmp, exist_ok=True)
    env = dict(go_env("cpu"), GOOS="linux", GOARCH=arch)

    def sh(cmd, cwd):
        return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    with open(out, "w") as f:
        pkg = os.path.join(tmp, "pkg.a")
        p = sh(["go", "build", "-overlay", overlay(work), "-buildvcs=false", "-o", pkg, "./dsp/internal/cpu"], REPO)
        if p.returncode == 0:
            p = sh(["go", "tool", "pack", "x", pkg], tmp)
        if p.returncode != 0:
            log("note: the machine code for %s is left out: %s" % (arch, p.stdout[-600:]))
            return out
        for n in sorted(os.listdir(tmp)):
            if n.endswith(".o") and n != "_go_.o":
                p = sh(["go", "tool", "objdump", n], tmp)
                if p.returncode == 0:
                    f.write(p.stdout)
    return out


def build_armsel(work):
    """The start-up code of package dsp on 32-bit ARM as a program for this processor that reads its own cpuinfo."""
    d = os.path.join(REPO, "dsp")
    src = os.path.join(work, "armsel.src")
    os.makedirs(os.path.join(src, "dsp"), exist_ok=True)
    with open(os.path.join(src, "go.mod"), "w") as f:
        f.write("module armsel\n\ngo 1.17\n")
    hits = 0
    with open(os.path.join(src, "dsp", "zz_stubs.s"), "w", encoding="utf-8") as f:  # the vector functions are not called
        f.write('#include "textflag.h"\n\n' + "".join("TEXT ·%s(SB), NOSPLIT, $0\n\tRET\n\n" % n for n in sorted(bodyless(d, "arm"))))
    for k, n in enumerate(go_files(d, "arm")):
        with open(n, encoding="utf-8", errors="replace") as f:
            s = f.read()
        if re.search(r"^//\s*(go:build|\+build)\s+.*(ignore|gofuzz|!arm\b)", s, re.M):
            continue
        s = re.sub(r"^//[ \t]*(go:build|\+build)\b.*$", "//", s, flags=re.M)
        hits += s.count('"/proc/cpuinfo"')
        s = s.replace('"/proc/cpuinfo"', json.dumps(os.path.join(work, "cpuinfo")))
        with open(os.path.join(src, "dsp", "zz%d.go" % k), "w", encoding="utf-8") as f:
            f.write(s)
    if not hits:
        return "the place of /proc/cpuinfo is not found"
    with open(os.path.join(src, "main.go"), "w") as f:
        f.write('package main\n\nimport "armsel/dsp"\n\nfunc main() { println(dsp.HaveNEON, dsp.UseVector) }\n')
    p = subprocess.run(["go", "build", "-buildvcs=false", "-o", os.path.join(work, "armsel"), "."],
                       cwd=src, env=go_env("cpu"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.stdout[-4000:] if p.returncode != 0 else ""


def build_server(work):
    """The real boripserver, with the race detector, against the scripted receivers of stubs/go-rtlsdr."""
    mod = os.path.join(work, "server.go.mod")
    with open(mod, "w") as f:
        f.write("module github.com/samuel/go-dsp\n\ngo 1.17\n\nrequire github.com/samuel/go-rtlsdr v0.0.0\n\n"
                "replace github.com/samuel/go-rtlsdr => %s\n" % os.path.join(VERIF, "stubs", "go-rtlsdr"))
    cmd = ["go", "build", "-race", "-overlay", overlay(work), "-modfile", mod, "-mod=mod", "-buildvcs=false", "-o", os.path.join(work, "boripserver"), "./boripserver"]
    p = subprocess.run(cmd, cwd=REPO, env=go_env("race"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.stdout[-4000:] if p.returncode != 0 else ""


def own_network():
    """Command prefix that gives the worker a network of its own (the server's port is fixed), or nothing where that is not allowed."""
    try:
        p = subprocess.run(["unshare", "-Urn", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20)
        return ["unshare", "-Urn"] if p.returncode == 0 else []
    except (OSError, subprocess.TimeoutExpired):
        return []


def cpu_of(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            t = f.read()
        a = t[t.rindex(")") + 2:].split()
        return (int(a[11]) + int(a[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, ValueError):
        return 0.0


def read_progress(path):
    try:
        with open(path, "rb") as f:
            b = f.read(4096)
    except OSError:
        return 0, False, ""
    if len(b) < 9:
        return 0, False, ""
    seq, inflight = struct.unpack("<II", b[:8])
    s = b[8:].split(b"\0", 1)[0].decode("utf-8", "replace")
    return seq, inflight != 0, s


class Outcome:
    def __init__(self):
        self.result = None
        self.violations = []
        self.inconclusive = []


def run_variant(prop, variant, binary, args, work, oc):
    tag = variant
    prog = os.path.join(work, "progress." + tag)
    out = os.path.join(work, "result." + tag + ".json")
    err = os.path.join(work, "stderr." + tag)
    cmd = [binary, "-prop", prop, "-variant", variant, "-tier", args.tier, "-seed", str(args.seed), "-out", out, "-progress", prog]
    if args.only:
        cmd += ["-only", args.only]
    env = go_env(variant)
    env["GOTRACEBACK"] = "all" if variant == "race" else "single"
    racelog = os.path.join(work, "race." + tag)
    if variant == "race":
        env["GORACE"] = "halt_on_error=0 exitcode=0 history_size=3 log_path=" + racelog
    env["VERIF_SCRATCH"] = work
    if variant == "server":
        env["VERIF_SERVER"] = os.path.join(work, "boripserver")
        cmd = own_network() + cmd
    if variant in EMULATED:
        env["VERIF_ARM_PROBE"] = os.path.join(work, "probe")
    if variant == "armsel":
        env["VERIF_ARMSEL"] = os.path.join(work, "armsel")
        env["VERIF_CPUINFO"] = os.path.join(work, "cpuinfo")
    if variant == "families":
        env["VERIF_FAMILIES"] = os.path.join(work, "families")
        for arch in ("s390x", "arm64"):
            env["VERIF_" + arch.upper()] = machine_code(arch, work)
    if variant == "isa":
        for arch in ("amd64", "386"):
            child = os.path.join(work, "isachild." + arch)
            if os.path.exists(child):
                env["VERIF_ISA_" + arch.upper()] = child
                env["VERIF_ISA_ASM_" + arch.upper()] = " ".join(sorted(assembly(os.path.join(REPO, "dsp"), arch)))
    if variant == "cpu":
        for kind in ("real", "sim"):
            for arch in ("amd64", "386"):
                probe = os.path.join(work, "cpuprobe.%s.%s" % (kind, arch))
                if os.path.exists(probe):
                    env["VERIF_CPU_%s_%s" % (kind.upper(), arch.upper())] = probe
    with open(err, "wb") as ef:
        p = subprocess.Popen(cmd, cwd=work, env=env, stdout=ef, stderr=ef, start_new_session=True)
    last, last_cpu, last_wall = None, 0.0, time.monotonic()
    hang = None
    while True:
        try:
            rc = p.wait(timeout=1.0)
            break
        except subprocess.TimeoutExpired:
            pass
        seq, inflight, case = read_progress(prog)
        cpu = cpu_of(p.pid)
        now = time.monotonic()
        if seq != last or not inflight:
            last, last_cpu, last_wall = seq, cpu, now
            continue
        if cpu - last_cpu > CPU_LIMIT:
            hang = "case did not terminate within %d CPU seconds" % CPU_LIMIT
        elif now - last_wall > WALL_LIMIT:
            hang = "wall"
        if hang:
            try:
                os.killpg(p.pid, signal.SIGQUIT)
                try:
                    p.wait(timeout=5)
                except subprocess.TimeoutExpired:
                    pass
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            rc = p.wait()
            break
    seq, inflight, case = read_progress(prog)
    try:
        with open(err, errors="replace") as f:
            errtxt = f.read()
    except OSError:
        errtxt = ""
    if hang and hang != "wall":
        oc.violations.append(dict(key="hang:" + case.split(" ")[0].split("/")[0], case=case, detail=hang + "\n" + errtxt[-3000:], variant=variant))
    elif hang:
        oc.inconclusive.append("%s: no progress in case %r for %d s of wall time" % (variant, case, WALL_LIMIT))
    elif rc != 0:
        if rc == 3:
            oc.inconclusive.append("%s: harness error: %s" % (variant, errtxt[-1500:]))
        elif rc == -signal.SIGKILL:
            oc.inconclusive.append("%s: killed (memory?) in case %r" % (variant, case))
        elif inflight and "harness:" not in errtxt[:2000]:
            first = next((l for l in errtxt.splitlines() if l.strip()), "")
            oc.violations.append(dict(key="crash:" + case.split(" ")[0].split("/")[0], case=case, variant=variant,
                                      detail="worker died (status %d): %s\n%s" % (rc, first, errtxt[:3000])))
        else:
            oc.inconclusive.append("%s: worker ended with status %d outside a case: %s" % (variant, rc, errtxt[-1500:]))
    if rc == 0 and not hang:
        try:
            with open(out) as f:
                oc.result = json.load(f)
            for v in oc.result["violations"]:
                v["variant"] = variant
                oc.violations.append(v)
        except (OSError, ValueError) as e:
            oc.inconclusive.append("%s: no result: %s" % (variant, e))
    if variant in ("race", "server"):
        reports = []
        for f in sorted(os.listdir(work)):
            if f.startswith(os.path.basename(racelog)):
                with open(os.path.join(work, f), errors="replace") as fh:
                    reports += re.findall(r"WARNING: DATA RACE.*?={10,}", fh.read(), re.S)
        own = [r for r in reports if "go-dsp/" in r or "/boripserver/" in r]
        for r in own[:5]:
            fn = re.findall(r"^\s+(\S*go-dsp/\S+|main\.\S+)\(", r, re.M)
            oc.violations.append(dict(key="race:" + (fn[0] if fn else "?"), case="race report", variant=variant, detail=r[:3500]))
        if reports and not own:
            oc.inconclusive.append("race: %d reports that involve only the harness: %s" % (len(reports), reports[0][:1500]))
        if oc.result is not None:
            oc.result["race_reports"] = len(reports)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--only", default="")
    ap.add_argument("--variant", default="")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    prop = args.prop
    t0 = time.monotonic()
    variants = [args.variant] if args.variant else VARIANTS.get(prop, DEFAULT_VARIANTS)
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + ".", dir=BUILD)
    code = 2
    try:
        code = decide(prop, variants, args, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(prop, variants, args, work, t0):
    built, notes, inconclusive = {}, [], []
    lock = threading.Lock()

    def bld(v):
        d = os.path.join(work, v)
        os.makedirs(d, exist_ok=True)
        b, msg = build(v, d)
        with lock:
            built[v] = (b, msg)

    for v in variants:  # one after the other: each build is parallel itself and shares the cache
        bld(v)
    if built[variants[0]][0] is None:
        log("INCONCLUSIVE property=%s: the %s worker does not build:\n%s" % (prop, variants[0], built[variants[0]][1]))
        return 2
    run_v = []
    for v in variants:
        if built[v][0] is None:
            notes.append("variant %s not run, it does not build: %s" % (v, built[v][1][-300:]))
        else:
            run_v.append(v)
    ocs = {v: Outcome() for v in run_v}
    ths = []
    for v in run_v:
        th = threading.Thread(target=run_variant, args=(prop, v, built[v][0], args, os.path.join(work, v), ocs[v]))
        th.start()
        ths.append(th)
    for th in ths:
        th.join()

    violations = []
    for v in run_v:
        violations += ocs[v].violations
        inconclusive += ocs[v].inconclusive
    # digests of the same case list must agree between builds
    digs = {v: dict(x.rsplit(" ", 1) for x in (ocs[v].result or {}).get("digests") or []) for v in run_v}
    compared = 0
    base = run_v[0]
    for v in run_v[1:]:
        if v in EMULATED:
            continue        # arithmetic on these targets may differ in the last place; they are judged against the reference only
        for k, d in digs[v].items():
            if k in digs[base]:
                compared += 1
                if digs[base][k] != d:
                    violations.append(dict(key="build-digest:" + k, case=k, variant=v,
                                           detail="outputs of the same case list differ between the %s and the %s build (%s vs %s)" % (base, v, digs[base][k], d)))

    evals = sum((ocs[v].result or {}).get("evals", 0) for v in run_v)
    distinct = max([(ocs[v].result or {}).get("distinct", 0) for v in run_v] + [0])
    if evals == 0 and not violations and not inconclusive:
        inconclusive.append("nothing was observed")

    # known findings
    known = []
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            known = [k for k in json.load(f).get("findings", []) if k.get("property") == prop]
    except OSError:
        pass
    fresh, seen_known = [], {}
    for v in violations:
        m = next((k for k in known if k["key"] == v["key"] and k.get("match", "") in (v["case"] + " " + v["detail"])), None)
        if m:
            seen_known[m["what"]] = m
        else:
            fresh.append(v)
    for w in seen_known:
        log("KNOWN-FINDING: property=%s %s" % (prop, w))

    rule = next((ocs[v].result["rule"] for v in run_v if ocs[v].result), "")
    samples = next((ocs[v].result["samples"] for v in run_v if ocs[v].result and ocs[v].result["samples"]), [])
    ev = {
        "property": prop, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct, "rule": rule, "samples": samples,
            "per_build": {v: {"evaluations": (ocs[v].result or {}).get("evals", 0), "distinct_nontrivial": (ocs[v].result or {}).get("distinct", 0),
                              "observed": (ocs[v].result or {}).get("counters", {}), "notes": (ocs[v].result or {}).get("notes", []),
                              "wall_s": (ocs[v].result or {}).get("wall_s"),
                              **({"race_reports": ocs[v].result.get("race_reports")} if v in ("race", "server") and ocs[v].result else {})} for v in run_v},
            "cross_build_digests_compared": compared,
            "notes": notes + inconclusive,
        },
        "assumptions": ["held on the executions listed, nothing is claimed about paths the workload does not drive"],
        "wall_s": round(time.monotonic() - t0, 2), "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    if fresh:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        shown = {}
        for v in fresh:
            if v["key"] in shown:
                continue
            shown[v["key"]] = True
            path = os.path.join(rdir, "%s-%d.json" % (prop, len(shown)))
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": args.seed, "tier": args.tier, **v,
                           "replay_cmd": "cd /verif && python3 run.py %s --tier %s --seed %d --variant %s --only %s" % (
                               prop, args.tier, args.seed, v["variant"], json.dumps(v["case"]))}, f, indent=1)
            log("VIOLATION property=%s replay=%s" % (prop, path))
            log("  [%s] %s\n  case: %s\n  %s" % (v["variant"], v["key"], v["case"], v["detail"][:1200]))
            if len(shown) >= 8:
                break
        return 1
    for n in notes:
        log("note:", n)
    if inconclusive:
        log("INCONCLUSIVE property=%s: %s" % (prop, "; ".join(inconclusive)))
        return 2
    log("OK property=%s evaluations=%d distinct=%d builds=%s wall=%.1fs" % (prop, evals, distinct, ",".join(run_v), time.monotonic() - t0))
    return 0


if __name__ == "__main__":
    main()
