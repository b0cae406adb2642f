#!/usr/bin/env python3
"""Write and validate /verif/seeded/<id>/ from tools/seeds/bugs.py.
usage: mkseeds.py [id...]    (never run by a check)"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []
def bug(id, prop, edits, needs, breaks, demo, race=False):
    BUGS.append((id, prop, edits, needs, breaks, demo, race))
for b in sorted(os.listdir(V + "/tools/seeds")):
    if b.startswith("bugs") and b.endswith(".py"):
        exec(open(V + "/tools/seeds/" + b).read())
NS = ["unshare", "-Urnpf", "--kill-child", "sh", "-c", "ip link set lo up; exec \"$@\"", "sh"]
env = dict(os.environ, GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off",
           PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
def sh(cmd, cwd, timeout=300):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def tests(repo):
    rc, o = sh(NS + ["go", "test", "-vet=off", "-count=1", "-timeout", "100s", "./frame/...", "./server/...", "./internal/...", "./testutil/..."], repo)
    return rc == 0, o
for id, prop, edits, needs, breaks, demo, race in BUGS:
    if len(sys.argv) > 1 and id not in sys.argv[1:]: continue
    d = V + "/seeded/" + id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        shutil.copytree("/repo", w + "/r"); r = w + "/r"
        base = {}
        for f, old, new in edits:
            s = open(r + "/" + f).read()
            if s.count(old) != 1: sys.exit("%s: %d occurrences in %s of:\n%s" % (id, s.count(old), f, old))
            open(r + "/" + f, "w").write(s.replace(old, new))
        rc, patch = sh(["git", "diff"], r)
        open(d + "/patch.diff", "w").write(patch)
        # removed lines have to be original ones
        orig = {f: subprocess.run(["git", "show", "b705a08:" + f], cwd=r, capture_output=True, text=True).stdout.splitlines() for f, _, _ in edits}
        rem = [l[1:] for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
        alien = [l for l in rem if l.strip() and not any(l in o for o in orig.values())]
        shutil.copy(V + "/tools/seeds/helper_test.go", d + "/helper_test.go")
        imports = [i for i in ["context", "errors", "fmt", "io", "net", "runtime", "strconv", "strings", "sync", "sync/atomic", "bytes", "testing", "time"] if re.search(r"\b%s\." % i.split("/")[-1], demo)]
        mods = [m for m in ["github.com/go-stomp/stomp/v3", "github.com/go-stomp/stomp/v3/frame", "github.com/go-stomp/stomp/v3/server"]
                if re.search(r"\b%s\." % {"v3": "stomp"}.get(m.split("/")[-1], m.split("/")[-1]), demo)]
        src = "package stomp_test\n\nimport (\n" + "".join('\t"%s"\n' % i for i in imports) + "\n" + "".join('\t"%s"\n' % m for m in mods) + ")\n\n" + demo.strip() + "\n"
        open(d + "/demo_test.go", "w").write(src)
        sh(["gofmt", "-w", d + "/demo_test.go"], d)
        open(d + "/demo.sh", "w").write(open(V + "/tools/seeds/demo.sh").read().replace(" FLAGS", " -race" if race else ""))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        rc, o = sh(["go", "build", "./..."], r)
        res = "builds" if rc == 0 else "NO BUILD " + o
        for _ in range(3):
            ok, o = tests(r)
            if ok: break
        res += ", tests pass" if ok else ", TESTS FAIL " + o[-600:]
        n = [sh(NS + ["bash", d + "/demo.sh"], r)[0] for _ in range(5)]
        sh(["git", "checkout", "--", "."], r)
        u = [sh(NS + ["bash", d + "/demo.sh"], r) for _ in range(5)]
        res += ", demo patched %s unpatched %s" % (n, [x[0] for x in u])
        good = rc == 0 and ok and all(n) and not any(x[0] for x in u)
        if any(x[0] for x in u): res += u[0][1][-800:]
        if alien: res += ", NOT ORIGINAL: %r" % alien; 
        print(("ok  " if good and not alien else "BAD ") + id, res, flush=True)
    finally:
        shutil.rmtree(w)
