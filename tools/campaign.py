#!/usr/bin/env python3
"""Mutation campaign: measures which small source changes the checks notice.
usage: campaign.py OUT.jsonl EVERY OFFSET file...   (never run by a check)"""
import json, os, subprocess, sys, shutil, tempfile, time, glob
out, every, offset, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NS = ["unshare", "-Urnpf", "--kill-child", "sh", "-c", "ip link set lo up; exec \"$@\"", "sh"]
env = dict(os.environ, GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off",
           PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
def sh(cmd, cwd, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 124, "timeout"
W = tempfile.mkdtemp(prefix="camp.", dir="/tmp")
sh(["go", "build", "-o", W + "/mutate", "."], V + "/tools/mutate", 100)
sh(["go", "build", "-o", W + "/rewriter", "."], V + "/rewrite", 100)
shutil.copytree("/repo", W + "/repo", ignore=shutil.ignore_patterns(".git"))
os.makedirs(W + "/mod")
open(W + "/mod/go.mod", "w").write("module stompmc\n\ngo 1.23\n")
shutil.copytree(V + "/mc", W + "/mod/mc"); os.path.exists(W + "/mod/mc/go.mod") and os.remove(W + "/mod/mc/go.mod")
shutil.copytree(V + "/harness", W + "/mod/harness")
shutil.copy(V + "/known-findings.txt", W) if os.path.exists(V + "/known-findings.txt") else None
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
n = 0
for f in files:
    src = open("/repo/" + f).read()
    _, l = sh([W + "/mutate", "list", "/repo/" + f], "/repo", 60)
    for line in l.splitlines():
        num, desc = line.split("\t", 1)
        n += 1
        if n % every != offset: continue
        _, m = sh([W + "/mutate", "apply", "/repo/" + f, num], "/repo", 60)
        open(W + "/repo/" + f, "w").write(m)
        rec = {"file": f, "num": int(num), "desc": desc}
        try:
            rc, o = sh(["go", "build", "./..."], W + "/repo", 120)
            if rc: rec["r"] = "nobuild"; continue
            pk = ["./frame/...", "./server/...", "./internal/...", "./testutil/..."]
            rc, o = sh(NS + ["go", "test", "-vet=off", "-count=1", "-timeout", "60s"] + pk, W + "/repo", 120)
            if rc: rec["r"] = "tests"; continue
            shutil.rmtree(W + "/mod/stomp", ignore_errors=True)
            rc, o = sh([W + "/rewriter", "-repo", W + "/repo", "-out", W + "/mod/stomp"], W, 60)
            if rc: rec["r"] = "NOREWRITE"; rec["o"] = o[-500:]; continue
            rc, o = sh(["go", "build", "-o", W + "/harness", "./harness"], W + "/mod", 120)
            if rc: rec["r"] = "NOHARNESS"; rec["o"] = o[-500:]; continue
            ids = ["f-*", "c-*", "s-*"] if f.startswith("frame/") else ["s-*", "e*"] if f.startswith("server/") else ["c-*", "e*"]
            rec["r"] = "SURVIVED"; t0 = time.time()
            for i in ids:
                rc, o = sh([W + "/harness", "run", "prop=ALL", "only=" + i, "tier=quick", "seed=1", "findings=" + V + "/known-findings.txt",
                            "evidence=" + W + "/ev.json", "replays=" + W + "/replays", "budget=400"], W, 500)
                if rc == 1: rec["r"] = "caught"; rec["by"] = i; rec["o"] = "\n".join(x for x in o.splitlines() if x.startswith("scenario"))[:300]; break
                if rc != 0: rec["r"] = "ERR%d" % rc; rec["by"] = i; rec["o"] = o[-600:]; break
            rec["t"] = round(time.time() - t0)
        finally:
            open(W + "/repo/" + f, "w").write(src)
            with open(out, "a") as fo: fo.write(json.dumps(rec) + "\n")
shutil.rmtree(W)
