#!/usr/bin/env python3
"""Make seeded/<id> from the definitions in plants*.py: python3 plant/plant.py [id...]

A change is kept only if it applies to original lines, builds, passes the tests, and its demonstration
fails with it and passes without it."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
W = "/tmp/plant"
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
GO = "/opt/veriftools/go1.27.3/bin"
ENV = dict(os.environ, GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off", GO111MODULE="on", HOME="/root",
           PATH=GO + ":" + os.environ["PATH"], GOFLAGS="-mod=mod -modfile=" + W + "/mod/gobinlog.mod")


def sh(cmd, cwd, timeout=300):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


def make(p):
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(W + "/mod"):
        shutil.copytree("/opt/vp/mod", W + "/mod")
    repo = W + "/repo"
    shutil.rmtree(repo, ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    sh(["git", "clone", "-q", "/repo", repo], W)
    for f, old, new in p["edits"]:
        path = os.path.join(repo, f)
        s = open(path).read()
        if s.count(old) != 1:
            return "%s: %d matches of %r" % (f, s.count(old), old)
        # only original lines
        at = s[:s.index(old)].count("\n") + 1
        open(path, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE).stdout.decode()
    removed = 0
    cur, ln = None, 0
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            cur = line[6:]
        elif line.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-") and not line.startswith("---"):
            b = sh(["git", "blame", "-s", "-L%d,%d" % (ln, ln), "HEAD", "--", cur], repo)[1]
            if not b.startswith("^bc14880"):
                return "line %s:%d is not original: %s" % (cur, ln, b)
            removed += 1
            ln += 1
        elif line.startswith(" "):
            ln += 1
    if removed == 0:
        return "changes no original line"
    if sh(["gofmt", "-l", "."], repo)[1] not in ("", "") and False:
        return "gofmt"
    rc, out = sh(["go", "build", "./replication/..."], repo)
    if rc:
        return "build: " + out
    rc, out = sh(["go", "test", "-vet=off", "-count=1", "./replication/..."], repo)
    if rc:
        return "the tests notice: " + out[-800:]
    d = os.path.join(SEEDED, p["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    shutil.copytree(os.path.join(HERE, "kit"), d + "/demo", ignore=shutil.ignore_patterns("demo.sh"))
    sh_text = open(os.path.join(HERE, "kit", "demo.sh")).read()
    if p.get("race"):
        sh_text = sh_text.replace("go run .", "go run -race .")
    open(d + "/demo.sh", "w").write(sh_text)
    os.chmod(d + "/demo.sh", 0o755)
    imports = "".join('\t"%s"\n' % i for i in p.get("imports", []))
    gbs = ""
    if "gb." in p["main"]:
        gbs += '\tgb "github.com/Breeze0806/gobinlog"\n'
    if "replication." in p["main"]:
        gbs += '\t"github.com/Breeze0806/gobinlog/replication"\n'
    main = "package main\n\nimport (\n%s%s)\n\n%s\n" % (imports, ("\n" if imports and gbs else "") + gbs, p["main"].strip())
    if not imports and not gbs:
        main = "package main\n\n" + p["main"].strip() + "\n"
    open(d + "/demo/main.go", "w").write(main)
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["what"]}, open(d + "/meta.json", "w"), indent=1)
    res = []
    for which in ("/repo", repo):
        t = W + "/demo"
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(d, t)
        m = open(t + "/demo/go.mod").read().replace("=> /repo", "=> " + which)
        open(t + "/demo/go.mod", "w").write(m)
        runs = [sh(["sh", t + "/demo.sh"], which) for _ in range(5 if p.get("flaky") else 2)]
        res.append(runs)
    if any(rc for rc, _ in res[0]):
        shutil.rmtree(d)
        return "the demonstration fails without the change: " + [o for rc, o in res[0] if rc][0][-1500:]
    if any(rc == 0 for rc, _ in res[1]):
        shutil.rmtree(d)
        return "the demonstration passes with the change: " + res[1][0][1][-500:]
    if "FAIL" not in res[1][0][1] and "DATA RACE" not in res[1][0][1] and "panic" not in res[1][0][1] and "does not return" not in res[1][0][1]:
        return "odd demonstration: " + res[1][0][1][-1500:]
    return None, res[1][0][1].strip().splitlines()[0][:160]


def main():
    sys.path.insert(0, HERE)
    plants = []
    for f in sorted(glob.glob(HERE + "/plants*.py")):
        plants += __import__(os.path.basename(f)[:-3]).PLANTS
    ids = [p["id"] for p in plants]
    assert len(set(ids)) == len(ids)
    for p in plants:
        if len(sys.argv) > 1:
            if p["id"] not in sys.argv[1:]:
                continue
        elif os.path.isdir(os.path.join(SEEDED, p["id"])):
            continue
        r = make(p)
        print(p["id"], "OK " + r[1] if isinstance(r, tuple) else "REJECTED " + str(r), flush=True)


main()
