"""What every check is made of: build the harness from /repo, run it, let TLC judge."""
import hashlib
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Infra(Exception):
    """The check itself failed: no verdict."""


class Crash(Exception):
    """The code under test ended the process."""

    def __init__(self, command, text):
        super().__init__(command)
        self.command, self.text = command, text


MEM = 4 << 30       # address space of a harness process (not under the race detector)


def library_crash(err):
    """The report of a crash in the code under test, if that is what ended the harness."""
    m = re.search(r"^(panic: |fatal error: |runtime: goroutine stack exceeds)", err, re.M)
    if not m:
        return None
    text = err[m.start():]
    blocks = re.split(r"\n\n", text)
    first = next((b for b in blocks if re.match(r"goroutine \d+", b.lstrip()) or "\ngoroutine " in b), "")
    running = [b for b in blocks if re.match(r"goroutine \d+ [^\n]*\[(running|runnable)", b.lstrip())]
    if any("Breeze0806/gobinlog" in b for b in [first] + running):
        return text[:8000]
    return None


def nproc():
    return max(2, min(8, os.cpu_count() or 2))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.deep = tier == "thorough"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vh-%s-" % prop, dir="/tmp")
        self.parts = []
        self.rejects = []
        self.known = []
        self.bins = {}
        self.procs = set()
        self.lock = threading.Lock()

    def elapsed(self):
        return time.time() - self.t0

    def log(self, *a):
        print("[%6.1fs]" % self.elapsed(), *a, flush=True)

    def path(self, name):
        return os.path.join(self.tmp, re.sub(r"[^\w.-]+", "_", name))

    def listed(self, fid, matcher):
        """The matcher of a known finding, while KNOWN_FINDINGS.md lists it."""
        with open(os.path.join(HERE, "KNOWN_FINDINGS.md")) as f:
            if any(line.startswith("known: property=%s id=%s " % (self.prop, fid)) for line in f):
                return matcher
        return None

    # ---- processes ------------------------------------------------------------------
    def run(self, cmd, env=None, timeout=600, cwd=None, ok=(0,), mem=None):
        e = dict(os.environ)
        e.update(env or {})

        def limit():
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        p = subprocess.Popen(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             start_new_session=True, preexec_fn=limit if mem else None)
        with self.lock:
            self.procs.add(p)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise Infra("timeout after %ds: %s" % (timeout, " ".join(cmd)[:200]))
        finally:
            with self.lock:
                self.procs.discard(p)
        out, err = out.decode("utf8", "replace"), err.decode("utf8", "replace")
        if ok is not None and p.returncode not in ok:
            raise Infra("exit %d: %s\n%s\n%s" % (p.returncode, " ".join(cmd)[:200], out[-3000:], err[-6000:]))
        return p.returncode, out, err

    # ---- the implementation -----------------------------------------------------------
    def goenv(self):
        cache = os.path.join(HERE, "build", "gocache")
        if not os.path.isdir(cache):
            os.makedirs(os.path.dirname(cache), exist_ok=True)
            tmp = cache + ".%d" % os.getpid()
            if os.path.isdir("/opt/vp/gocache"):
                shutil.copytree("/opt/vp/gocache", tmp)
            else:
                os.makedirs(tmp)
            try:
                os.rename(tmp, cache)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        return {"GOTOOLCHAIN": "local", "GOPROXY": "off", "GOSUMDB": "off", "GOWORK": "off", "GO111MODULE": "on",
                "GOFLAGS": "-mod=readonly", "GOCACHE": cache}

    def binary(self, race=False):
        """The harness, compiled with the code of REPO's working tree."""
        if race in self.bins:
            return self.bins[race]
        src = HARNESS
        if REPO != "/repo":
            src = self.path("harness")
            if not os.path.isdir(src):
                shutil.copytree(HARNESS, src)
                m = open(os.path.join(src, "go.mod")).read().replace("=> /repo", "=> " + REPO)
                open(os.path.join(src, "go.mod"), "w").write(m)
        out = self.path("vh-race" if race else "vh")
        env = self.goenv()
        errs = []
        # unexported parts are reached through an overlay, as far as they are still there
        for parts in (["cell", "set"], ["cell"], ["set"], []):
            ov = self.path("overlay.json")
            with open(ov, "w") as f:
                json.dump({"Replace": {os.path.join(REPO, "replication", "zz_verif_%s.go" % p):
                                       os.path.join(HARNESS, "overlay", p + ".go") for p in parts}}, f)
            rc, o, e = self.run(["go", "build", "-overlay", ov, "-tags", ",".join(p + "export" for p in parts)] +
                                (["-race"] if race else []) + ["-o", out, "."], env=env, cwd=src, timeout=600, ok=None)
            if rc == 0:
                break
            errs.append(e)
        else:
            raise Infra("the harness does not compile:\n" + errs[-1][-4000:])
        self.bins[race] = out
        self.log("built", os.path.basename(out))
        return out

    def vh(self, *args, race=False, env=None, timeout=600):
        e = {"GOTRACEBACK": "all"}
        e.update(env or {})
        cmd = [self.binary(race)] + [str(a) for a in args]
        rc, out, err = self.run(cmd, env=e, timeout=timeout, ok=None, mem=None if race else MEM)
        if rc != 0:
            crash = library_crash(err)
            if rc == 2 and crash:
                if "out of memory" in crash or "cannot allocate" in crash or "does not return" in crash:
                    rc2, _, err2 = self.run(cmd, env=e, timeout=timeout, ok=None, mem=None if race else MEM)
                    if rc2 != 2 or not library_crash(err2):
                        raise Infra("exit %d, not reproducible:\n%s" % (rc, err[:4000]))
                raise Crash(" ".join(str(a) for a in args), crash)
            raise Infra("exit %d: %s\n%s\n%s" % (rc, " ".join(cmd)[:200], out[-3000:], err[-6000:]))
        line = out.strip().splitlines()[-1] if out.strip() else "{}"
        return json.loads(line)

    # ---- TLC ----------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=None, args=(), mem="10g", timeout=840, expect_ok=True, stack="256m"):
        meta = tempfile.mkdtemp(prefix="tlc", dir=self.tmp)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss" + stack, "-Xmx" + mem, "-cp", JARS, "tlc2.TLC",
               "-noGenerateSpecTE", "-cleanup", "-metadir", meta, "-workers", str(workers or nproc()), "-config", cfg] + list(args) + [module]
        rc, out, err = self.run(cmd, env=env, timeout=timeout, cwd=SPEC, ok=None)
        shutil.rmtree(meta, ignore_errors=True)
        res = {"rc": rc, "out": out, "clean": "Model checking completed. No error has been found." in out}
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", out)
        if m:
            res["generated"], res["distinct"], res["left"] = [int(x.replace(",", "")) for x in m[-1]]
        if expect_ok and (rc != 0 or not res["clean"]):
            raise Infra("TLC %s: exit %d\n%s\n%s" % (module, rc, out[-6000:], err[-1500:]))
        return res

    # ---- records ----------------------------------------------------------------------------
    def judge(self, module, recs, n, workers=None, mem="10g", timeout=840, env=None):
        """TLC's verdicts on the records: {index: verdict} of those not ok."""
        e = {"RECS": recs}
        e.update(env or {})
        r = self.tlc(module, "Records.cfg", env=e, workers=workers, mem=mem, timeout=timeout)
        if r.get("distinct") != n or r.get("left") != 0:
            raise Infra("%s judged %s of %d records" % (module, r.get("distinct"), n))
        bad = {}
        for m in re.finditer(r'<<"VERDICT", (\d+), "(\w+)">>', r["out"]):
            bad[int(m.group(1))] = m.group(2)
        return bad, r

    def records(self, name, module, cmd, which, rule, nontrivial=None, race=False, env=None, workers=None):
        """Generate records with the harness, judge them, confirm every rejection by a second run."""
        f = self.path(name + ".ndjson")
        args = [cmd, which, f, self.seed] + (["deep"] if self.deep else [])
        try:
            info = self.vh(*args, race=race, env=env)
        except Crash as c:
            self.crashed(name, c, rule)
            return None
        n = info["records"]
        if n == 0:
            raise Infra(name + ": no records")
        bad, r = self.judge(module, f, n, workers=workers)
        if any(v == "spec" for v in bad.values()):
            k = min(k for k, v in bad.items() if v == "spec")
            raise Infra("%s: record %d: generator and specification disagree: %s" % (name, k, nth(f, k)[:2000]))
        distinct, samples = set(), []
        with open(f, "rb") as fh:
            for k, line in enumerate(fh, 1):
                if nontrivial is None or nontrivial(line):
                    distinct.add(hashlib.blake2b(line, digest_size=12).digest())
                if k in (1, n // 3 + 1, 2 * n // 3 + 1):
                    samples.append(clip(json.loads(line)))
        part = {"name": name, "evaluations": n, "distinct": len(distinct), "rule": rule, "samples": samples,
                "tags": info.get("tags", {}), "states": r["distinct"], "transitions": r["generated"]}
        if info.get("evaluations"):
            part["evaluations"] = info["evaluations"]
        self.parts.append(part)
        self.log("%s: %d records judged, %d rejected" % (name, n, len(bad)))
        if bad:
            g = self.path(name + ".again.ndjson")
            try:
                self.vh(*args[:2], g, *args[3:], race=race, env=env)
            except (Crash, Infra):
                pass
            for k in sorted(bad)[:20]:      # a wrong answer is one even if the next run gives another
                a, b = nth(f, k), nth(g, k, False)
                self.rejects.append({"part": name, "record": json.loads(a), "index": k, "module": module, "same_again": a == b,
                                     "command": " ".join(str(x) for x in args)})
            if os.path.exists(g):
                os.unlink(g)
        os.unlink(f)
        return info

    def crashed(self, name, c, rule):
        self.log("%s: the code under test crashed: %s" % (name, c.text.splitlines()[0]))
        self.parts.append({"name": name, "evaluations": 1, "distinct": 1, "rule": rule, "samples": [], "crash": c.text[:300]})
        self.rejects.append({"part": name, "command": "vh " + c.command, "crash": c.text})

    # ---- streams ------------------------------------------------------------------------------
    def streams(self, name, which, rule, shards=None, race=False, opts=(), chunk=16 << 20, timeout=700, known=None):
        """Run the scenarios of a family and check their traces against StreamerTrace."""
        shards = shards or nproc()
        binary = self.binary(race)
        files, infos, errs, crashes = [self.path("%s.%d.ndjson" % (name, k)) for k in range(shards)], [None] * shards, [], []

        def one(k):
            try:
                infos[k] = self.stream_proc(binary, which, files[k], race, list(opts) + ["shard=%d/%d" % (k, shards)],
                                            procs=[8, 1, 2, 4][k % 4], timeout=timeout)
            except Crash as c:
                crashes.append(c)
            except Exception as e:  # noqa: BLE001
                errs.append(e)
        ts = [threading.Thread(target=one, args=(k,)) for k in range(shards)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs and not crashes:
            raise errs[0]
        for c in crashes[:2]:
            self.crashed(name, c, rule)
        infos = [i for i in infos if i]
        n = sum(i["records"] for i in infos)
        if n == 0:
            if crashes:
                return 0
            raise Infra(name + ": no traces")
        tags = {}
        for i in infos:
            for k, v in i.get("tags", {}).items():
                tags[k] = tags.get(k, 0) + v
        self.log("%s: %d runs recorded" % (name, n))
        # judge in chunks
        chunks, size, cur = [], 0, []
        for f in files:
            if not os.path.exists(f):
                continue
            cur.append(f)
            size += os.path.getsize(f)
            if size > chunk:
                chunks.append(cur)
                cur, size = [], 0
        if cur:
            chunks.append(cur)
        states = trans = 0
        distinct, samples, bad = set(), [], []
        for ci, fs in enumerate(chunks):
            allf = self.path("%s.all.ndjson" % name)
            ids = {}
            with open(allf, "wb") as o:
                for f in fs:
                    with open(f, "rb") as fh:
                        for line in fh:
                            try:
                                r = json.loads(line)
                            except ValueError:
                                if crashes:         # cut short
                                    continue
                                raise
                            o.write(line)
                            ids[r["id"]] = r if len(line) < (1 << 20) else {"id": r["id"], "ev": r["ev"]}
                            distinct.add(hashlib.blake2b(json.dumps([r["pk"], r["ev"]]).encode(), digest_size=12).digest())
                            if len(samples) < 2 and r["id"] % 7 == 3:
                                samples.append(clip({"id": r["id"], "ev": r["ev"]}))
            if not ids:
                continue
            res = self.tlc("StreamerTrace.tla", "StreamerTrace.cfg", env={"RECS": allf})
            states += res["distinct"]
            trans += res["generated"]
            acc = set(int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', res["out"]))
            bad += [ids[i] for i in sorted(set(ids) - acc)]
            os.unlink(allf)
        for f in files:
            if os.path.exists(f):
                os.unlink(f)
        self.parts.append({"name": name, "evaluations": n, "distinct": len(distinct), "traces": n, "rule": rule,
                           "samples": samples, "tags": tags, "states": states, "transitions": trans})
        self.log("%s: %d traces checked, %d rejected" % (name, n, len(bad)))
        shown = 0
        for r in bad:
            if shown == 4:
                break
            if known and known(r):
                self.known.append(known(r))
                continue
            timing = [e["e"] for e in r["ev"] if e["e"] in ("hang", "leak", "open")]
            if timing:          # depends on this machine's speed: it must happen again
                if not self.rerun(name, which, binary, race, opts, r["id"]):
                    self.log("run %d of %s (%s) did not happen again" % (r["id"], name, ",".join(timing)))
                    continue
            at = self.explained(r) if "pk" in r else None
            shown += 1
            self.rejects.append({"part": name, "record": r, "explained_events": at,
                                 "unexplained": r["ev"][at] if at is not None and at < len(r["ev"]) else None,
                                 "module": "StreamerTrace.tla",
                                 "command": "vh streams %s OUT %d %s only=%d" % (which, self.seed, " ".join(opts), r["id"])})
        return n

    def stream_proc(self, binary, which, out, race, opts, procs=4, timeout=700):
        env = {"GOTRACEBACK": "all", "GOMAXPROCS": str(procs)}
        if race:
            env["RACE_LOG"] = out + ".race"
            env["GORACE"] = "log_path=%s.race halt_on_error=0 exitcode=0" % out
        args = ["streams", which, out, str(self.seed)] + (["deep"] if self.deep else []) + list(opts)

        def go(extra=()):
            return self.run([binary] + args + list(extra), env=env, timeout=timeout, ok=None, mem=None if race else MEM)
        rc, o, e = go()
        if rc == 0 and o.strip():
            return json.loads(o.strip().splitlines()[-1])
        crash = library_crash(e)
        if rc == 2 and crash:       # a crash of the process is a behaviour too
            cur = "?"
            if os.path.exists(out + ".cur"):
                cur = open(out + ".cur").read()
            if "out of memory" in crash or "cannot allocate" in crash:
                rc, _, e2 = go(["only=" + cur])
                if rc != 2 or not library_crash(e2):
                    raise Infra("exit %d, not reproducible:\n%s" % (rc, e[:4000]))
            raise Crash(" ".join(args + ["only=" + cur]), crash)
        raise Infra("harness exit %d: %s\n%s" % (rc, o[-2000:], e[-6000:]))

    def rerun(self, name, which, binary, race, opts, rid, times=12):
        for k in range(times):
            f = self.path("%s.again.ndjson" % name)
            try:
                self.stream_proc(binary, which, f, race, list(opts) + ["only=%d" % rid], procs=[8, 1, 2, 4][k % 4])
            except Crash:
                return True
            res = self.tlc("StreamerTrace.tla", "StreamerTrace.cfg", env={"RECS": f}, workers=1)
            if '<<"ACCEPT", %d>>' % rid not in res["out"]:
                return True
            if self.elapsed() > 700:
                break
        return False

    def explained(self, r):
        """How many events of a rejected run the specification explains."""
        f = self.path("one.ndjson")
        with open(f, "w") as o:
            o.write(json.dumps(r) + "\n")
        res = self.tlc("StreamerTrace.tla", "StreamerTraceAt.cfg", env={"RECS": f}, workers=1)
        ls = [int(x) for x in re.findall(r'<<"AT", \d+, (\d+)>>', res["out"])]
        return max(ls) - 1 if ls else 0

    # ---- models --------------------------------------------------------------------------------
    def model(self, name, module, cfg, consts=None, **kw):
        """Check a model; consts: constants that differ from those of the configuration file."""
        r = self.tlc(module, self.config(cfg, consts), **kw)
        self.parts.append({"name": name, "states": r["distinct"], "transitions": r["generated"], "model": True})
        self.log("%s: model checked, %d states" % (name, r["distinct"]))
        return r

    def broken_model(self, name, module, cfg, consts, what):
        """The model with a fault built in must violate what it is checked for."""
        r = self.tlc(module, self.config(cfg, consts), expect_ok=False)
        m = re.search(r"Invariant (\w+) is violated|Temporal propert[^\n]*violated", r["out"])
        if not m or (m.group(1) or "temporal") not in what:
            raise Infra("%s %s: the model does not notice: %s" % (name, consts, r["out"][-1500:]))
        self.parts.append({"name": "%s with %s: %s" % (name, consts, m.group(1) or "a temporal property") + " fails, as it must",
                           "states": r.get("distinct", 0), "transitions": r.get("generated", 0), "model": True})
        self.log("%s %s: noticed by %s" % (name, consts, m.group(1) or "a temporal property"))

    def words(self, name, module, cfg, consts=None, limit=None, **kw):
        """Binlogs and mishaps as TLC lists them, for the replay; limit: a sample of that many."""
        r = self.tlc(module, self.config(cfg, consts), **kw)
        out = set()
        for line in r["out"].splitlines():
            if not line.startswith('<<"ENV", '):
                continue
            d = json.loads(json.loads(line[len('<<"ENV", '):-2]))
            atts = [mishap(a) for a in d["atts"]]
            atts = [a for a in atts if a]
            while atts and atts[-1] == ("end", "eof", len(d["log"])):
                atts.pop()
            log = tuple(d["log"])
            if d["atts"] and not atts or log.count("u") > 1:
                continue
            out.add((log, tuple(atts)))
        out = sorted(out)
        total = len(out)
        if limit and total > limit:
            out = random.Random(self.seed).sample(out, limit)
        f = self.path(name + ".words")
        with open(f, "w") as o:
            for log, atts in out:
                o.write(json.dumps({"log": log, "atts": [{"k": k, "w": w, "n": n} for k, w, n in atts]}) + "\n")
        self.parts.append({"name": name, "states": r["distinct"], "transitions": r["generated"], "model": True,
                           "words": total, "replayed": len(out)})
        self.log("%s: %d words, %d to replay" % (name, total, len(out)))
        return "words=" + f

    def config(self, cfg, consts):
        text = open(os.path.join(SPEC, cfg)).read()
        for k, v in (consts or {}).items():
            text, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=\s*).*$" % k, lambda m: m.group(1) + v, text)
            if n != 1:
                raise Infra("constant %s of %s" % (k, cfg))
        if not consts:
            return cfg
        f = tempfile.NamedTemporaryFile("w", suffix=".cfg", dir=self.tmp, delete=False)
        f.write(text)
        f.close()
        return f.name

    # ---- the end ---------------------------------------------------------------------------------
    def finish(self, level, assumptions):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "assumptions": assumptions, "violations": len(self.rejects)}
        recs = [p for p in self.parts if "evaluations" in p]
        cov = {"parts": [{k: v for k, v in p.items() if k != "samples"} for p in self.parts]}
        cov["samples"] = [s for p in self.parts for s in p.get("samples", [])][:12]
        cov["evaluations"] = sum(p["evaluations"] for p in recs)
        cov["distinct_nontrivial"] = sum(p["distinct"] for p in recs)
        cov["rule"] = " | ".join(p["rule"] for p in recs)
        cov["states"] = sum(p.get("states", 0) for p in self.parts)
        cov["transitions"] = sum(p.get("transitions", 0) for p in self.parts)
        cov["traces_validated_against_impl"] = sum(p.get("traces", 0) for p in self.parts)
        ev["coverage"] = cov
        if self.known:
            ev["known_findings"] = sorted(set(self.known))
        ev["wall_s"] = round(self.elapsed(), 1)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k), flush=True)
        if not self.rejects:
            self.log("%s holds on everything explored" % self.prop)
            return 0
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        for k, r in enumerate(self.rejects[:5]):
            p = os.path.join(HERE, "replay", "%s-%d-%d.json" % (self.prop, self.seed, k))
            r = dict(r, property=self.prop, tier=self.tier, seed=self.seed)
            with open(p, "w") as f:
                json.dump(r, f, indent=1)
            self.log("rejected:", json.dumps(clip(r))[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        return 1

    def cleanup(self):
        for p in list(self.procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(self.tmp, ignore_errors=True)


def mishap(a):
    """What the environment did in an attempt, as one mishap: what comes first hides the rest."""
    if a["conn"] != "none":
        return ("conn", a["conn"], 0)
    if a["cancel"] != "none":
        return ("cancel", a["cancel"], a["at"])
    if a["hfail"]:
        return ("hfail", "", a["hfail"])
    if a["mfail"]:
        return ("mfail", "", a["mfail"])
    if a["end"] != "none":
        return ("end", a["end"], a["sent"])
    return None


def nth(path, k, must=True):
    if os.path.exists(path):
        with open(path) as f:
            for i, line in enumerate(f, 1):
                if i == k:
                    return line
    if must:
        raise Infra("no record %d in %s" % (k, path))
    return None


def clip(v, n=60):
    """Shorten long byte sequences; show printable ones as text."""
    if isinstance(v, list):
        if v and all(isinstance(x, int) for x in v):
            if all(32 <= x < 127 for x in v):
                s = "".join(map(chr, v))
                return s if len(s) <= 200 else s[:200] + "... (%d)" % len(v)
            return v if len(v) <= n else v[:n] + ["... (%d)" % len(v)]
        return [clip(x, n) for x in (v if len(v) <= 40 else v[:40] + ["... (%d)" % len(v)])]
    if isinstance(v, dict):
        return {k: clip(x, n) for k, x in v.items()}
    return v
