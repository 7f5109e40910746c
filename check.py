#!/usr/bin/env python3
"""Decides one property: python3 check.py C01   (VERIF_SEED, VERIF_TIER=quick|thorough)

1. model checks the specification modules the property rests on (TLC, small spaces);
2. lets TLC generate scenarios from them;
3. builds the driver against /repo's working tree and runs the scenarios, and
   randomised full-width ones, on the real code, recording every call;
4. lets TLC judge the recorded traces against the specification (spec/UipTrace.tla).

Exit 0: held; exit 1 with VIOLATION: the real code did something the
specification forbids for this property; exit 2: the check itself failed."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time, resource
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
sys.path.insert(0, HERE)
from plan import PLAN, MODELS, GENS, FAMILIES  # noqa: E402

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOENV = dict(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def printed(out, tag):
    """What the specification printed: PrintT("@@TAG " \\o ToJson(x))."""
    p = '"@@' + tag + ' '
    return [json.loads(json.loads('"' + l[len(p):-1] + '"')) for l in out.split("\n") if l.startswith(p)]


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix="uipverif-")
        os.chmod(self.work, 0o755)
        self.env = dict(os.environ, **GOENV)
        self.cover = {"models": [], "families": {}, "states": 0, "transitions": 0}
        self.bads, self.samples, self.errors = [], [], []
        self.procs = set()
        self.lock = threading.Lock()

    # -- processes ----------------------------------------------------------
    def run(self, cmd, cwd, timeout, env=None, mem=None, stdout=None):
        def pre():
            os.setsid()
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        out = tempfile.TemporaryFile(dir=self.work) if stdout is None else stdout
        err = tempfile.TemporaryFile(dir=self.work)
        p = subprocess.Popen(cmd, cwd=cwd, env=env or self.env, stdout=out, stderr=err, preexec_fn=pre)
        with self.lock:
            self.procs.add(p)
        timed = False
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            timed = True
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            with self.lock:
                self.procs.discard(p)
        text = ""
        if stdout is None:
            out.seek(0)
            text = out.read().decode("utf-8", "replace")
        err.seek(0)
        return (None if timed else p.returncode), text, err.read().decode("utf-8", "replace")

    def tlc(self, module, cfg, workers, timeout, env=None, heap="3g", args=()):
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        c = os.path.join(d, "m.cfg")
        with open(c, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-XX:ParallelGCThreads=2", "-Dfile.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", c, *args, module + ".tla"]
        e = dict(self.env)
        e["TMPDIR"] = d
        e.update(env or {})
        rc, out, err = self.run(cmd, SPEC, timeout, env=e)
        shutil.rmtree(d, ignore_errors=True)
        return rc, out, err

    # -- model checking and generation ----------------------------------------
    @staticmethod
    def cfg(consts, **kw):
        lines = ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE"]
        for k, v in consts.items():
            lines.append("CONSTANT %s = %s" % (k, v))
        for k, v in kw.items():
            if v:
                lines.append("%s %s" % (k, v))
        return "\n".join(lines) + "\n"

    def model(self, name):
        m = MODELS[name]
        consts = dict(m["quick"])
        if self.tier == "thorough":
            consts.update(m.get("thorough", {}))
        t0 = time.time()
        rc, out, err = self.tlc(m["module"], self.cfg(consts, INVARIANT=m.get("inv"), PROPERTY=m.get("prop"), VIEW=m.get("view"), CONSTRAINT=m.get("constraint")),
                                m.get("workers", 4), 700 if self.tier == "quick" else 3000, heap="4g")
        g = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if rc != 0 or not g:
            raise CheckError("model %s: TLC exit %s\n%s\n%s" % (name, rc, out[-3000:], err[-500:]))
        with self.lock:
            self.cover["models"].append({"model": name, "constants": consts, "invariants": m.get("inv"), "states": int(g.group(2)),
                                         "transitions": int(g.group(1)), "wall_s": round(time.time() - t0, 1)})
            self.cover["states"] += int(g.group(2))
            self.cover["transitions"] += int(g.group(1))

    def gen(self, name):
        g = GENS[name]
        consts = dict(g["quick"])
        if self.tier == "thorough":
            consts.update(g.get("thorough", {}))
        rc, out, err = self.tlc(g["module"], self.cfg(consts, INVARIANT=g["inv"], VIEW=g.get("view")), 1, 600)
        scen = printed(out, "SCEN")
        if rc != 0 or not scen:
            raise CheckError("generation %s: TLC exit %s\n%s\n%s" % (name, rc, out[-2000:], err[-500:]))
        limit = g.get("limit", {}).get(self.tier)
        total = len(scen)
        if limit and total > limit:
            import random
            rnd = random.Random(self.seed * 7919 + len(name))
            scen = rnd.sample(scen, limit)
        path = os.path.join(self.work, name + ".scen")
        with open(path, "w") as f:
            for s in scen:
                f.write(json.dumps(s) + "\n")
        with self.lock:
            self.cover.setdefault("generated", {})[name] = {"scenarios": total, "used": len(scen)}
        return path

    # -- the driver ---------------------------------------------------------------
    def build(self, race):
        out = os.path.join(self.work, "drv-race" if race else "drv")
        cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
        src = os.path.join(self.work, "harness")
        with self.lock:
            if not os.path.exists(src):
                shutil.copytree(os.path.join(HERE, "harness"), src)
        rc, o, e = self.run(cmd, src, 600)
        if rc != 0:
            raise CheckError("driver does not build: " + e[-3000:])
        return out

    def drive(self, drv, family, idx):
        """Runs one family; returns its trace. A call that kills or hangs the
        driver is found by re-running its scenario with a journal."""
        f = FAMILIES[family]
        trace = os.path.join(self.work, "%s.%d.ndjson" % (family, idx))
        work = os.path.join(self.work, "w-%s-%d" % (family, idx))
        os.makedirs(work)
        n = f.get("n", {}).get(self.tier, 0)
        base = [drv, "-family", f.get("family", family), "-out", trace, "-seed", str(self.seed), "-n", str(n), "-tier", self.tier, "-work", work]
        if "gen" in f:
            base += ["-scen", self.scens[f["gen"]]]
        if "repo" in f:
            base += f["repo"]
        env = dict(self.env, GORACE="halt_on_error=1 exitcode=66", TMPDIR=work)
        for extra in f.get("tools", []):
            env.update(self.tools[extra])
        stall = f.get("stall", 60)
        start, dead = 0, 0
        open(trace, "w").close()
        while True:
            before = self.count(trace)
            cmd = base + ["-from", str(start)]
            journal = os.path.join(work, "journal")
            if f.get("race"):
                cmd += ["-journal", journal]
            rc, err = self.watch(cmd, trace, stall, env, f.get("mem"))
            if rc == 0:
                return trace
            done = self.count(trace) - before
            bad = start + done
            log("driver %s stopped (%s) in scenario %d: %s" % (family, rc, bad, err[-600:]))
            dead += 1
            if dead > (1 if rc == "stall" else 3):
                return trace
            if not f.get("race"):
                t2 = os.path.join(work, "again")
                open(t2, "w").close()
                again = [t2 if x == trace else x for x in base] + ["-only", str(bad), "-journal", journal]
                rc2, err2 = self.watch(again, t2, stall, env, f.get("mem"))
                if rc2 == 0:
                    # not by itself: once more with all that led up to it
                    open(t2, "w").close()
                    again = again[:-4] + ["-from", str(start), "-journal", journal]
                    rc2, err2 = self.watch(again, t2, stall, env, f.get("mem"))
                    if rc2 != 0:
                        bad = start + self.count(t2)
                if rc2 == 0:
                    self.errors.append(CheckError("driver %s died in scenario %d (%s) but not when it ran again: %s" % (family, bad, rc, err[-2000:])))
                    return trace
                rc, err = rc2, err2
            try:
                with open(journal) as g:
                    sc = json.loads(g.read())
            except Exception as e:
                self.errors.append(CheckError("driver %s died (%s) outside a call: %s" % (family, rc, err[-2000:])))
                return trace
            sc["steps"][-1]["out"] = "hang" if rc == "stall" else "race" if rc == 66 else "crash"
            sc["steps"][-1]["why"] = re.sub(r"[^ -~]", "?", err[:800])
            with open(trace, "a") as g:
                g.write(json.dumps(sc) + "\n")
            start = bad + 1

    @staticmethod
    def count(path):
        with open(path, "rb") as f:
            return sum(1 for _ in f)

    def watch(self, cmd, trace, stall, env, mem):
        err = tempfile.TemporaryFile(dir=self.work)

        def pre():
            os.setsid()
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        p = subprocess.Popen(cmd, cwd=self.work, env=env, stdout=subprocess.DEVNULL, stderr=err, preexec_fn=pre)
        with self.lock:
            self.procs.add(p)
        last, size = time.time(), -1
        rc = None
        while rc is None:
            try:
                rc = p.wait(0.3)
            except subprocess.TimeoutExpired:
                s = os.path.getsize(trace)
                if s != size:
                    last, size = time.time(), s
                elif time.time() - last > stall:
                    rc = "stall"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        with self.lock:
            self.procs.discard(p)
        err.seek(0)
        text = err.read().decode("utf-8", "replace")
        return rc, text

    # -- the judge ---------------------------------------------------------------------
    def judge(self, family, trace):
        with open(trace) as f:
            lines = [l for l in f if l.strip()]
        if not lines:
            raise CheckError("family %s recorded nothing" % family)
        total = sum(map(len, lines))
        k = max(1, min(8, len(lines), total // 400000 + 1))
        shards = [[] for _ in range(k)]
        load = [0] * k
        for l in sorted(lines, key=len, reverse=True):
            i = load.index(min(load))
            shards[i].append(l)
            load[i] += len(l)
        steps, ops, queries = 0, {}, 0
        digest = set()
        for l in lines:
            sc = json.loads(l)
            steps += len(sc["steps"])
            for s in sc["steps"]:
                ops[s["op"]] = ops.get(s["op"], 0) + 1
                queries += len(s.get("q", ()))
                digest.add(hash(json.dumps({k: v for k, v in s.items() if k not in ("h", "d", "t")}, sort_keys=True)))
        c = self.cover["families"]
        with self.lock:
            c[family] = {"scenarios": len(lines), "steps": steps, "calls": ops, "answers": queries, "distinct_steps": len(digest)}
            sample = json.loads(min((l for l in lines[:40]), key=lambda l: abs(len(l) - 1500)))
            self.samples.append(sample if len(json.dumps(sample)) < 6000 else {"sid": sample["sid"], "tag": sample["tag"], "steps": [s["op"] for s in sample["steps"]]})
        jobs = []
        for i, sh in enumerate(shards):
            path = "%s.%d" % (trace, i)
            with open(path, "w") as f:
                f.writelines(sh)
            jobs.append(self.pool.submit(self.judge_shard, family, path, len(sh)))
        return jobs

    def judge_shard(self, family, path, n):
        cfg = "SPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
        rc, out, err = self.tlc("UipTrace", cfg, 1, 850 if self.tier == "quick" else 3000, env={"UIP_TRACE": path})
        bads, done = printed(out, "BAD"), printed(out, "DONE")
        for b in bads:
            b["trace"] = path
            b["driver_family"] = family
        self.bads += bads
        if rc != 0 or len(done) != 1 or done[0]["scenarios"] != n:
            raise CheckError("judging %s: TLC exit %s\n%s\n%s\n%s" % (path, rc, "\n".join(re.findall(r"(?m)^Error: .*(?:\n.*){0,6}", out))[:1500], out[-1500:], err[-500:]))
        g = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        with self.lock:
            self.cover["judge_states"] = self.cover.get("judge_states", 0) + int(g.group(2))

    # -- all of it ------------------------------------------------------------------------
    def decide(self):
        plan = PLAN[self.prop]
        fams = [f for f in plan["families"] if self.tier == "thorough" or not FAMILIES[f].get("thorough_only")]
        self.pool = ThreadPoolExecutor(8)
        side = ThreadPoolExecutor(6)
        models = [side.submit(self.model, m) for m in plan["models"]]
        gens = sorted({FAMILIES[f]["gen"] for f in fams if "gen" in FAMILIES[f]})
        genjobs = {g: side.submit(self.gen, g) for g in gens}
        races = {bool(FAMILIES[f].get("race")) for f in fams}
        drv = {}
        for r in races:
            drv[r] = self.build(r)
        self.tools = {}
        for t in sorted({t for f in fams for t in FAMILIES[f].get("tools", [])}):
            import tools_build
            self.tools[t] = tools_build.build(t, self)
        self.scens = {g: j.result() for g, j in genjobs.items()}
        dpool = ThreadPoolExecutor(8)
        runs = {f: dpool.submit(self.drive, drv[bool(FAMILIES[f].get("race"))], f, i) for i, f in enumerate(fams)}
        jobs = []
        for f in fams:
            self.tried(lambda: jobs.extend(self.judge(f, runs[f].result())))
        for j in jobs + models:
            self.tried(j.result)

    def tried(self, f):
        """What one part cannot answer does not hide what another part found."""
        try:
            f()
        except CheckError as e:
            self.errors.append(e)

    def finish(self):
        for p in list(self.procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass
        shutil.rmtree(self.work, ignore_errors=True)


def known():
    ret = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) tag=(\S+) msg=(.*?) :: (.*)", l.strip())
            if m:
                ret.append(m.groups())
    return ret


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    c = Check(prop, tier, seed)
    rc = 2
    try:
        c.decide()
        if c.errors and not any(prop in b["props"] for b in c.bads):
            raise c.errors[0]
        for e in c.errors:
            log("CHECK ERROR:", e)
        broken = [b for b in c.bads if "SPEC" in b["props"]]
        if broken:
            raise CheckError("the specification contradicts itself: %s" % broken[0])
        mine = [b for b in c.bads if prop in b["props"]]
        others = [b for b in c.bads if prop not in b["props"]]
        kn = known()
        new = []
        seen = set()
        for b in mine:
            hit = None
            for p, tag, msg, what in kn:
                if p == prop and tag == b["tag"] and re.search(msg, b["msg"]):
                    hit = what
            if hit:
                if hit not in seen:
                    print("KNOWN-FINDING: property=%s %s" % (prop, hit))
                seen.add(hit)
            else:
                new.append(b)
        for b in others[:3]:
            log("note: also seen, for", b["props"], b["msg"][:300])
        rc = 0
        if new:
            b = new[0]
            d = os.path.join(HERE, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s.json" % prop)
            line = [l for l in open(b["trace"]) if json.loads(l)["sid"] == b["sid"]][0]
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier, "family": b["driver_family"], "scenario": b["sid"], "step": b["step"],
                           "message": b["msg"], "all": [[x["driver_family"], x["sid"], x["step"], x["msg"][:500]] for x in new[:50]],
                           "recorded": json.loads(line)}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            for x in new[:5]:
                print("  ", x["driver_family"], x["tag"], "scenario", x["sid"], "step", x["step"], ":", x["msg"][:400])
            rc = 1
        cov = c.cover
        n = sum(f["scenarios"] for f in cov["families"].values())
        ev = {"property": prop, "tier": tier, "seed": seed, "level": PLAN[prop].get("level", "model_checking"),
              "coverage": {"states": cov["states"] + cov.get("judge_states", 0), "transitions": cov["transitions"], "traces_validated_against_impl": n,
                           "evaluations": sum(f["steps"] + f["answers"] for f in cov["families"].values()),
                           "distinct_nontrivial": sum(f["distinct_steps"] for f in cov["families"].values()),
                           "rule": "a case is one recorded call of the real code with arguments and result (a query step holds many answers); distinct by operation, arguments and result, handles ignored",
                           "models": cov["models"], "generated": cov.get("generated", {}), "families": cov["families"], "samples": c.samples[:3]},
              "assumptions": PLAN[prop].get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(new)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log("%s %s: %d traces, %d states, %.1f s" % (prop, tier, n, ev["coverage"]["states"], time.time() - t0))
    except CheckError as e:
        rc = 2
        log("CHECK ERROR:", e)
    except BaseException:
        rc = 2
        import traceback
        log("CHECK ERROR:", traceback.format_exc())
    finally:
        c.finish()
    sys.exit(rc)


if __name__ == "__main__":
    main()
