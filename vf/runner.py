#!/usr/bin/env python3
"""Decides one property: builds the drivers from /repo's working tree, model
checks the specification, records traces of the real code (including replays of
behaviours that TLC generated from the specification) and has TLC decide whether
each trace is a behaviour of the specification.

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the check itself could not give an answer."""
import concurrent.futures as cf
import hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "vf"))
import props  # noqa: E402

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8


class CheckError(Exception):
    pass


# ------------------------------------------------------------------ building
CONFIGS = {
    # name: (use_intrinsics, use_popcnt, flags, link flags, malloc_perturb)
    "ref":   (1, 0, ["-O2"], [], None),
    "ndpop": (1, 1, ["-O2", "-DNDEBUG", "-msse4.2"], [], "165"),
    "port":  (0, 0, ["-O1"], [], "90"),
    "pop":   (1, 1, ["-O2", "-msse4.2"], [], "60"),
    "portnd": (0, 0, ["-O2", "-DNDEBUG"], [], "129"),
    "o3":    (1, 0, ["-O3", "-DNDEBUG"], [], "255"),
    "clang": (1, 0, ["-O2"], [], "17"),
    "asan":  (1, 0, ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-g1"], ["-fsanitize=address"], None),
    "tsan":  (1, 0, ["-O1", "-fsanitize=thread", "-g1"], ["-fsanitize=thread"], None),
}


class Job:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.cfg = props.PROPS[prop]
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", "%s-%d" % (prop, os.getpid()))
        self.stats = {"states": 0, "transitions": 0, "traces": 0, "events": 0, "models": [], "generated": 0,
                      "selftests": 0, "samples": [], "configs": [], "unique_logs": 0, "logs": 0, "scenarios": 0}
        self.violations = []
        self.hung = False    # a driver run timed out twice
        self.noanswer = []   # runs that gave no answer; matters only when no other run shows a violation

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # -- sources
    def copy_sources(self):
        src = os.path.join(self.work, "src", "succinct")
        os.makedirs(src)
        for f in sorted(os.listdir(REPO)):
            p = os.path.join(REPO, f)
            if not os.path.isfile(p) or f == "succinct_config.hpp" or f.startswith("test_"):
                continue
            if f.endswith((".hpp", ".h", ".cpp", ".ipp", ".tcc", ".inl")):
                shutil.copy(p, src)
        # also header directories a change may have introduced
        for d in sorted(os.listdir(REPO)):
            p = os.path.join(REPO, d)
            if os.path.isdir(p) and d not in (".git", "_build", "perftest", "build") and not d.startswith("."):
                shutil.copytree(p, os.path.join(src, d), dirs_exist_ok=True)
        self.lib_cpp = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".cpp")]
        self.src = os.path.join(self.work, "src")

    def build(self, names, sources):
        """compile driver + library once per configuration, in parallel"""
        jobs = []
        for name in names:
            intr, pop, fl, ld, _ = CONFIGS[name]
            cdir = os.path.join(self.work, "cfg", name)
            os.makedirs(cdir, exist_ok=True)
            with open(os.path.join(cdir, "succinct_config.hpp"), "w") as f:
                f.write("#pragma once\n#define SUCCINCT_USE_LIBCXX 0\n"
                        "#define SUCCINCT_USE_INTRINSICS %d\n#define SUCCINCT_USE_POPCNT %d\n" % (intr, pop))
            cxx = "clang++" if name == "clang" else "g++"
            for s in sources + self.lib_cpp:
                o = os.path.join(cdir, os.path.basename(s) + ".o")
                cmd = [cxx, "-c", "-w", "-I", cdir, "-I", self.src, "-I", os.path.join(self.src, "succinct"),
                       "-I", HARNESS] + fl + self.cfg.get("cxxflags", []) + ["-o", o, s]
                jobs.append((name, cmd, o))
        objs = {}
        errs = []
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = {ex.submit(subprocess.run, c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True): (n, c, o)
                    for n, c, o in jobs}
            for fu in cf.as_completed(futs):
                n, c, o = futs[fu]
                r = fu.result()
                if r.returncode:
                    errs.append((c, r.stdout))
                objs.setdefault(n, []).append(o)
        if errs:
            c, out = errs[0]
            raise CheckError("compilation failed: %s\n%s" % (" ".join(c), out[-4000:]))
        bins = {}
        for n in names:
            b = os.path.join(self.work, "cfg", n, "driver")
            cxx = "clang++" if n == "clang" else "g++"
            cmd = [cxx] + CONFIGS[n][3] + ["-o", b] + sorted(objs[n]) + self.cfg.get("libs", []) + \
                ["-lboost_iostreams", "-lboost_filesystem", "-lboost_system", "-lpthread"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise CheckError("link failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
            bins[n] = b
        return bins

    # -- TLC
    def tlc(self, module, cfgfile, env=None, workers=1, timeout=600, heap="2500m", extra=(), tag=""):
        meta = os.path.join(self.work, "tlc", "%s-%s-%d" % (module, tag, random.getrandbits(40)))
        os.makedirs(meta)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + os.path.join(self.work, "tlc"), "-cp", CP, "tlc2.TLC", "-config", os.path.join(SPEC, cfgfile),
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"] + list(extra) + \
            [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        rc, out = self.run(cmd, timeout, env=e, cwd=meta)
        shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    def run(self, cmd, timeout, env=None, cwd=None, limit=None):
        def pre():
            os.setsid()
            if limit:
                resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             env=env, cwd=cwd, preexec_fn=pre)
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            return "timeout", out.decode("utf-8", "replace")

    def model_check(self, m):
        """m: dict(module, cfg, workers, expect)"""
        t = time.time()
        cfg = m["cfg"]
        if "text" in m:  # configuration written here: constants of a (possibly deliberately broken) variant
            d = os.path.join(self.work, "mc")
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, cfg), "w") as f:
                f.write(m["text"])
            cfg = os.path.join(d, cfg)
        rc, out = self.tlc(m["module"], cfg, workers=m.get("workers", 4), timeout=m.get("timeout", 800),
                           heap=m.get("heap", "4g"), tag="mc", env=m.get("env"))
        mm = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m.get("expect", "ok") == "ok":
            if rc != 0 or "No error has been found" not in out:
                raise CheckError("model %s/%s failed (rc=%s)\n%s" % (m["module"], m["cfg"], rc, out[-3000:]))
        else:  # a deliberately broken variant of the model must be refuted
            if not re.search(m["expect"], out):
                raise CheckError("broken model %s/%s was not refuted (rc=%s)\n%s" % (m["module"], m["cfg"], rc, out[-3000:]))
        gen, dist = (int(mm[-1][0]), int(mm[-1][1])) if mm else (0, 0)
        self.stats["states"] += dist
        self.stats["transitions"] += gen
        self.stats["models"].append({"module": m["module"], "cfg": m["cfg"], "states": dist, "generated": gen,
                                     "expect": m.get("expect", "ok"), "s": round(time.time() - t, 1)})

    # -- behaviours generated by TLC from the specification
    def generate(self, g, idx):
        """Runs a generator module in simulation mode; every line 'GEN <text>' it prints is one behaviour."""
        n = g["num"][self.tier]
        cache = os.environ.get("VF_FAST") and "/tmp/vf-gen-%s-%d" % (g["module"], idx)
        if cache and os.path.exists(cache):
            return open(cache).read().split("\n")[:-1]
        par = g.get("par", 4)
        outs = []
        with cf.ThreadPoolExecutor(par) as ex:
            fs = [ex.submit(self.tlc, g["module"], g["cfg"], env=g.get("env"), timeout=400, tag="gen%d" % k,
                            extra=["-simulate", "num=%d" % max(1, n // par), "-depth", str(g["depth"]),
                                   "-seed", str(self.seed * 1000 + idx * 100 + k)])
                  for k in range(par)]
            for f in fs:
                rc, out = f.result()
                lines = [json.loads(x[len('"GEN '):-1].encode().decode("unicode_escape")) if False else x
                         for x in out.splitlines() if x.startswith('"GEN ')]
                if rc not in (0,) or not lines:
                    raise CheckError("generator %s failed rc=%s\n%s" % (g["module"], rc, out[-3000:]))
                outs += [x[5:-1].replace('\\"', '"') for x in lines]
                mm = re.findall(r"(\d+) states generated", out.replace(",", ""))
                if mm:
                    self.stats["transitions"] += int(mm[-1])
        if cache:
            with open(cache, "w") as f:
                f.write("".join(x + "\n" for x in outs))
        return outs

    # -- driver
    def drive(self, name, binary, shard, nshards, out, extra, timeout):
        scratch = out + ".d"
        os.makedirs(scratch, exist_ok=True)
        env = dict(os.environ)
        mp = CONFIGS[name][4]
        if mp:
            env["MALLOC_PERTURB_"] = mp
        env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:max_allocation_size_mb=4000:"
                               "hard_rss_limit_mb=3500:handle_abort=0:detect_stack_use_after_return=0")
        env["TSAN_OPTIONS"] = "exitcode=98:halt_on_error=0:second_deadlock_stack=0"
        cmd = [binary, "--seed", str(self.seed), "--tier", self.tier, "--shard", str(shard), "--nshards", str(nshards),
               "--out", out, "--scratch", scratch] + extra
        lim = None if name in ("asan", "tsan") else (self.cfg.get("huge_limit", 10) << 30) if "huge" in extra else (3 << 30)
        rc, txt = self.run(cmd, timeout, env=env, limit=lim)
        shutil.rmtree(scratch, ignore_errors=True)
        return rc, txt

    def record(self, name, binary, shard, nshards, extra, tag):
        out = os.path.join(self.work, "log", "%s-%s-%d.ndjson" % (name, tag, shard))
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if self.hung:  # another run is confirmed to hang: that verdict does not wait for the same of every other run
            return None
        tmo = (330 if "huge" in extra else 150) if self.tier == "quick" else 900
        rc, txt = self.drive(name, binary, shard, nshards, out, extra, tmo)
        if rc == 0 and self.complete(out):
            return out
        if rc == 3:
            raise CheckError("driver could not run: %s" % txt[-2000:])
        # confirm: the same deterministic run once more
        rc2, txt2 = self.drive(name, binary, shard, nshards, out, extra, tmo)
        if rc2 == 0 and self.complete(out):
            self.log("note: driver %s shard %d ended with %s once and then succeeded" % (name, shard, rc))
            if rc in (-9, "timeout"):
                return out
            # a failure that comes and goes is still a failure of the code (e.g. a race, uninitialised memory)
            if rc in (98,) or (isinstance(rc, int) and rc < 0):
                rc3 = [self.drive(name, binary, shard, nshards, out, extra, tmo)[0] for _ in range(3)]
                if all(r == 0 for r in rc3):
                    return out
                rc2, txt2 = rc, txt
        if rc2 == -9:
            self.noanswer.append("driver was killed (memory?): %s" % txt2[-1000:])
            return None
        if rc2 == "timeout":
            self.hung = True
        self.append_crash(out, rc2, txt2)
        return out

    @staticmethod
    def complete(out):
        try:
            with open(out, "rb") as f:
                f.seek(0, 2)
                n = f.tell()
                f.seek(max(0, n - 64))
                return f.read().endswith(b'{"e":"end"}\n')
        except OSError:
            return False

    def append_crash(self, out, rc, txt):
        data = b""
        if os.path.exists(out):
            data = open(out, "rb").read()
        keep = data[:data.rfind(b"\n") + 1]
        # sanitizers that let the run finish (TSan) report through the exit code
        if keep.endswith(b'{"e":"end"}\n'):
            keep = keep[:-len(b'{"e":"end"}\n')]
        why = {"timeout": "no answer in time", 99: "AddressSanitizer report", 98: "ThreadSanitizer report"}.get(rc, "ended with %s" % rc)
        m = re.search(r"(ERROR: AddressSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|Assertion[^\n]*|terminate called[^\n]*\n?[^\n]*)", txt)
        detail = (m.group(1) + " ... " if m else "") + txt[-600:]
        line = json.dumps({"e": "crash", "why": why, "detail": "".join(c for c in detail if 32 <= ord(c) < 127)}, separators=(",", ":"))
        with open(out, "wb") as f:
            f.write(keep + line.encode() + b"\n")

    def record_all(self, bins, cfgs, gen_args):
        modes = self.cfg.get("modes", [{}])
        logs = {}
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = {}
            for mode in modes:
                if mode.get("tier") and mode["tier"] != self.tier:
                    continue
                ns = mode.get("nshards", self.cfg.get("nshards", NPROC))
                extra = gen_args + (["--mode", mode["mode"]] if mode.get("mode") else [])
                for n in cfgs:
                    if mode.get("configs") and n not in mode["configs"]:
                        continue
                    if n in mode.get("not_configs", ()):
                        continue
                    for s in range(ns):
                        futs[ex.submit(self.record, n, bins[n], s, ns, extra, mode.get("mode") or "main")] = n
            for fu in cf.as_completed(futs):
                p = fu.result()
                if p is None:
                    continue
                h = hashlib.sha256(open(p, "rb").read()).hexdigest()
                self.stats["logs"] += 1
                if h in logs:
                    logs[h][1].append(futs[fu])
                    os.remove(p)
                else:
                    logs[h] = [p, [futs[fu]]]
        return logs

    # -- one trace of all build variants: per shard, scenario by scenario
    def merge_phases(self, bins, cfgs, gen_args):
        ns = self.cfg.get("nshards", NPROC)
        shared = os.path.join(self.work, "shared")
        os.makedirs(shared)
        got = {}
        for phase in self.cfg["phases"]:
            with cf.ThreadPoolExecutor(NPROC) as ex:
                futs = {}
                for n in cfgs:
                    os.makedirs(os.path.join(shared, n), exist_ok=True)
                    for s in range(ns):
                        extra = gen_args + ["--mode", phase, "--shared", shared, "--variant", n]
                        futs[ex.submit(self.record, n, bins[n], s, ns, extra, phase)] = (phase, n, s)
                for fu in cf.as_completed(futs):
                    got[futs[fu]] = fu.result()
        out = {}
        for s in range(ns):
            order, evs = [], {}
            for phase in self.cfg["phases"]:
                for n in cfgs:
                    cur = None
                    if got[(phase, n, s)] is None:
                        continue
                    with open(got[(phase, n, s)]) as f:
                        for x in f:
                            if x.startswith('{"e":"end"'):
                                continue
                            if x.startswith('{"e":"sc"'):
                                cur = x
                                if cur not in evs:
                                    evs[cur] = []
                                    order.append(cur)
                            else:
                                evs.setdefault(cur or "", []).append(x)
                                if cur is None and "" not in order:
                                    order.append("")
                    os.remove(got[(phase, n, s)])
            p = os.path.join(self.work, "log", "all-%d.ndjson" % s)
            with open(p, "w") as f:
                for k in order:
                    f.write(k)
                    f.writelines(evs[k])
                f.write('{"e":"end"}\n')
            self.stats["logs"] += len(cfgs) * len(self.cfg["phases"])
            out[p] = [p, list(cfgs)]
        shutil.rmtree(shared, ignore_errors=True)
        return out

    # -- deciding a trace
    def decide(self, trace, module=None, timeout=None):
        """-> None if accepted, else dict(line=, why=)"""
        module = module or self.cfg["trace"]
        timeout = timeout or (400 if self.tier == "quick" else 3000)
        rc, out = self.tlc(module, self.cfg.get("trace_cfg", "Trace.cfg"), env={"VF_TRACE": trace}, timeout=timeout,
                           heap=self.cfg.get("heap", "3200m"), tag="tr")
        if rc == 0 and "No error has been found" in out and "TRACE-REJECTED" not in out:
            mm = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
            return {"ok": True, "states": int(mm[-1][1]) if mm else 0, "transitions": int(mm[-1][0]) if mm else 0}
        m = re.search(r"TRACE-REJECTED\D+(\d+)", out)
        if m:
            ck = re.findall(r'CHECK-FAILED[^"]*", "([^"]*)"', out)
            return {"ok": False, "line": int(m.group(1)), "why": "check failed: " + (", ".join(dict.fromkeys(ck)) or "no action of the specification allows this event")}
        if rc == "timeout" or re.search(r"OutOfMemory|StackOverflow|Java heap|java.io.IOException|SANY|Parse|parse", out):
            raise CheckError("TLC gave no answer on %s (rc=%s)\n%s" % (trace, rc, out[-3000:]))
        ls = re.findall(r"/?\\? ?l = (\d+)", out)
        return {"ok": False, "line": int(ls[-1]) if ls else 1, "why": "evaluation error on the recorded event: " + out[-600:].replace("\n", " ")}

    def judge(self, log, names):
        r = self.decide(log)
        if not r["ok"]:
            r2 = self.decide(log)
            if r2["ok"]:
                raise CheckError("TLC verdict on %s is not stable" % log)
        return r, log, names

    def save_replay(self, log, r, names):
        d = os.path.join(VERIF, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        lines = open(log).read().split("\n")
        k = min(r["line"], len([x for x in lines if x]))
        a = k - 1
        while a > 0 and not lines[a].startswith('{"e":"sc"'):
            a -= 1
        path = os.path.join(d, "%s-%d.ndjson" % (os.path.basename(log).replace(".ndjson", ""), k))
        with open(path, "w") as f:
            f.write("\n".join(lines[a:k]) + "\n")
        ev = lines[k - 1]
        with open(path + ".txt", "w") as f:
            f.write("property %s\nbuild variants %s\ntrace module %s\nrejected line %d of %s (last line of %s)\nreason: %s\n"
                    "seed %d tier %s\njudge again: cd /verif && VF_TRACE=%s bin/judge %s\nevent: %s\n" %
                    (self.prop, ",".join(names), self.cfg["trace"], k, os.path.basename(log), path, r["why"],
                     self.seed, self.tier, path, self.cfg["trace"], ev[:3000]))
        return path, ev

    # -- the binding itself is tested: a corrupted observation must be rejected
    def selftest(self, log):
        rnd = random.Random(self.seed * 7 + 1)
        byname = {}
        size = 0
        lines = open(log).read().split("\n")
        start = 0
        for i, x in enumerate(lines):
            if x.startswith('{"e":"sc"'):
                start = i
                size = 0
            size += len(x)
            if re.search(r'"o[A-Z]\w*":', x) and len(x) < 200000 and size < 2000000:
                e = re.match(r'\{"e":"(\w+)"', x).group(1)
                byname.setdefault(e, []).append((start, i))
        todo = []
        for e, occ in sorted(byname.items()):
            rnd.shuffle(occ)
            made = 0
            for (a, i) in occ:
                ev = json.loads(lines[i])
                mut = self.mutate(ev, rnd)
                if mut is None:
                    continue
                key, ev = mut
                p = os.path.join(self.work, "log", "self-%s-%d.ndjson" % (e, len(todo)))
                with open(p, "w") as f:
                    f.write("\n".join(lines[a:i]) + "\n" + json.dumps(ev, separators=(",", ":")) + "\n")
                todo.append((e, key, p, i - a + 1))
                made += 1
                if made >= self.cfg.get("selftests_per_event", 3):
                    break
        rnd.shuffle(todo)
        todo = todo[:self.cfg.get("selftests", 8) if self.tier == "quick" else 24]

        def one(t):
            return t, self.decide(t[2])
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for t, r in ex.map(one, todo):
                if r["ok"] or r["line"] != t[3]:
                    raise CheckError("self-test: corrupting %s of event %s was not rejected at its line (%s)" % (t[1], t[0], r))
        self.stats["selftests"] = len(todo)
        return len(todo)

    def mutate(self, ev, rnd):
        un = self.cfg.get("unjudged", ())  # learnt on first use, so one corrupted observation alone is consistent
        keys = [k for k in ev if re.match(r"o[A-Z]", k) and k not in un and "%s.%s" % (ev["e"], k) not in un]
        rnd.shuffle(keys)
        for k in keys:
            paths = []

            def walk(v, path):
                if isinstance(v, bool):
                    return
                if isinstance(v, int):
                    paths.append(path)
                elif isinstance(v, list):
                    for j, x in enumerate(v[:3000]):
                        walk(x, path + [j])
            walk(ev[k], [])
            if not paths:
                continue
            p = rnd.choice(paths)
            if not p:
                v = ev[k]
                ev[k] = 1 - v if v in (0, 1) else v + 1
            else:
                t = ev[k]
                for j in p[:-1]:
                    t = t[j]
                v = t[p[-1]]
                t[p[-1]] = 1 - v if v in (0, 1) else v + 1
            return k, ev
        return None

    # -- everything
    def main(self):
        c = self.cfg
        known = known_findings(self.prop)
        os.makedirs(self.work)
        self.copy_sources()
        cfgs = c.get("configs_thorough", c["configs"]) if self.tier == "thorough" else c["configs"]
        fast = os.environ.get("VF_FAST")  # for trying many changes: these variants only, no models, no self-test
        if fast:
            cfgs = [x for x in cfgs if x in fast.split(",")]
        self.stats["configs"] = cfgs
        pool = cf.ThreadPoolExecutor(4)
        models = c.get("models", []) + (c.get("models_thorough", []) if self.tier == "thorough" else [])
        if fast:
            models = []
        fb = pool.submit(self.build, cfgs, [os.path.join(HARNESS, s) for s in c["harness"]])
        fgen = []
        for i, g in enumerate(c.get("gens", [])):
            fgen.append((g, pool.submit(self.generate, g, i)))
        gen_args = []
        if fgen:
            gp = os.path.join(self.work, "gen.txt")
            with open(gp, "w") as f:
                for g, fu in fgen:
                    b = fu.result()
                    self.stats["generated"] += len(b)
                    for x in b:
                        f.write(x + "\n")
            gen_args = ["--gen", gp]
            self.log("generated %d behaviours from the specification" % self.stats["generated"])
        bins = fb.result()
        self.log("built", ", ".join(cfgs))
        # models run while drivers record
        fmod = [pool.submit(self.model_check, m) for m in models]
        if c.get("phases"):
            logs = self.merge_phases(bins, cfgs, gen_args)
        else:
            logs = self.record_all(bins, cfgs, gen_args)
        self.stats["unique_logs"] = len(logs)
        self.log("recorded %d logs, %d distinct, %.1f MB" %
                 (self.stats["logs"], len(logs), sum(os.path.getsize(v[0]) for v in logs.values()) / 1e6))
        for f in fmod:
            f.result()
        self.log("models:", "; ".join("%s/%s %d states" % (m["module"], m["cfg"], m["states"]) for m in self.stats["models"]) or "none")
        order = sorted(logs.values(), key=lambda v: -os.path.getsize(v[0]))
        rejected = []
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for r, p, names in ex.map(lambda v: self.judge(v[0], v[1]), order):
                with open(p) as f:
                    nev = sum(1 for _ in f)
                self.stats["events"] += nev
                if r["ok"]:
                    self.stats["traces"] += 1
                    self.stats["states"] += r["states"]
                    self.stats["transitions"] += r["states"] - 1
                else:
                    rejected.append((r, p, names))
        nsc = 0
        for v in order:
            with open(v[0]) as f:
                for x in f:
                    if x.startswith('{"e":"sc"'):
                        nsc += 1
        self.stats["scenarios"] = nsc
        self.log("judged %d traces, %d events, %d scenarios" % (len(order), self.stats["events"], nsc))
        for r, p, names in rejected[:12]:
            if len(self.violations) >= 3:
                break
            path, ev = self.save_replay(p, r, names)
            k = match_known(known, ev, r)
            if k:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k), flush=True)
                continue
            self.violations.append(path)
            print("rejected: variants %s: %s" % (",".join(names), r["why"][:500]), flush=True)
            print("   event:", ev[:400], flush=True)
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        if not rejected and self.noanswer:
            raise CheckError(self.noanswer[0])
        if not rejected and not fast:
            small = min(order, key=lambda v: abs(os.path.getsize(v[0]) - 3e6))
            n = self.selftest(small[0])
            self.log("self-test: %d corrupted observations, all rejected" % n)
            with open(small[0]) as f:
                for i, x in enumerate(f):
                    if not x.startswith(('{"e":"sc"', '{"e":"end"')) and (len(x) < 900 or i > 3000):
                        self.stats["samples"].append(x.strip()[:900])
                        if len(self.stats["samples"]) >= 4:
                            break
                if not self.stats["samples"]:
                    self.stats["samples"].append(open(small[0]).readline()[:700])
        pool.shutdown()

    def evidence(self):
        s = self.stats
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": s["states"], "transitions": s["transitions"],
                           "traces_validated_against_impl": s["traces"],
                           "trace_events_judged": s["events"], "scenarios_executed": s["scenarios"],
                           "driver_logs_recorded": s["logs"], "distinct_logs": s["unique_logs"],
                           "behaviours_generated_by_tlc": s["generated"], "build_variants": s["configs"],
                           "models": s["models"], "corrupted_traces_rejected": s["selftests"],
                           "samples": s["samples"] or ["(rejected run: see replay)"]},
              "assumptions": self.cfg.get("assumptions", []),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for x in open(p):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", x.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def match_known(known, ev, r):
    for rx, what in known:
        if re.search(rx, ev):
            return what
    return None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    j = Job(prop, tier, seed)
    try:
        j.main()
        j.evidence()
        rc = 1 if j.violations else 0
        j.log("%s %s: %s" % (prop, tier, "VIOLATED" if rc else "held"))
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e), flush=True)
        rc = 1 if j.violations else 2
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(j.work, ignore_errors=True)
            try:
                os.rmdir(os.path.join(VERIF, ".work"))
            except OSError:
                pass
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
