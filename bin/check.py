#!/usr/bin/env python3
"""Driver of one check:  check.py <property> [--tier quick|thorough] [--replay FILE] [--repo DIR]

Builds the library from the repository's working tree (content-addressed object cache under
/verif/build, never under the repository), builds the harness, explores the harness's choice space in
shards, replays every reported violation in a fresh process before believing it, writes
evidence/<property>.json and prints VIOLATION / KNOWN-FINDING lines.

exit 0: the property held on everything explored;  1: VIOLATION printed;  2: the check itself failed.
"""
import sys, os, json, hashlib, subprocess, time, struct, glob, signal, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
from props import CHECKS
BUILD = os.path.join(VERIF, "build")
JOBS = min(8, os.cpu_count() or 8)

def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)

def sha(*parts):
    h = hashlib.sha256()
    for x in parts:
        h.update(x if isinstance(x, bytes) else x.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def read(p):
    with open(p, "rb") as f: return f.read()

class Builder:
    def __init__(self, repo, spec):
        self.repo, self.spec = repo, spec
        self.cache = os.path.join(BUILD, "cache"); os.makedirs(self.cache, exist_ok=True)
        self.bin = os.path.join(BUILD, "bin"); os.makedirs(self.bin, exist_ok=True)
        hdr = sorted(glob.glob(repo + "/include/**/*", recursive=True))
        self.hdr_key = sha(*[x for p in hdr if os.path.isfile(p) for x in (os.path.relpath(p, repo), read(p))])
        self.priv_key = sha(*[x for p in sorted(glob.glob(repo + "/source/*.h*")) for x in (p, read(p))])
        self.har_key = sha(*[x for p in sorted(glob.glob(VERIF + "/harness/*.hpp")) for x in (p, read(p))])

    BASE = ["-std=c++17", "-DEIGEN_NO_DEBUG", "-DMINI_OPT_SERIALIZATION", "-DMINI_OPT_TRACING", "-DFMT_HEADER_ONLY",
            "-w", "-isystem", "/usr/include/eigen3"]

    def compile(self, src, cxx, flags, extra_key):
        # the path of the repository is part of __FILE__ in assertion messages only
        key = sha(read(src), cxx, " ".join(flags).replace(self.repo, "@"), self.hdr_key, self.priv_key, extra_key, os.path.basename(src))
        out = os.path.join(self.cache, key + ".o")
        if os.path.exists(out):
            os.utime(out); return out, 0.0
        t = time.time()
        tmp = "%s.%d.tmp" % (out, os.getpid())
        r = subprocess.run([cxx, "-c", src, "-o", tmp] + flags, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise RuntimeError("compiling %s failed:\n%s" % (src, r.stdout[-3000:]))
        os.replace(tmp, out)
        return out, time.time() - t

    def build(self):
        s = self.spec
        cxx = s.get("cxx", "g++")
        inc = ["-I", self.repo + "/include", "-I", self.repo + "/source"]
        base = [f for f in self.BASE if f not in s.get("drop", [])]
        lib_flags = base + inc + s.get("opt", ["-O1"]) + s.get("lib_flags", [])
        har_flags = base + inc + ["-I", VERIF + "/harness"] + s.get("har_opt", s.get("opt", ["-O1"])) + s.get("har_flags", [])
        allsrc = sorted(glob.glob(self.repo + "/source/**/*.cc", recursive=True) + glob.glob(self.repo + "/source/**/*.cpp", recursive=True))
        need = s.get("sources")
        first = [p for p in allsrc if os.path.splitext(os.path.basename(p))[0] in need] if need is not None else allsrc
        har = [os.path.join(VERIF, "harness", h) for h in s["harness"]]
        def job(p, is_h):
            if is_h:
                fl = s.get("rt_flags", {}).get(os.path.basename(p), har_flags)
                if fl is not har_flags: fl = self.BASE + inc + ["-I", VERIF + "/harness"] + fl
                return self.compile(p, cxx, fl, self.har_key)[0]
            return self.compile(p, cxx, lib_flags, "lib")[0]
        def objs(lib):
            work = [(p, False) for p in lib] + [(p, True) for p in har]
            work.sort(key=lambda w: 0 if "qp" in os.path.basename(w[0]) else 1)
            with ThreadPoolExecutor(JOBS) as ex:
                return list(ex.map(lambda w: job(*w), work))
        def link(o):
            out = os.path.join(self.bin, s["harness"][0].rsplit(".", 1)[0] + "-" + sha(*sorted(o), *s.get("link", []), cxx))
            if os.path.exists(out): os.utime(out); return out
            tmp = out + ".%d.tmp" % os.getpid()
            r = subprocess.run([cxx, "-o", tmp] + o + s.get("link", []) + ["-lpthread", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0: raise RuntimeError("link failed:\n" + r.stdout[-3000:])
            os.replace(tmp, out)
            return out
        try:
            return link(objs(first))
        except RuntimeError as e:
            if set(first) == set(allsrc) or "link failed" not in str(e): raise
            return link(objs(allsrc))

    def prune(self):
        for d, keep in ((self.cache, 160), (self.bin, 40)):
            fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=lambda p: -os.path.getmtime(p))
            for p in fs[keep:]:
                try: os.remove(p)
                except OSError: pass

def read_cur(path):
    try: raw = read(path)
    except OSError: return [], 0
    if len(raw) < 8: return [], 0
    v = struct.unpack("%di" % (len(raw) // 4), raw)
    n = max(0, min(v[0], len(v) - 2))
    return list(v[1:1 + n]), v[-1]

def run_one(argv, out, cur, timeout, hang):
    """Run a harness process.  Returns (kind, detail): ok / hard / crash / hang / timeout."""
    for p in (out, cur):
        if os.path.exists(p): os.remove(p)
    err = out + ".err"
    with open(err, "wb") as ef:
        p = subprocess.Popen(argv + ["--out", out, "--cur", cur], stdout=ef, stderr=ef, start_new_session=True, env=ENV)
        t0 = time.time(); last = None; last_t = t0
        while True:
            try:
                rc = p.wait(timeout=0.05 if time.time() - t0 < 2 else 0.5); break
            except subprocess.TimeoutExpired: pass
            now = time.time()
            c = read_cur(cur)
            if c != last: last, last_t = c, now
            if now - last_t > hang or now - t0 > timeout:
                kind = "hang" if now - last_t > hang else "timeout"
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                p.wait()
                return kind, "no progress for %.0f s" % (now - last_t)
    txt = read(err).decode("utf8", "replace")
    if rc == 0 and os.path.exists(out): return "ok", txt
    if rc == 3: return "hard", txt[-2000:]
    return "crash", "exit %d: %s" % (rc, txt[-6000:])

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1"
ENV["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=87:print_stacktrace=0"

def crash_key(detail):
    import re
    m = re.search(r"ERROR: AddressSanitizer: ([a-zA-Z0-9_-]+)", detail)
    if m: return "asan:" + m.group(1)
    m = re.search(r"exit (-?\d+)", detail)
    return "crash:" + (m.group(1) if m else "?")

def load_known(pid):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s key=" % pid):
                rest = line.split("key=", 1)[1]
                key, _, what = rest.partition(" ")
                out[key] = what
    return out

def main():
    t0 = time.time()
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    repo = "/repo"; replay_file = None; opts = []; evid = True
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 2
        elif a[i] == "--repo": repo = a[i + 1]; i += 2
        elif a[i] == "--replay": replay_file = a[i + 1]; i += 2
        elif a[i] == "--no-evidence": evid = False; i += 1
        elif a[i] == "--opt": opts += ["--opt", a[i + 1]]; i += 2
        else: die("unknown argument " + a[i])
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[pid]
    # a check explores one or several choice spaces ("parts"), each with a harness of its own
    parts = [spec] + [dict(spec, **p) for p in spec.get("parts", [])]
    try:
        exes = []
        for p in parts: b = Builder(repo, p); exes.append(b.build())
    except RuntimeError as e:
        die(str(e))
    t_build = time.time() - t0
    work = tempfile.mkdtemp(prefix="mcwork-%s-" % pid, dir=BUILD)
    bases = [[x, "--prop", pid, "--tier", tier] + p.get("options", {}).get(tier, []) + opts for x, p in zip(exes, parts)]
    nshs = [p.get("shards", {}).get(tier, 8 if tier == "quick" else 32) for p in parts]
    where = [(q, k) for q in range(len(parts)) for k in range(nshs[q])]
    def replay_once(choices, tag, timeout=120, part=0):
        name = os.path.join(work, tag + ".choices")
        with open(name, "w") as f: f.write(",".join(map(str, choices)) + ",")
        return run_one(bases[part] + ["--replay", "@" + name], os.path.join(work, tag + ".json"), os.path.join(work, tag + ".cur"), timeout, timeout)
    try:
        if replay_file:
            rep = json.load(open(replay_file))
            part = rep.get("part", 0)
            base = bases[part]
            if rep.get("options"): base += [x for x in rep["options"] if x not in base]
            if rep.get("whole_shard"):
                o = os.path.join(work, "replay.json")
                kind, d = run_one(base + ["--shard", rep["whole_shard"], "--limit", "900"], o, os.path.join(work, "replay.cur"), 1000, 120)
            else:
                kind, d = replay_once(rep["choices"], "replay", part=part)
            if kind == "ok":
                r = json.load(open(os.path.join(work, "replay.json")))
                for x in r["reports"]: print("REPRODUCED property=%s key=%s\n%s" % (pid, x["key"], x["msg"]))
                if not r["reports"]: print("not reproduced")
                return 1 if r["reports"] else 0
            print(kind, d); return 1 if kind in ("crash", "hang") or "nondeterministic execution" in d else 2
        soft = spec.get("limit", {}).get(tier, 60 if tier == "quick" else 700)
        nsh = len(where)
        rounds = max(1, (nsh + JOBS - 1) // JOBS)
        per = soft / rounds if nsh > JOBS else soft
        results = {}
        t1 = time.time()
        def name_of(k): return "%d/%d" % (where[k][1], nshs[where[k][0]])
        def rerun_shard(k, tag):
            o = os.path.join(work, "%s%d.json" % (tag, k)); c = os.path.join(work, "%s%d.cur" % (tag, k))
            r = run_one(bases[where[k][0]] + ["--shard", name_of(k), "--limit", "%.1f" % (soft + 60)], o, c, soft + 180, spec.get("hang", 40))
            return r, (json.load(open(o)) if r[0] == "ok" else None), read_cur(c)[0]
        def shard(k):
            if sum(r[0] in ("crash", "hang") for r in list(results.values())) >= 4:
                return k, ("unexplored", ""), None  # the verdict is clear already and every further one costs a time-out
            # a later part keeps its own share of the time
            share = [p.get("share", {}).get(tier, 1.0 if len(parts) == 1 else 1.0 / len(parts)) for p in parts]
            left = soft * sum(share[:where[k][0] + 1]) / sum(share) - (time.time() - t1)
            done = sum(1 for _ in results)
            lim = max(2.0, left if nsh <= JOBS or tier == "quick" else max(per, left / max(1, ((sum(nshs[:where[k][0] + 1]) - done) + JOBS - 1) // JOBS)))
            o = os.path.join(work, "s%d.json" % k)
            c = os.path.join(work, "s%d.cur" % k)
            argv = bases[where[k][0]] + ["--shard", name_of(k), "--limit", "%.1f" % lim]
            r = run_one(argv, o, c, lim + 120, spec.get("hang", 40))
            results[k] = r
            return k, r, read_cur(c)[0] if r[0] not in ("ok",) else None
        with ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(shard, range(nsh)))
        tot = dict(executions=0, transitions=0, nontrivial=0, skipped=0, checks=0)
        tally, maxima, samples, reports, capped = {}, {}, [], [], False
        states, outcomes, ended = set(), set(), set()
        for k, (kind, detail), cur in rs:
            if kind == "ok":
                r = json.load(open(os.path.join(work, "s%d.json" % k)))
                for f in tot: tot[f] += r[f]
                capped |= r["capped"]
                for f, v in r["tally"].items(): tally[f] = tally.get(f, 0) + v
                for f, v in r["maxima"].items(): maxima[f] = max(maxima.get(f, float("-inf")), float(v))
                if r["samples"]: samples += r["samples"][:2] + r["samples"][-1:]
                for x in r["reports"]: x["shard"] = k; x["part"] = where[k][0]
                reports += r["reports"]
                for nm, st in ((".states", states), (".outcomes", outcomes)):
                    raw = read(os.path.join(work, "s%d.json%s" % (k, nm)))
                    st.update(struct.unpack("%dQ" % (len(raw) // 8), raw))
            elif kind == "unexplored":
                capped = True
            elif kind in ("crash", "hang"):
                if (crash_key(detail) if kind == "crash" else "hang") in ended: continue
                # replay alone, with a longer limit, before calling it anything
                k2, d2 = replay_once(cur, "confirm%d" % k, part=where[k][0])
                if k2 in ("crash", "hang", "timeout"):
                    key = crash_key(d2) if k2 == "crash" else "hang"
                    ended.add(key)
                    reports.append(dict(key=key, msg="%s while executing the code under test: %s" % (k2, d2), choices=cur, labels=[], confirmed=True, part=where[k][0]))
                else:
                    # history dependent: the same shard must end the same way again
                    r3, _, cur3 = rerun_shard(k, "again")
                    if r3[0] not in ("crash", "hang"):
                        die("shard %d ended with %s but neither the recorded execution nor the shard does so again: %s" % (k, kind, detail[-1500:]))
                    reports.append(dict(key=crash_key(r3[1]) if r3[0] == "crash" else "hang", msg="%s while executing the code under test, depending on earlier executions of the same process: %s" % (r3[0], r3[1]),
                                        choices=cur3, labels=[], confirmed=True, whole_shard=name_of(k), part=where[k][0]))
            elif kind == "hard" and "nondeterministic execution" in detail:
                # the harness is deterministic: the code under test answered the same inputs differently
                r3, _, _ = rerun_shard(k, "again")
                if not (r3[0] == "hard" and "nondeterministic execution" in r3[1]):
                    die("shard %d: %s, not repeatable (%s)" % (k, detail, r3[0]))
                reports.append(dict(key="history-dependent", msg="the code under test behaves differently when the same inputs are repeated in one process: " + detail.strip()[-600:],
                                    choices=cur or [], labels=[], confirmed=True, whole_shard=name_of(k), part=where[k][0]))
            else:
                die("shard %d: %s %s" % (k, kind, detail))
        # confirm by replaying, twice
        known = load_known(pid)
        confirmed, seen = [], set()
        for r in sorted(reports, key=lambda r: len(r["choices"])):
            if r["key"] in seen or sum(c["key"] not in known for c in confirmed) >= 8: continue
            if not r.get("confirmed"):
                ok = True
                for t in range(2):
                    kind, d = replay_once(r["choices"], "c%d" % t, part=r.get("part", 0))
                    if kind in ("crash", "hang"): continue
                    if kind != "ok": ok = False; break
                    rr = json.load(open(os.path.join(work, "c%d.json" % t)))
                    if r["key"] not in [x["key"] for x in rr["reports"]]: ok = False
                if not ok:
                    # it may depend on earlier executions in the process: repeat the whole shard
                    _, r3, _ = rerun_shard(r["shard"], "again")
                    if not r3 or [r["key"], r["choices"]] not in [[x["key"], x["choices"]] for x in r3["reports"]]:
                        die("violation %s does not replay deterministically: %s / %s" % (r["key"], r["choices"], r["msg"][:500]))
                    r["whole_shard"] = name_of(r["shard"])
                    r["msg"] += "\n  (depends on earlier executions of the same process; the replay repeats the shard)"
            seen.add(r["key"]); confirmed.append(r)
        viol = 0
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for r in confirmed:
            if r["key"] in known:
                print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[r["key"]], r["key"])); continue
            viol += 1
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, sha(json.dumps(r["choices"]), r["key"])[:10]))
            json.dump(dict(property=pid, key=r["key"], message=r["msg"], choices=r["choices"], labels=r["labels"], whole_shard=r.get("whole_shard"), part=r.get("part", 0), options=opts,
                           how="python3 /verif/bin/check.py %s --tier %s --replay %s" % (pid, tier, path)), open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  key=%s\n  %s" % (r["key"], r["msg"][:1500].replace("\n", "\n  ")))
            if r["labels"]: print("  choices: " + " ".join("%s=%d" % x for x in zip(r["labels"][:300], r["choices"][:300])) + (" ..." if len(r["choices"]) > 300 else ""))
        wall = time.time() - t0
        cov = {}
        lvl = spec["level"]
        if lvl == "model_checking":
            cov = dict(states=len(states), transitions=tot["transitions"], traces_validated_against_impl=tot["executions"])
        else:
            cov = dict(evaluations=tot["executions"], distinct_nontrivial=min(len(states), tot["nontrivial"]) if states else tot["nontrivial"], rule=spec["rule"])
        cov.update(samples=samples[:12] or ["none"], exhaustive=not capped, distinct_outcomes=len(outcomes), oracle_evaluations=tot["checks"],
                   bounds=spec.get("bounds", ""), tally=tally, maxima={k: ("%.4g" % v) for k, v in maxima.items()},
                   build_s=round(t_build, 1), shards=nsh, capped=capped)
        if evid:
            ev = dict(property=pid, tier=tier, seed=seed, level=lvl, coverage=cov,
                      assumptions=spec.get("assumptions", []), wall_s=round(wall, 2), violations=viol)
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (pid, os.getpid()))
            json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
        print("%s %s: %d executions, %d states, %d transitions, %d outcomes, %d oracle evaluations, %s; build %.1fs total %.1fs; violations=%d"
              % (pid, tier, tot["executions"], len(states), tot["transitions"], len(outcomes), tot["checks"],
                 "CAPPED" if capped else "exhaustive", t_build, wall, viol))
        if tot["executions"] == 0 and not confirmed: die("nothing was explored")
        if tot["checks"] == 0 and not confirmed: die("no oracle evaluation was made (vacuous exploration)")
        b.prune()
        return 1 if viol else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
