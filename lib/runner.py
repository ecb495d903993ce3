"""Runs the campaigns that decide one property, aggregates what the monitors observed, matches
violations against the known findings and writes the evidence file."""
import collections, json, os, re, shutil, subprocess, sys, tempfile, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

VERIF = build.VERIF
CORES = os.cpu_count() or 4


class Campaign:
    """cases [0,n) of one mode of one driver, built in one variant"""
    def __init__(self, driver, mode, variant, quick, thorough, timeout=40, shards=None, env=None, tools=()):
        self.driver, self.mode, self.variant = driver, mode, variant
        self.n = {"quick": quick, "thorough": thorough}
        self.timeout = timeout
        self.shards = shards or CORES
        self.env = env or {}
        self.tools = tuple(tools)     # executables of the repository, passed to the driver as VF_<NAME>


class Result:
    def __init__(self):
        self.counts = collections.Counter()
        self.maxima = {}
        self.nontrivial = set()
        self.distinct = collections.defaultdict(set)
        self.cases = 0
        self.violations = []      # dicts
        self.samples = []
        self.campaigns = []
        self.lock = threading.Lock()

    def count(self, k, n=1):
        with self.lock:
            self.counts[k] += n

    def violation(self, cls, text, desc="", replay=""):
        with self.lock:
            self.violations.append({"class": cls, "text": text, "desc": desc, "replay": replay})


def target_src(name):
    if name == "candy":
        return os.path.join(build.REPO, "src", "candy", "Main.cc")
    if name == "cnf2aig":
        return os.path.join(build.REPO, "src", "candy", "cnf2aig.cc")
    return os.path.join(VERIF, "harness", name + ".cc")


def build_all(pairs):
    """pairs: iterable of (variant, target)"""
    by = collections.defaultdict(dict)
    for v, t in pairs:
        by[v][t] = target_src(t)
    out = {}
    for v, ts in by.items():
        for t, p in build.build(v, ts).items():
            out[(v, t)] = p
    return out


def run_campaign(c, exe, tier, seed, scratch, res):
    n = c.n[tier]
    if n <= 0:
        return
    shards = min(c.shards, n)
    procs = []
    label = "%s/%s/%s" % (c.driver, c.mode, c.variant)
    for s in range(shards):
        d = os.path.join(scratch, "%s-%s-%s-%d" % (c.driver, c.mode, c.variant, s))
        os.makedirs(d)
        cmd = [exe, "--mode", c.mode, "--seed", str(seed), "--from", str(s), "--to", str(n), "--step", str(shards),
               "--scratch", d, "--timeout", str(c.timeout), "--max-viol", "2"]
        out = open(os.path.join(d, "log"), "w")
        procs.append((subprocess.Popen(cmd, stdout=out, stderr=subprocess.PIPE, env=dict(os.environ, **c.env), cwd=d), d, out))
    for p, d, out in procs:
        err = p.communicate()[1]
        out.close()
        ended = False
        with open(os.path.join(d, "log"), errors="replace") as f:
            for line in f:
                line = line.rstrip("\n")
                t, _, rest = line.partition(" ")
                if t == "C":
                    res.cases += int(rest)
                elif t == "E":
                    k, _, key = rest.partition(" ")
                    res.counts[key] += int(k)
                elif t == "M":
                    k, _, key = rest.partition(" ")
                    res.maxima[key] = max(res.maxima.get(key, 0), int(k))
                elif t == "N":
                    res.nontrivial.add(rest)
                elif t == "D":
                    k, _, h = rest.rpartition(" ")
                    res.distinct[k].add(h)
                elif t == "S":
                    res.samples.append((c, exe, int(rest)))
                elif t == "V":
                    idx, vio, desc = (rest.split("\t") + ["", ""])[:3]
                    cls, _, text = vio.partition(" ")
                    res.violation(cls, text, desc, "python3 /verif/check.py --replay %s %s %s %d %s" % (c.variant, c.driver, c.mode, seed, idx))
                elif t == "END":
                    ended = True
        shutil.rmtree(d, ignore_errors=True)
        if p.returncode != 0 or not ended:
            raise RuntimeError("driver %s failed (exit %s): %s" % (label, p.returncode, err.decode(errors="replace")[-2000:]))
    res.campaigns.append({"driver": label, "cases": n})


def sample_text(c, exe, idx, seed, scratch):
    r = subprocess.run([exe, "--mode", c.mode, "--seed", str(seed), "--from", str(idx), "--to", str(idx + 1), "--scratch", scratch, "--dump"],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120, env=dict(os.environ, **c.env))
    for line in r.stdout.decode(errors="replace").splitlines():
        if line.startswith("X "):
            return "%s/%s case %d: %s" % (c.driver, c.mode, idx, line[2:][:600])
    return "%s/%s case %d" % (c.driver, c.mode, idx)


def known_findings():
    with open(os.path.join(VERIF, "known-findings.json")) as f:
        return json.load(f)


def decide(prop, spec, tier, seed):
    """spec: dict(campaigns=[...], python=[callables(ctx)], rule, assumptions, builds=[...])"""
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    res = Result()
    try:
        camps = [c for c in spec.get("campaigns", []) if c.n[tier] > 0]
        pairs = [(c.variant, t) for c in camps for t in (c.driver,) + c.tools] + list(spec.get("builds", []))
        exes = build_all(pairs)
        tb = time.time() - t0
        for c in camps:
            for t in c.tools:
                c.env["VF_" + t.upper()] = exes[(c.variant, t)]
            run_campaign(c, exes[(c.variant, c.driver)], tier, seed, scratch, res)
        for fn in spec.get("python", []):
            fn(Ctx(res, exes, tier, seed, scratch))
        samples = list(x for x in res.samples if isinstance(x, str))[:4]
        seen = set()
        for s in res.samples:
            if isinstance(s, tuple) and len(samples) < 6 and (s[0].driver, s[0].mode) not in seen:
                seen.add((s[0].driver, s[0].mode))
                samples.append(sample_text(s[0], s[1], s[2], seed, scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    kf = known_findings()
    fresh, known = [], {}
    for v in res.violations:
        hit = None
        for k in kf.get("known", []):
            if k["property"] == prop and re.search(k["class"], v["class"]) and re.search(k["match"], v["text"]):
                hit = k
                break
        if hit:
            known[hit["id"]] = hit
        else:
            fresh.append(v)
    for k in known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    d = {k: len(v) for k, v in res.distinct.items()}
    distinct = len(res.nontrivial) + sum(len(v) for k, v in res.distinct.items() if k.startswith("!"))
    coverage = {"evaluations": res.cases, "distinct_nontrivial": distinct, "rule": spec["rule"],
                "samples": samples, "observed": dict(sorted(res.counts.items())), "maxima": res.maxima,
                "distinct_observations": d, "campaigns": res.campaigns, "build_s": round(tb, 1)}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))

    print("%s [%s seed %d]: %d cases, %d distinct non-trivial, %d violations, %.1fs (build %.1fs)" % (prop, tier, seed, res.cases, distinct, len(fresh), time.time() - t0, tb))
    if distinct == 0 and not fresh:
        print("monitors observed nothing non-trivial")
        return 2
    if fresh:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(fresh[:5]):
            path = os.path.join(rd, "%s-%d.txt" % (prop, i))
            with open(path, "w") as f:
                f.write("property: %s\nclass: %s\n%s\n\nreplay: %s\n\ncase:\n%s\n" % (prop, v["class"], v["text"].replace("\\n", "\n"), v["replay"], v["desc"].replace("\\n", "\n")))
            print("  %s: %s" % (v["class"], v["text"][:300]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


class Ctx:
    """context of the monitors written in Python"""
    def __init__(self, res, exes, tier, seed, scratch):
        self.res, self.exes, self.tier, self.seed, self.scratch = res, exes, tier, seed, scratch

    def pick(self, quick, thorough):
        return quick if self.tier == "quick" else thorough
