#!/usr/bin/env python3
"""check.py <property> [quick|thorough]      decide one property
   check.py --replay <variant> <driver> <mode> <seed> <index>   rerun one case
   check.py --build                           build every variant and driver"""
import os, subprocess, sys, tempfile, shutil, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build, runner, specs


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        v, d, m, seed, idx = a[1:6]
        tools = sorted({t for s in specs.SPECS.values() for c in s.get("campaigns", []) if c.driver == d and c.mode == m for t in c.tools})
        exes = runner.build_all([(v, d)] + [(v, t) for t in tools])
        exe = exes[(v, d)]
        for t in tools:
            os.environ["VF_" + t.upper()] = exes[(v, t)]
        t = tempfile.mkdtemp(prefix="vf-replay-")
        try:
            r = subprocess.run([exe, "--mode", m, "--seed", seed, "--from", idx, "--to", str(int(idx) + 1), "--scratch", t] + a[6:], stdout=subprocess.PIPE)
            out = r.stdout.decode(errors="replace").replace("\\n", "\n").replace("\t", "\n")
            print(out)
            return 1 if out.startswith("V ") or "\nV " in out else 0
        finally:
            shutil.rmtree(t, ignore_errors=True)
    if a and a[0] == "--build":
        pairs = set()
        for s in specs.SPECS.values():
            pairs |= {(c.variant, t) for c in s.get("campaigns", []) if c.n["quick"] > 0 for t in (c.driver,) + c.tools} | set(s.get("builds", []))
        runner.build_all(sorted(pairs))
        return 0
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return runner.decide(prop, specs.SPECS[prop], tier, seed)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
