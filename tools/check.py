#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property of the tree in /repo.

Builds the property's harness with clink's sources from /repo, runs it under Wine in shards that
together enumerate the whole bounded space, re-runs everything a shard reports before believing it,
compares with known-findings.txt, and writes evidence/ID.json.  See registry.py for what each
property runs."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import registry, vbuild

BUILD = os.path.join(VERIF, ".build")
WINESERVER = "/usr/lib/wine/wineserver"


class Wine:
    """A private Wine prefix with one persistent server, removed afterwards."""
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.prefix = tempfile.mkdtemp(prefix="wine.", dir=BUILD)
        self.env = dict(os.environ, WINEPREFIX=self.prefix, WINEDEBUG="-all", HOME=os.environ.get("HOME", "/root"), LC_ALL="C.UTF-8",
                        LANG="C.UTF-8", WINEDLLOVERRIDES="mscoree=;mshtml=;winemenubuilder.exe=;winedbg.exe=")
        for k in list(self.env):
            if k == "DISPLAY" or k.startswith("CLINK_"):
                del self.env[k]
        subprocess.run([WINESERVER, "-p"], env=self.env)
        for attempt in range(2):
            try:
                subprocess.run(["wineboot", "-i"], env=self.env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=180)
                break
            except subprocess.TimeoutExpired:
                pass
        return self

    def __exit__(self, *a):
        subprocess.run([WINESERVER, "-k"], env=self.env)
        time.sleep(0.3)
        shutil.rmtree(self.prefix, ignore_errors=True)

    def run(self, exe, args, timeout):
        scratch = tempfile.mkdtemp(prefix="run.", dir=self.prefix)
        env = dict(self.env, TMP="Z:" + scratch.replace("/", "\\"), TEMP="Z:" + scratch.replace("/", "\\"))
        out = os.path.join(scratch, "stdout.txt")
        with open(out, "wb") as f:
            p = subprocess.Popen(["wine", exe] + args, env=env, cwd=scratch, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.DEVNULL)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "timeout"
        text = open(out, "rb").read().decode("latin-1")
        return rc, text


class Result:
    def __init__(self):
        self.stats, self.samples, self.viol, self.done, self.other = {}, [], [], False, []

    def parse(self, text):
        for l in text.splitlines():
            if l.startswith("STAT "):
                _, k, v = l.split(" ")
                self.stats[k] = self.stats.get(k, 0) + int(v)
            elif l.startswith("SAMPLE "):
                self.samples.append(l[7:])
            elif l.startswith("VIOL "):
                f = l[5:].split("\t")
                if len(f) == 3:
                    self.viol.append(f)
            elif l == "DONE":
                self.done = True
            elif l.strip():
                self.other.append(l)
        return self


def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        if l.startswith(f"known: property={prop} "):
            key, _, what = l[len(f"known: property={prop} "):].strip().partition(" :: ")
            out[key.strip()] = what.strip()
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    reg = registry.CHECKS[prop]
    t0 = time.time()
    limit = 780 if tier == "quick" else int(os.environ.get("VERIF_LIMIT", "14000"))
    with concurrent.futures.ThreadPoolExecutor(12) as pool:
        wine = Wine()
        wf = pool.submit(wine.__enter__)
        try:
            exes = {}
            for run in reg["runs"]:
                h = run["harness"]
                if h not in exes:
                    exes[h] = vbuild.build(h, **registry.BUILDS[h])
        finally:
            wf.result()
        try:
            return decide(prop, tier, seed, reg, exes, wine, pool, t0, limit)
        finally:
            wine.__exit__()


def decide(prop, tier, seed, reg, exes, wine, pool, t0, limit):
    total = Result()
    jobs = []
    for run in reg["runs"]:
        n = run.get("shards", 8)
        for i in range(n):
            args = ["--tier", tier] + run.get("args", []) + ["--shard", str(i), str(n)]
            jobs.append((run, exes[run["harness"]], args))
    workers = concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8)
    left = lambda: max(20, limit - (time.time() - t0))
    futs = [(j, workers.submit(wine.run, j[1], j[2], left())) for j in jobs]
    viols, broken = [], []
    for (run, exe, args), f in futs:
        rc, text = f.result()
        r = Result().parse(text)
        for k, v in r.stats.items():
            total.stats[k] = total.stats.get(k, 0) + v
        total.samples += r.samples
        for v in r.viol:
            viols.append((run, exe, args, v))
        if not r.done and not r.viol:
            broken.append((run, exe, args, rc, text[-400:]))

    known = known_findings(prop)
    # Believe a report only if it happens again when its case runs alone.
    reported, seen_known, unconfirmed, done_keys = [], set(), [], set()
    for run, exe, args, (key, case, msg) in viols:
        if key in done_keys:
            continue
        done_keys.add(key)
        if key in known:
            seen_known.add(key)
            continue
        if len(reported) >= 5:
            continue
        rc, text = wine.run(exe, run.get("args", []) + ["--replay", case], 300)
        r = Result().parse(text)
        if r.viol or (not r.done and rc != 0):
            reported.append((key, case, msg, run))
            continue
        # Not alone; perhaps what came before it matters: run the shard again.
        rc, text = wine.run(exe, args, left())
        r = Result().parse(text)
        if any(v[0] == key for v in r.viol):
            reported.append((key, case, msg + " (only after the cases before it: " + " ".join(args) + ")", run))
        else:
            unconfirmed.append((key, case, msg))
    for run, exe, args, rc, tail in broken:
        # A shard ended without a report: again, alone.
        rc2, text = wine.run(exe, args, left())
        r = Result().parse(text)
        if r.done:
            for k, v in r.stats.items():
                total.stats[k] = total.stats.get(k, 0) + v
        elif rc2 == "timeout":
            unconfirmed.append(("timeout", " ".join(args), "the exploration did not finish in time"))
        else:
            reported.append((f"abnormal end", " ".join(args), f"the exploration ended with {rc2}: {tail[-200:]}", run))

    wall = time.time() - t0
    cov = registry.coverage(reg, total.stats, total.samples)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": reg["level"], "coverage": cov, "wall_s": round(wall, 1),
          "violations": len(reported), "assumptions": reg.get("assumptions", [])}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for key in sorted(known):
        if key in seen_known:
            print(f"KNOWN-FINDING: property={prop} {known[key]}  [{key}]")
    rdir = os.path.join(VERIF, "replays")
    for n, (key, case, msg, run) in enumerate(reported):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{n}.txt")
        with open(path, "w") as f:
            f.write(f"property {prop}\nkey {key}\nmessage {msg}\nharness {run['harness']}.exe {' '.join(run.get('args', []))} --replay \"{case}\"\ncase {case}\n")
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {msg}")
    if os.environ.get("MC_VERBOSE"):
        print(json.dumps(ev, indent=1))
    print(f"{prop}: {json.dumps({k: v for k, v in sorted(total.stats.items())})} {wall:.1f} s")
    for u in unconfirmed:
        print("not confirmed:", *u)
    if reported:
        return 1
    if unconfirmed:
        return 2
    # An exploration that explored nothing decides nothing.
    for k, least in reg.get("at_least", {}).items():
        if total.stats.get(k, 0) < least:
            print(f"{prop}: only {total.stats.get(k, 0)} {k}; something is wrong with the check")
            return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
