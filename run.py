#!/usr/bin/env python3
"""run.py C01 [--tier quick|thorough] [--seed N] [--only scenario[#n]]

Builds the monitors with the library from /repo's working tree, runs those of
one property, and tells what they saw: exit 0, or exit 1 with a VIOLATION
line. Anything else (exit 2) is no answer.
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")

# How each check is built and run: list of (mode, extra args, time limit).
PLAN = {
    "C11": [("cgo", [], 700)],
    "C14": [("race", [], 800)],
}
DEFAULT = [("pure", [], 800)]

LIB = re.compile(r"^(github\.com/luxfi/zmq/v4(?!/internal/verifh)[./]\S*)\(", re.M)


def crash(err):
    """What a crash of the monitored process says, if the library caused it."""
    m = re.search(r"^(panic: |fatal error: |runtime: |SIG[A-Z]+: ).*$", err, re.M)
    if not m:
        return None
    text = err[m.start():]
    first = text
    g = re.search(r"^goroutine \d+.*?:$", text, re.M)
    if g:
        end = text.find("\n\n", g.end())
        first = text[g.start(): end if end > 0 else len(text)]
    head = m.group(0)
    lib = LIB.search(first) or re.search(r"created by github\.com/luxfi/zmq/v4\.", first)
    if not lib and not re.search(r"all goroutines are asleep|out of memory|concurrent map|cannot allocate", head):
        return None
    return head + "\n" + first


def races(prefix):
    """Race reports in which the library takes part, without duplicates."""
    d = os.path.dirname(prefix)
    seen, out = set(), []
    for f in sorted(os.listdir(d)):
        if not f.startswith(os.path.basename(prefix) + "."):
            continue
        text = open(os.path.join(d, f), errors="replace").read()
        for blk in text.split("=================="):
            if "WARNING: DATA RACE" not in blk:
                continue
            parts = re.split(r"^(?:Previous|Goroutine)", blk, flags=re.M)
            acc = parts[:2]  # the two accesses
            tops = []
            for a in acc:
                fr = re.findall(r"^  (\S+)\(", a, re.M)
                # the first frame that is neither runtime nor standard library
                own = [x for x in fr if x.startswith(("github.com/luxfi/zmq/v4", "main."))]
                tops.append(own[0] if own else (fr[0] if fr else "?"))
            lib = any(x.startswith("github.com/luxfi/zmq/v4") and "/internal/verifh" not in x for x in tops)
            if not lib:
                # shared memory handed out by the library counts only if
                # both sides are not the monitors' own code
                continue
            key = tuple(sorted(tops))
            if key in seen:
                continue
            seen.add(key)
            out.append((key, blk.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--only", default="")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    evf = os.path.join(ev, prop + ".json")
    replay = os.path.join(ev, prop + ".violation.json")
    for f in (evf, replay):
        if os.path.exists(f):
            os.remove(f)
    scratch = tempfile.mkdtemp(prefix="vh")
    t0 = time.time()
    try:
        return work(a, prop, tier, evf, replay, scratch, t0)
    finally:
        if a.keep:
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def violation(prop, replay, what, detail):
    if not os.path.exists(replay):
        with open(replay, "w") as f:
            json.dump({"property": prop, "what": what, "detail": detail}, f, indent=1)
    print(what)
    print("VIOLATION property=%s replay=%s" % (prop, replay))
    return 1


def min_evidence(prop, tier, seed, evf, prog, t0, viol):
    if os.path.exists(evf):
        return
    done = start = 0
    names = set()
    samples = []
    if os.path.exists(prog):
        for l in open(prog, errors="replace"):
            w = l.split()
            if w and w[0] == "done":
                done += 1
                names.add(w[1])
            elif w and w[0] == "start":
                start += 1
                samples = (samples + [l.strip()])[-5:]
    with open(evf, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": int(seed), "level": "exploration",
                   "coverage": {"evaluations": done, "distinct_nontrivial": len(names),
                                "rule": "the run ended early; executions that were complete by then, and their kinds",
                                "samples": samples or ["none"], "started": start},
                   "wall_s": time.time() - t0, "violations": viol}, f, indent=1)


def work(a, prop, tier, evf, replay, scratch, t0):
    for i, (mode, args, limit) in enumerate(PLAN.get(prop, DEFAULT)):
        bdir = os.path.join(scratch, "b%d" % i)
        b = subprocess.run([os.path.join(HERE, "build.sh"), bdir, mode], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        if b.returncode != 0:
            print(b.stdout[-4000:])
            print("ERROR build failed")
            return 2
        run = os.path.join(scratch, "r%d" % i)
        os.mkdir(run)
        prog = os.path.join(scratch, "progress%d" % i)
        errf = os.path.join(scratch, "stderr%d" % i)
        env = dict(os.environ, TMPDIR=run, GOTRACEBACK="all")
        racelog = os.path.join(scratch, "race%d" % i)
        if mode == "race":
            env["GORACE"] = "log_path=%s halt_on_error=0 exitcode=0 history_size=3" % racelog
        cmd = [os.path.join(bdir, "verifh"), "-prop", prop, "-tier", tier, "-seed", str(a.seed),
               "-evidence", evf, "-replay", replay, "-scratch", run, "-progress", prog,
               "-known", os.path.join(HERE, "KNOWN_FINDINGS.txt")] + args
        if a.only:
            cmd += ["-only", a.only]
        out = ""
        with open(errf, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=ef, env=env, cwd=run, text=True, errors="replace")
            try:
                out, _ = p.communicate(timeout=limit * (6 if tier == "thorough" else 1))
                rc = p.returncode
            except subprocess.TimeoutExpired:
                p.kill()
                out, _ = p.communicate()
                rc = "timeout"
        sys.stdout.write(out)
        err = open(errf, errors="replace").read()
        if rc == 1 and "VIOLATION property=" in out:
            min_evidence(prop, tier, a.seed, evf, prog, t0, 1)
            return 1
        if rc != 0:
            c = crash(err) if rc != "timeout" else None
            min_evidence(prop, tier, a.seed, evf, prog, t0, 1 if c else 0)
            if c:
                last = "".join(open(prog, errors="replace").readlines()[-16:]) if os.path.exists(prog) else ""
                return violation(prop, replay, "the library crashes: " + c.split("\n")[0], c[:20000] + "\n\nexecutions under way:\n" + last)
            print(err[-3000:])
            print("ERROR no answer (%s)" % rc)
            return 2
        if mode == "race":
            rs = races(racelog)
            if rs:
                try:
                    e = json.load(open(evf))
                    e["violations"] = len(rs)
                    json.dump(e, open(evf, "w"), indent=1)
                except Exception:
                    pass
                return violation(prop, replay, "data race between %s and %s (%d distinct reports)" % (rs[0][0] + (len(rs),)) if len(rs[0][0]) == 2 else "data race",
                                 [r[1] for r in rs][:20])
    return 0


if __name__ == "__main__":
    sys.exit(main())
