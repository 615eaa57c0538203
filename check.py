#!/usr/bin/env python3
"""Driver of one check: builds the harness against /repo, runs its shards, confirms every
violation in a fresh process, writes the evidence file and prints the verdict.

usage: check.py PROPERTY quick|thorough     (VERIF_SEED: workload seed, default 1)
exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself could not run.
"""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(VERIF, "target")
VH = os.path.join(TARGET, "release", "vh")
NSHARDS = 8
SECS = {"quick": 240, "thorough": 3600}
LEVEL = "exploration"


def sh_env():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            env[k.decode()] = v.decode("utf-8", "replace")
    env["CARGO_TARGET_DIR"] = TARGET
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def build(env):
    lock = os.path.join(VERIF, "harness", "Cargo.lock")
    r = subprocess.run(["cargo", "build", "--release", "--offline"] + (["--locked"] if os.path.exists(lock) else []),
                       cwd=os.path.join(VERIF, "harness"), env=env, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr[-6000:])
        print("ERROR: harness does not build against /repo")
        sys.exit(2)


def limits(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def known_findings(prop):
    """known: property=<id> signature=<regex on the violation detail> <text>; fixed entries suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) signature=<<(.*?)>> (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def replay(path, env, gb=12, wall=300):
    """-> (violated, message); a case that uses too much CPU time ends itself and counts as violated"""
    try:
        r = subprocess.run([VH, "replay", path], env=env, capture_output=True, text=True, errors="replace",
                           preexec_fn=limits(gb), timeout=wall)
    except subprocess.TimeoutExpired:
        return None, "replay timed out"
    if r.returncode == 0:
        return False, ""
    if r.returncode == 1:
        m = re.search(r"REPLAY-VIOLATED (.*)", r.stderr, re.S)
        return True, (m.group(1) if m else r.stderr)[:4000]
    return True, "the process died (status %d) %s" % (r.returncode, r.stderr[-500:])


def history(prop, tier, seed, shard, index, skip, env, path, deadline):
    """Repeats the cases of a shard up to a failing one in new processes and drops those that are not needed.
    -> the message of the failing case, or None when it does not fail again; the replay file holds what is left."""
    def fails(before, dump=None):
        spans = []
        for k in before + [index]:
            if spans and spans[-1][1] == k - 1:
                spans[-1][1] = k
            else:
                spans.append([k, k])
        cmd = [VH, "history", "--prop", prop, "--tier", tier, "--seed", str(seed), "--shard", str(shard), "--nshards", str(NSHARDS),
               "--ranges", ",".join(f"{a}-{b}" for a, b in spans)] + (["--dump", dump] if dump else [])
        try:
            r = subprocess.run(cmd, env=env, capture_output=True, text=True, errors="replace", preexec_fn=limits(8), timeout=max(5, deadline - time.time()))
        except subprocess.TimeoutExpired:
            return None
        m = re.search(r"REPLAY-VIOLATED (.*)", r.stderr, re.S)
        return m.group(1)[:4000] if r.returncode == 1 and m else None

    everything = list(range(skip + 1, index))
    if fails(everything) is None:
        return None
    need, k = everything, 1
    while k < len(everything):
        if fails(everything[-k:]) is not None:
            need = everything[-k:]
            break
        k *= 8
    end = min(deadline, time.time() + 90)
    chunk = (len(need) + 1) // 2
    while chunk and time.time() < end:
        i = 0
        while i < len(need) and time.time() < end:
            rest = need[:i] + need[i + chunk:]
            if fails(rest) is not None:
                need = rest
            else:
                i += chunk
        chunk = (chunk + 1) // 2 if chunk > 1 else 0
    msg = fails(need, path)
    bad, again = replay(path, env) if msg else (None, None)
    return again if bad else None


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    secs = int(os.environ.get("VERIF_SECS", SECS[tier]))
    t0 = time.time()
    env = sh_env()
    build(env)
    ev_dir = os.path.join(VERIF, "evidence")
    rp_dir = os.path.join(ev_dir, "replays")
    os.makedirs(rp_dir, exist_ok=True)
    for f in os.listdir(rp_dir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rp_dir, f))
    work = tempfile.mkdtemp(prefix="vh-")
    try:
        code = run(prop, tier, seed, secs, env, work, ev_dir, rp_dir, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def run(prop, tier, seed, secs, env, work, ev_dir, rp_dir, t0):
    def start(i, skip, part):
        out, cur = f"{work}/o{i}-{part}.json", f"{work}/cur{i}"
        err = open(f"{work}/err{i}", "wb")
        left = max(5, int(secs - (time.time() - t0)))
        p = subprocess.Popen([VH, "run", "--prop", prop, "--out", out, "--shard", str(i), "--nshards", str(NSHARDS), "--seed", str(seed),
                              "--secs", str(left), "--skip", str(skip), "--tier", tier, "--current", cur, "--verif", VERIF],
                             env=env, stdout=subprocess.DEVNULL, stderr=err, preexec_fn=limits(8), cwd=work)
        return p, out, cur

    reports, crashes, notes = [], [], []
    live = {i: (start(i, 0, 0), 0, 0) for i in range(NSHARDS)}
    while live:
        time.sleep(0.05)
        for i in list(live):
            (p, out, cur), part, skip = live[i]
            if p.poll() is None:
                if time.time() - t0 > secs + 200:
                    p.kill()
                    notes.append(f"shard {i} was ended by the wall clock: inconclusive part")
                    del live[i]
                continue
            del live[i]
            if p.returncode == 0 and os.path.exists(out):
                reports.append(json.load(open(out)))
                reports[-1]["shard"], reports[-1]["skip"] = i, skip
                continue
            tail = open(f"{work}/err{i}", errors="replace").read()[-600:]
            idx = None
            if os.path.exists(cur):
                t = open(cur).read()
                m = re.match(r"index (\d+)\n", t)
                if m:
                    idx = int(m.group(1))
                    crashes.append((t[m.end():], p.returncode, tail))
            if idx is None or part >= 2:
                if idx is None:
                    print(f"ERROR: shard {i} died with status {p.returncode}: {tail}")
                    return 2
                notes.append(f"shard {i} died {part + 1} times, not restarted")
                continue
            live[i] = (start(i, idx, part + 1), part + 1, idx)

    cov = {"evaluations": 0, "counters": {}, "samples": []}
    distinct, states = set(), set()
    cands = []
    for r in reports:
        cov["evaluations"] += r["evaluations"]
        distinct.update(r["distinct"])
        states.update(r["states"])
        for k, v in r["counters"].items():
            cov["counters"][k] = cov["counters"].get(k, 0) + v
        cov["samples"] += r["samples"]
        notes += r["notes"]
        for v in r["violations"]:
            cands.append((v["case"], v["detail"], (v["index"], r["shard"], r["skip"])))
    for case, rc, tail in crashes:
        cov["evaluations"] += 1
        cands.append((case, f"process died with status {rc}: {tail}", None))

    known = known_findings(prop)
    seen_known, real, unconfirmed, later = {}, [], 0, []
    for case, detail, origin in cands:
        if len(real) >= 3 or (real and time.time() - t0 > 400) or time.time() - t0 > 700:
            break
        path = os.path.join(rp_dir, f"{prop}-{len(real) + len(seen_known) + unconfirmed + 1}.case")
        open(path, "w").write(case)
        bad, msg = replay(path, env)
        if bad is None or not bad:
            unconfirmed += 1
            if origin:
                later.append((origin, detail))
            notes.append("not confirmed in a fresh process: " + detail[:300])
            os.unlink(path)
            continue
        msg = msg or detail
        for rx, text in known:
            if rx.search(msg):
                seen_known.setdefault(text, path)
                break
        else:
            real.append((path, msg))

    # a violation that only shows after other jobs of the same process: repeat the history that leads to it
    if prop != "C20":
        for (index, shard, skip), detail in sorted(later)[:3]:
            if real or time.time() - t0 > 500:
                break
            path = os.path.join(rp_dir, f"{prop}-history-{shard}-{index}.case")
            msg = history(prop, tier, seed, shard, index, skip, env, path, t0 + 700)
            if msg is None:
                notes.append(f"not confirmed with the {index - skip - 1} cases before it: " + detail[:100])
                continue
            for rx, text in known:
                if rx.search(msg):
                    seen_known.setdefault(text, path)
                    break
            else:
                real.append((path, "after other jobs in the same process: " + msg))
    if unconfirmed and not real:
        notes.append(f"{unconfirmed} inconclusive candidate(s)")
    cov["distinct_nontrivial"] = len(distinct)
    cov["distinct_states_observed"] = len(states)
    cov["rule"] = json.load(open(os.path.join(VERIF, "tools", "rules.json"))).get(prop, "generated jobs; non-trivial: the oracle compared at least one event")
    cov["samples"] = cov["samples"][:16]
    cov["notes"] = notes
    vacuous = not reports or cov["evaluations"] == 0 or not distinct
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov, "violations": len(real),
          "assumptions": ["oracle and reference models in /verif/harness", "harness is built with overflow checks and debug assertions"],
          "wall_s": round(time.time() - t0, 2)}
    json.dump(ev, open(os.path.join(ev_dir, prop + ".json"), "w"), indent=1)
    for text in seen_known:
        print(f"KNOWN-FINDING: property={prop} {text}")
    for path, msg in real:
        print(f"VIOLATION property={prop} replay={path}")
        print("   " + "\n   ".join(msg.splitlines()[:12]))
    if real:
        return 1
    if vacuous:
        print("ERROR: nothing was observed")
        return 2
    print(f"held: property={prop} evaluations={cov['evaluations']} distinct={len(distinct)} states={len(states)} wall={ev['wall_s']}s" +
          (f" notes={notes[:3]}" if notes else ""))
    return 0


if __name__ == "__main__":
    main()
