#!/usr/bin/env python3
"""Decide one property on /repo's current working tree.

    check.py PROP [--tier quick|thorough]

Two layers (see DESIGN.md):
  A  deductive proofs: Verus on functions extracted from /repo on this run, Kani on the real crate.
  B  the same contracts, executable, on the real crates: counterexample finder and replayer for A,
     and the labelled-bounded stand-in where A does not reach.

Exit 0: held (and every obligation that could be generated was discharged).
Exit 1: a line `VIOLATION property=<id> replay=<path>`.
Exit 2: no answer (for example /repo does not build).
"""
import argparse, hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time, struct, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, VERIF)
import props
import layer_a

T0 = time.time()


def log(*a):
    print(f"[{time.time()-T0:6.1f}s]", *a, flush=True)


def repo_hash():
    h = hashlib.sha256()
    for root in ("imap-types", "imap-codec"):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "fuzz", "tests", "benches", "examples"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


CONFIGS = {
    # imap-codec's default features
    "a": (["--features", "quirks"], "debug", "default features"),
    # every feature
    "b": (["--features", "quirks_all,ext,extras"], "debug", "all features"),
    # every extension, no quirks
    "c": (["--features", "ext,extras"], "debug", "all extensions, no quirks"),
    # release build (no debug assertions)
    "r": (["--release", "--features", "quirks,ext,extras"], "release", "release build"),
}


def build(cfg, errors):
    feats, prof, _ = CONFIGS[cfg]
    td = os.path.join(BUILD, cfg)
    os.makedirs(td, exist_ok=True)
    stamp = os.path.join(td, "repo.stamp")
    now = repo_hash()
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="", CARGO_TERM_COLOR="never")
    base = ["cargo"]
    man = ["--manifest-path", os.path.join(VERIF, "harness/Cargo.toml"), "--target-dir", td, "--offline"]
    try:
        old = open(stamp).read()
    except OSError:
        old = None
    if old is not None and old != now:
        # do not rely on timestamps: rebuild the crates under check from their current text
        subprocess.run(base + ["clean", "-p", "imap-types", "-p", "imap-codec", "-p", "vharness"] + man + (["--release"] if prof == "release" else []), env=env, capture_output=True)
    r = subprocess.run(base + ["build", "--locked"] + man + feats, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        errors[cfg] = r.stderr[-6000:]
        return
    with open(stamp, "w") as f:
        f.write(now)


def binary(cfg):
    return os.path.join(BUILD, cfg, CONFIGS[cfg][1], "vharness")


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))


def vharness(cfg, args, timeout):
    try:
        r = subprocess.run([binary(cfg)] + args, capture_output=True, text=True, errors="replace", timeout=timeout, preexec_fn=limits)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return 97, "", "timeout"


def run_b(prop, cfg, scale, seed, budget, tmp):
    """One configuration of the executable contracts. Returns (result json or None, violations)."""
    out = os.path.join(tmp, f"{prop}.{cfg}.json")
    args = ["run", prop, "--scale", str(scale), "--seed", str(seed), "--out", out, "--budget", str(budget)]
    rc, so, se = vharness(cfg, args, budget + 120)
    if rc in (0, 1) and os.path.exists(out):
        d = json.load(open(out))
        for v in d["violations"]:
            v["config"] = cfg
        return d, d["violations"]
    # the process died or hung: find the case
    log(f"config {cfg}: process ended with status {rc}; repeating with a journal")
    jd = os.path.join(tmp, f"journal.{cfg}")
    os.makedirs(jd, exist_ok=True)
    rc2, so2, se2 = vharness(cfg, args + ["--journal", jd], budget * 2 + 120)
    if rc2 in (0, 1) and os.path.exists(out):
        d = json.load(open(out))
        for v in d["violations"]:
            v["config"] = cfg
        if d["violations"]:
            return d, d["violations"]
    vs = []
    for f in sorted(os.listdir(jd)):
        if not f.endswith(".tape"):
            continue
        group = open(os.path.join(jd, f[:-5] + ".group")).read()
        raw = open(os.path.join(jd, f), "rb").read()
        if len(raw) < 8:
            continue
        rnd, n = struct.unpack("<II", raw[:8])
        tape = list(struct.unpack(f"<{n}I", raw[8 : 8 + 4 * n])) if len(raw) >= 8 + 4 * n else []
        rc3, so3, se3 = vharness(cfg, ["replay", prop, "--group", group, "--tape", ",".join(map(str, tape)), "--rnd", str(rnd)], 60)
        if rc3 not in (0, 1):
            how = "does not terminate within 60 s" if rc3 == 97 else f"ends the process with status {rc3}"
            vs.append(dict(config=cfg, group=group, tape=tape, rnd=rnd, message=f"the operation {how}: {se3.strip()[-300:]}", case=so3.strip()[-2000:]))
        elif rc3 == 1:
            vs.append(dict(config=cfg, group=group, tape=tape, rnd=rnd, message=so3.strip()[-2000:], case=""))
    if not vs:
        vs.append(dict(config=cfg, group="(whole run)", tape=[], rnd=0, message=f"the process exploring this property ended with status {rc} (then {rc2}): {se.strip()[-500:]}", case="", unattributed=True))
    return None, vs


def known_findings():
    k = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    for line in open(p):
        line = line.strip()
        if line.startswith("known:"):
            w = dict(x.split("=", 1) for x in line.split() if "=" in x and not x.startswith("="))
            k.setdefault(w["property"], {})[w["id"]] = line
    return k


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only-b", action="store_true", help="development: skip layer A")
    o = ap.parse_args()
    prop, tier = o.prop, o.tier if o.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    P = props.PROPS[prop]
    os.makedirs(EVID, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        return decide(prop, tier, seed, P, tmp, o)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, P, tmp, o):
    # --- builds and proofs, in parallel
    errors, a_results = {}, []
    ths = [threading.Thread(target=build, args=(c, errors)) for c in P["configs"]]
    if not o.only_b:
        ths.append(threading.Thread(target=lambda: a_results.extend(layer_a.run(prop, tier, tmp, log))))
    for t in ths:
        t.start()
    for t in ths[: len(P["configs"])]:
        t.join()
    if errors:
        for c, e in errors.items():
            print(f"configuration {c} ({CONFIGS[c][2]}) does not build:\n{e}")
        print("no answer: /repo's current tree does not build with the harness")
        for t in ths:
            t.join()
        return 2
    log("built", ", ".join(f"{c} ({CONFIGS[c][2]})" for c in P["configs"]))
    # --- executable contracts
    scale, budget = (P.get("scale", 4.0), 60) if tier == "quick" else (P.get("scale", 4.0) * 40, 500)
    runs, viol = {}, []
    for c in P["configs"]:
        d, vs = run_b(prop, c, scale, seed, budget, tmp)
        runs[c] = d
        viol += vs
        log(f"contracts executed, {CONFIGS[c][2]}: {d['evaluations'] if d else '?'} cases, {len(vs)} violations")
    for t in ths:
        t.join()
    # --- proofs
    failed = [u for u in a_results if u["status"] == "failed"]
    lost = [u for u in a_results if u["status"] == "lost"]
    proved = [u for u in a_results if u["status"] == "proved"]
    for u in a_results:
        log(f"proof unit {u['unit']} ({u['backend']}): {u['status']}, {u.get('discharged',0)}/{u.get('obligations',0)} obligations" + (f" -- {u['reason']}" if u.get("reason") else ""))
    if failed and not viol:
        log("an obligation failed: searching deeper for a failing input")
        for c in P["configs"]:
            d, vs = run_b(prop, c, scale * 8, seed + 1, 100, tmp)
            viol += vs
            if vs:
                break
    # --- known findings
    known = known_findings().get(prop, {})
    unlisted = []
    if "b" in P["configs"]:
        rc, so, se = vharness("b", ["known", prop], 60)
        for line in so.splitlines():
            kid, _, text = line.partition("\t")
            if kid in known:
                print(f"KNOWN-FINDING: property={prop} {kid}: {text[:300]}")
            else:
                unlisted.append(dict(config="b", group=f"known-probe {kid}", tape=[], rnd=0, message=text, case=""))
    viol += unlisted
    # --- evidence
    ev = sum(d["evaluations"] for d in runs.values() if d)
    dn = sum(d["distinct_nontrivial"] for d in runs.values() if d)
    samples = [f"[{c}] {s}"[:600] for c, d in runs.items() if d for s in d["samples"][:3]]
    bounded = dict(
        label="bounded: executable contracts on the real crates",
        evaluations=ev,
        distinct_nontrivial=dn,
        rule=P["rule"],
        samples=samples,
        configurations={c: CONFIGS[c][2] for c in P["configs"]},
        groups={c: d["groups"] for c, d in runs.items() if d},
    )
    full = bool(proved) and not lost and not failed
    obligations = sum(u.get("obligations", 0) for u in a_results)
    discharged = sum(u.get("discharged", 0) for u in a_results)
    cov = {}
    level = P["level"]
    if a_results:
        cov.update(
            obligations=obligations,
            discharged=discharged,
            checker_cmd="; ".join(sorted({u["cmd"] for u in a_results if u.get("cmd")})) or "none ran",
            trusted_base=sorted({t for u in a_results for t in u.get("trusted", [])}),
            proof_units=[{k: v for k, v in u.items() if k not in ("output", "trusted")} for u in a_results],
        )
    if level == "proof" and not full:
        # say so: this run did not re-establish the proof
        cov["proof_not_reestablished"] = [f"{u['unit']}: {u['status']} {u.get('reason','')}" for u in a_results if u["status"] != "proved"] or ["no unit ran"]
    cov.update(evaluations=ev, distinct_nontrivial=dn, rule=P["rule"], samples=samples, bounded_part=bounded)
    nviol = len(viol) + (len(failed) if not viol else 0)
    ev_level = level if (level != "proof" or full or failed) else "exploration"
    evidence = dict(property=prop, tier=tier, seed=seed, level=ev_level, coverage=cov, assumptions=P["assumptions"], wall_s=round(time.time() - T0, 2), violations=nviol)
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    # --- verdict
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    if viol:
        v = min(viol, key=lambda v: (bool(v.get("unattributed")), len(v["tape"])))
        path = os.path.join(rdir, f"{prop}.json")
        rep = dict(
            property=prop,
            replay=f"{binary(v['config'])} replay {prop} --group '{v['group']}' --tape '{','.join(map(str, v['tape']))}' --rnd {int(v['rnd'])}",
            build=f"python3 {VERIF}/check.py {prop}",
            configuration=CONFIGS[v["config"]][2],
            observed=v["message"],
            input=v.get("case", ""),
            failed_obligations=[dict(unit=u["unit"], obligations=u.get("failures"), output=u.get("output", "")[-6000:]) for u in failed],
            all=[dict(config=x["config"], group=x["group"], tape=x["tape"], rnd=x["rnd"], message=x["message"][:500]) for x in viol[:20]],
        )
        json.dump(rep, open(path, "w"), indent=1)
        print(f"{prop}: {v['message'][:1500]}")
        if v.get("case"):
            print(f"input: {v['case'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if failed:
        path = os.path.join(rdir, f"{prop}.json")
        json.dump(dict(property=prop, failed_obligations=[dict(unit=u["unit"], backend=u["backend"], command=u.get("cmd"), obligations=u.get("failures"), output=u.get("output", "")[-20000:]) for u in failed], searched=bounded), open(path, "w"), indent=1)
        for u in failed:
            print(f"{prop}: obligation failed in {u['unit']}: {u.get('failures')}")
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        return 1
    print(f"{prop}: held; {discharged}/{obligations} obligations discharged, {ev} cases of the executable contracts ({dn} distinct non-trivial)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
