#!/usr/bin/env python3
"""Driver of one check: builds the explorer against /repo's working tree, runs it, writes the evidence.

usage: check.py <property> [--tier quick|thorough]
exit 0: held on everything explored; 1: violated (prints VIOLATION property=<id> replay=<path>);
anything else: the check itself could not decide.
"""
import json
import os
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
KNOWN = os.path.join(HERE, "known_findings.txt")
WORK = os.path.join(HERE, "work")
CRASH = {
    77: "a memory request no input of this size can justify (allocation refused)",
    78: "a call that does not return within the time limit",
}
# which builds of the crate a property is explored on
CONFIGS = {
    "C20": ["sched", "full", "default"],
    "C26": ["wide", "short", "default"],
    "C30": ["default", "full", "wide", "short"],
    "C29": ["default", "full", "wide", "short"],
    "C27": ["default", "full", "wide", "short", "wfull", "sfull"],
}
FEATURES = {"full": "full", "wide": "wide", "short": "short", "wfull": "wide,full", "sfull": "short,full"}
DEFAULT_CONFIGS = ["default", "full"]
ASSUME = {
    "*": [
        "values outside the stated alphabets and bounds are not explored",
        "the crate is compiled with overflow checks and debug assertions on",
    ],
    "C20": [
        "threads are interleaved at the library's reads, writes and memory requests; the crate has no atomics "
        "or locks of its own and data races are excluded by safe Rust",
        "the controlled runtime of shim_tokio stands for tokio's scheduler",
    ],
}


def env():
    e = dict(os.environ)
    e.update(
        PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"),
        RUSTUP_TOOLCHAIN="stable",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUST_BACKTRACE="0",
    )
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


def build(cfg, needed=True):
    crate = "mc_sched" if cfg == "sched" else "mc"
    args = ["cargo", "build", "--offline", "--release", "--locked"]
    if cfg in FEATURES:
        args += ["--features", FEATURES[cfg]]
    e = env()
    tdir = os.path.join(HERE, "target", cfg)
    e["CARGO_TARGET_DIR"] = tdir
    p = subprocess.run(args, cwd=os.path.join(HERE, crate), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stdout.write(p.stdout.decode(errors="replace")[-6000:])
        if not needed:
            return None
        print(f"ERROR: the {cfg} build of the explorer failed")
        sys.exit(2)
    return os.path.join(tdir, "release", crate)


def in_flight(journal, threads=64):
    try:
        with open(journal, "rb") as f:
            d = f.read()
    except OSError:
        return
    for t in range(threads):
        s = d[t * 4096 : t * 4096 + 4096]
        if len(s) < 8:
            break
        n, fam = struct.unpack("<II", s[:8])
        if fam:
            yield fam - 1, list(struct.unpack(f"<{n}I", s[8 : 8 + 4 * n].ljust(4 * n, b"\0")))


def run_one(binary, prop, tier, fam, choices, timeout):
    """Result of one execution in a process of its own: (violated, message)."""
    cmd = [binary, "one", prop, tier, fam, ",".join(map(str, choices)), "--known", KNOWN]
    try:
        p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, CRASH[78]
    out = p.stdout.decode(errors="replace")
    if p.returncode == 0 or p.returncode == 3:
        return False, out
    if p.returncode == 1:
        return True, out.strip()
    if p.returncode in CRASH:
        return True, CRASH[p.returncode]
    return True, f"the process ended with status {p.returncode}: {out[-500:]}"


def main():
    if sys.argv[1] == "--build":
        for cfg in ("default", "full", "sched", "wide", "short", "wfull", "sfull"):
            if os.path.exists(os.path.join(HERE, "mc_sched" if cfg == "sched" else "mc", "Cargo.toml")):
                build(cfg, needed=cfg != "sched")
        return
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    configs = CONFIGS.get(prop, DEFAULT_CONFIGS)
    fams_out, violation, errors, knowns, skipped = [], None, [], {}, []
    if prop == "C27":
        # what every build makes of the cases the others then read; a build that ends over it is explored
        # first, where the same cases are executions like any others
        failed = []
        for cfg in configs:
            dump = os.path.join(WORK, "dump." + cfg)
            if os.path.exists(dump):
                os.remove(dump)
            try:
                if subprocess.run([build(cfg), "dump", dump], env=env(), timeout=120).returncode:
                    failed.append(cfg)
            except subprocess.TimeoutExpired:
                failed.append(cfg)
        configs = failed + [c for c in configs if c not in failed]
    for cfg in configs:
        # a crate that uses parts of tokio the controlled runtime lacks is explored without it
        binary = build(cfg, needed=cfg != "sched")
        if binary is None:
            skipped.append(cfg)
            print("NOTE: the build with the controlled runtime failed; only the others were explored")
            continue
        tag = f"{prop}.{cfg}"
        out, journal = os.path.join(WORK, tag + ".json"), os.path.join(WORK, tag + ".journal")
        wall = 300 if tier == "quick" else 3000
        cmd = [binary, "worker", prop, tier, "--out", out, "--journal", journal, "--known", KNOWN, "--wall", str(wall)]
        crash = None
        for attempt in (1, 2):
            for f in (out, journal):
                if os.path.exists(f):
                    os.remove(f)
            try:
                code = subprocess.run(cmd, env=env(), timeout=wall + 600).returncode
            except subprocess.TimeoutExpired:
                code = 78
            if code in (0, 1, 3):
                break
            # ended from outside, or by what it was executing: one of the executions in flight, if the latter
            names = subprocess.run([binary, "families", prop], env=env(), stdout=subprocess.PIPE).stdout.decode().split("\n")
            for fam, choices in in_flight(journal):
                bad, msg = run_one(binary, prop, tier, names[fam], choices, 120 if tier == "quick" else 300)
                if bad:
                    crash = (cfg, names[fam], choices, msg)
                    break
            if crash:
                break
            if attempt == 1:
                print(f"NOTE: {cfg}: the explorer ended with status {code} and no execution in flight explains it; once more")
        try:
            with open(out) as f:
                res = json.load(f)
        except (OSError, ValueError):
            res = {"families": []}
        for fam in res["families"]:
            fam["config"] = cfg
            fams_out.append(fam)
            for k in fam.get("knowns", []):
                knowns.setdefault(k["key"], k["msg"])
            if fam.get("violation") and not violation:
                v = fam["violation"]
                violation = (cfg, fam["name"], v["choices"], v["msg"])
            if fam.get("engine_error"):
                errors.append(f"{cfg}/{fam['name']}: {fam['engine_error']}")
        if crash and not violation:
            violation = crash
            fams_out.append(dict(name=crash[1], about="ended by a crash", config=cfg, executions=1, states=0, transitions=0,
                                 compared=0, max_choices=len(crash[2]), exhaustive=False, wall_s=0, samples=[str(crash[2])]))
        elif code not in (0, 1, 3) and not violation:
            errors.append(f"{cfg}: the explorer ended with status {code} and no execution in flight explains it")
        if not res["families"] and not violation and not errors:
            errors.append(f"{cfg}: no result")
        if violation:
            break
    wall_s = round(time.time() - t0, 2)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": sum(f["states"] for f in fams_out),
            "transitions": sum(f["transitions"] for f in fams_out),
            "traces_validated_against_impl": sum(f["compared"] for f in fams_out),
            "evaluations": sum(f["executions"] for f in fams_out),
            "exhaustive": bool(fams_out) and all(f["exhaustive"] for f in fams_out)
            and not violation and not skipped,
            "samples": [f"{f['config']}/{f['name']}: {s}" for f in fams_out for s in f["samples"][:2]][:24],
            "families": [
                {k: f[k] for k in ("config", "name", "about", "executions", "states", "transitions", "compared",
                                   "max_choices", "exhaustive", "wall_s")}
                for f in fams_out
            ],
            "meaning": "evaluations: complete executions of the real crate, one per combination of choices; states: "
            "distinct inputs/observations (64-bit fingerprints); transitions: library calls made; "
            "traces_validated_against_impl: executions whose full observed result was compared with the oracle; "
            "exhaustive: every combination inside the stated bounds was executed",
        },
        "assumptions": ASSUME["*"] + ASSUME.get(prop, []),
        "wall_s": wall_s,
        "violations": 1 if violation else 0,
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, m in sorted(knowns.items()):
        print(f"KNOWN-FINDING: property={prop} {k}: {m[:300]}")
    if violation:
        cfg, fam, choices, msg = violation
        rp = os.path.join(HERE, "replays", f"{prop}-{cfg}-{fam}.txt")
        binary = os.path.join("target", cfg, "release", "mc_sched" if cfg == "sched" else "mc")
        with open(rp, "w") as f:
            f.write(f"property {prop}, build {cfg}, family {fam}, tier {tier}\n{msg}\nreplay (in /verif): "
                    f"{binary} one {prop} {tier} {fam} {','.join(map(str, choices))} --known known_findings.txt\n")
        print(f"{cfg}/{fam} choices {choices}: {msg[:2500]}")
        print(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1)
    if errors:
        print("ERROR: " + "; ".join(errors))
        sys.exit(3)
    print(f"{prop}: held on {ev['coverage']['evaluations']} executions, {ev['coverage']['states']} states, "
          f"exhaustive={ev['coverage']['exhaustive']}, {wall_s} s")


main()
