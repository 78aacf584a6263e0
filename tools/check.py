#!/usr/bin/env python3
"""Usage: check.py ID | --setup | --replay FILE.  VERIF_SEED and VERIF_TIER select the seed and the depth.

A check (1) extracts the functions under contract from /repo's current sources and has Verus verify them against
their contracts (tools/prove.py), and (2) runs the bounded exploration of the property on the real code.
Exit 0: quiet. Exit 1: "VIOLATION property=<id> replay=<path>[ no-failing-input-found]".
"""
import fcntl, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, os.path.join(VERIF, "tools"))

ENV = dict(os.environ)
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
ENV.update(CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
           CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
for k in ("CARGO_PROFILE_DEV_DEBUG", "RUSTFLAGS", "MARKDOWN_FMT_LOG"):
    ENV.pop(k, None)
ENV.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
HARNESS = os.path.join(BUILD, "target/debug/vp-harness")
BIN = os.path.join(BUILD, "target/debug/markdown-fmt")


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                          timeout=timeout, **kw)


def cargo(args):
    r = run(["cargo", *args])
    if r.returncode:
        print(r.stdout[-4000:])
        print("check.py: building failed: cargo " + " ".join(args))
        sys.exit(2)


def build(pid=None):
    """Always from the current sources: cargo's change detection (modification times) isn't relied on."""
    man = os.path.join(VERIF, "harness/Cargo.toml")
    run(["cargo", "clean", "--offline", "--manifest-path", man, "-p", "markdown-fmt"])
    cargo(["build", "--offline", "--locked", "--manifest-path", man])
    if pid in (None, "C16"):
        cargo(["build", "--offline", "--locked", "--manifest-path", REPO + "/Cargo.toml",
               "--features", "build-binary", "--bin", "markdown-fmt"])


def explore(pid, seed, mult, seconds, replay):
    """-> (violated, summary, text)"""
    out = os.path.join(BUILD, f"explore-{pid}.json")
    if os.path.exists(out):
        os.unlink(out)
    ENV["VP_BIN"] = BIN
    ENV["VP_MULT"] = str(mult)
    args = [HARNESS, "explore", pid, str(seed), "0", str(seconds), out, replay]
    r = run(args)
    if r.returncode not in (0, 1):
        # The process was ended (stack overflow, abort): find out by which input.
        trace = os.path.join(BUILD, f"trace-{pid}")
        os.makedirs(trace, exist_ok=True)
        for f in os.listdir(trace):
            os.unlink(os.path.join(trace, f))
        r2 = run(args + [trace])
        if r2.returncode in (0, 1) and os.path.exists(out):
            r = r2
        else:
            for f in sorted(os.listdir(trace)):
                p = os.path.join(trace, f)
                if run([HARNESS, "replay", p]).returncode not in (0, 2):
                    os.replace(p, replay)
                    return True, {"evaluations": 1, "distinct_nontrivial": 1, "violations": 1, "samples": [], "rule": ""}, \
                        "formatting ended the process:\n" + open(replay).read()[:2000]
            print(r.stdout[-2000:])
            print("check.py: the exploration ended abnormally, and no input was found that does it")
            sys.exit(2)
    summary = json.load(open(out)) if os.path.exists(out) else {}
    return r.returncode == 1, summary, r.stdout


def known_findings(pid):
    """Prints the listed findings of this property that still fail."""
    f = os.path.join(VERIF, "known-findings.txt")
    lines = [l.rstrip("\n") for l in open(f) if l.startswith(pid + "\t")]
    if not lines:
        return 0
    r = run([HARNESS, "known", f])
    states = [l.split("\t")[-1] for l in r.stdout.splitlines() if l.startswith(pid + "\t")]
    n = 0
    for l, s in zip(lines, states):
        if s == "fails":
            c = l.split("\t")
            print(f"KNOWN-FINDING: property={pid} {c[5]} (input {c[4]!r}, max_width {c[2]})")
            n += 1
    return n


def main():
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    arg = sys.argv[1]
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if arg == "--setup":
        build()
        # the trusted model of std and textwrap, compared with std and textwrap
        r = run([HARNESS, "model", "1", "100000"])
        print(r.stdout, end="")
        if r.returncode != 0:
            return 1
        import prove
        prove.setup()
        return 0
    if arg == "--replay":
        build()
        ENV["VP_BIN"] = BIN
        text = open(sys.argv[2]).read()
        if "\ninput" not in text:
            print(text)
            print("This file names a failed proof obligation; there is no input to run.")
            return 0
        r = run([HARNESS, "replay", sys.argv[2]])
        print(r.stdout, end="")
        return r.returncode
    pid = arg
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    build(pid)
    proof = None
    try:
        import prove
        proof = prove.prove(pid, tier)
    except ImportError:
        pass
    t_proof = time.time() - t0
    replay = os.path.join(EVID, f"{pid}.replay.txt")
    if os.path.exists(replay):
        os.unlink(replay)
    mult, secs = (5, 90) if tier == "quick" else (200, 500)
    failed = bool(proof and proof["failed"])
    if failed:
        # An obligation isn't discharged: look harder for an input that shows it.
        mult, secs = max(mult, 40), max(secs, 200)
    violated, ex, text = explore(pid, seed, mult, secs, replay)
    known = known_findings(pid)
    manifest = {c["property"]: c for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]}
    level = manifest.get(pid, {}).get("level", "exploration")
    cov = {
        "evaluations": ex.get("evaluations", 0), "distinct_nontrivial": ex.get("distinct_nontrivial", 0),
        "rule": ex.get("rule", ""), "samples": ex.get("samples", []),
        "outside_precondition": ex.get("outside_precondition", 0), "known_findings_reproduced": known,
        "bounded": "the exploration of the public API is bounded: it covers the cases counted here, and proves nothing",
    }
    assumptions = []
    if proof:
        cov.update(proof["coverage"])
        assumptions = proof["assumptions"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": int(violated or failed)}
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if proof:
        for l in proof["report"]:
            print(l)
    if violated:
        print(text.rstrip()[:3000])
        if failed:
            with open(replay, "a") as f:
                f.write("\nfailed obligations:\n" + proof["detail"])
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    if failed:
        with open(replay, "w") as f:
            f.write(f"property: {pid}\nno failing input found\n\nfailed obligations:\n" + proof["detail"])
        print(f"VIOLATION property={pid} replay={replay} no-failing-input-found")
        return 1
    print(f"{pid}: quiet; {cov['evaluations']} cases explored, {cov['distinct_nontrivial']} distinct and non-trivial")
    return 0


sys.exit(main())
