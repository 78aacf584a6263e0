"""The deductive part: extracts the functions under contract from /repo/src on every run, and has Verus discharge every obligation.

prove(pid, tier) returns failed / coverage / assumptions / report / detail for check.py.
"""
import concurrent.futures, json, os, re, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SRC = "/repo/src"
CONTRACTS = os.path.join(VERIF, "contracts")
EXTRACT = os.path.join(BUILD, "target", "debug", "vp-extract")
OBLIGATIONS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
               "possible arithmetic", "possible division", "decreases not satisfied", "could not prove termination", "loop invariant",
               "unable to prove", "possible bit shift", "loop ensures not satisfied", "ensures not satisfied", "split", "index out of bounds", "the following fields", "failed this", "could not show invariant", "cannot show", "possible overflow", "possible underflow")


def build_extractor():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_NET_OFFLINE="true")
    r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "extract"), env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("the extractor doesn't build:\n" + r.stderr[-2000:])


def setup():
    build_extractor()
    for u in units():
        run_unit(u, 60)


def table():
    return json.load(open(os.path.join(CONTRACTS, "properties.json")))


def units():
    return sorted({e["unit"] for p in table().values() for e in p["units"]})


def read_map(out):
    m = []
    for l in open(out + ".map"):
        a, b, f, k = l.rstrip("\n").split("\t")
        m.append((int(a), int(b), f, k))
    return m


def enclosing(lines, n):
    """The lemma or specification function line n (1-based) belongs to."""
    for i in range(min(n, len(lines)) - 1, -1, -1):
        g = re.search(r"\bfn\s+(\w+)", lines[i])
        if g:
            return g.group(1)
    return "?"


def is_proof_fn(lines, n):
    for i in range(min(n, len(lines)) - 1, -1, -1):
        g = re.search(r"\bfn\s+(\w+)", lines[i])
        if g:
            return "proof fn" in lines[i]
    return False


def run_unit(unit, limit, rlimit=60, extra=()):
    """Extracts and verifies a unit. status: proved | failed | undecided"""
    d = os.path.join(BUILD, "proof")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, unit + ("-probe" if extra else "") + ".rs")
    t0 = time.time()
    res = {"unit": unit, "status": "undecided", "reason": "", "failures": [], "verified": 0, "errors": 0, "functions": [], "assumed": [], "wall_s": 0.0, "smt_ms": 0}
    for f in (out, out + ".map"):
        if os.path.exists(f):
            os.unlink(f)
    r = subprocess.run([EXTRACT, SRC, os.path.join(CONTRACTS, unit + ".vrs"), out, *extra], capture_output=True, text=True)
    if r.returncode != 0:
        res["reason"] = "extraction: " + (r.stdout + r.stderr).strip()[-400:]
        return res
    m = read_map(out)
    text = open(out).read()
    lines = text.split("\n")
    res["functions"] = [f for _, _, f, k in m if k == "verified"]
    res["assumed"] = [f for _, _, f, k in m if k == "assumed"]
    res["text"] = text
    try:
        r = subprocess.run(["verus", "--triggers-mode", "silent", "--rlimit", str(rlimit), "--multiple-errors", "5", "--output-json", "--time",
                            "--error-format=json", "--num-threads", "4", "-V", "spinoff-all", os.path.basename(out)], cwd=d, capture_output=True, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        res["reason"] = f"the verifier's time limit of {limit} s ran out"
        res["wall_s"] = round(time.time() - t0, 2)
        return res
    res["wall_s"] = round(time.time() - t0, 2)
    try:
        j = json.loads(r.stdout)
    except ValueError:
        j = {}
    v = j.get("verification-results", {})
    res["verified"], res["errors"] = v.get("verified", 0), v.get("errors", 0)
    res["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("total", 0)
    other = []
    for l in r.stderr.splitlines():
        if not l.startswith("{"):
            continue
        try:
            d_ = json.loads(l)
        except ValueError:
            continue
        if d_.get("level") != "error" or d_["message"].startswith("aborting due to"):
            continue
        msg = d_["message"]
        if d_.get("code") is None and any(o in msg.lower() for o in OBLIGATIONS) and "not yet support" not in msg:
            spans = sorted(d_["spans"], key=lambda s: not s["is_primary"])
            where, line = None, spans[0]["line_start"] if spans else 0
            for s in spans:
                for a, b, f, k in m:
                    if k == "verified" and a <= s["line_start"] <= b:
                        where = where or f
            name = where or ("lemma " + enclosing(lines, line))
            # is it about a panic, an overflow or termination (and not about what is computed)?
            safety = any(w in msg for w in ("arithmetic", "overflow", "underflow", "division", "bit shift", "decreases", "termination", "index out"))
            if "precondition" in msg:
                req = [s["line_start"] for s in spans if "failed precondition" in (s.get("label") or "")]
                safety = not any(is_proof_fn(lines, n) for n in req)
            res["failures"].append({"function": name, "obligation": msg, "safety": safety, "at": " ".join(lines[line - 1].split())[:200], "rendered": d_.get("rendered", "")})
        else:
            other.append(msg)
    if res["failures"]:
        res["status"] = "failed"
        if other:
            res["reason"] = "; ".join(other)[:300]
    elif v.get("success") and res["verified"] > 0 and not other:
        res["status"] = "proved"
    else:
        res["reason"] = ("; ".join(other) or r.stderr[-300:] or "no result")[:400]
        # A construct outside the dialect, a compile error in the extracted text, or a resource limit: no verdict.
    return res


def scan(text):
    """What the generated text takes for granted: assume/admit never, external_body only on the std model and on functions verified elsewhere."""
    bad = [w for w in ("assume(", "admit(", "assume_specification") if re.search(r"(?<![\w])" + re.escape(w), re.sub(r"//.*", "", text))]
    trusted = []
    for g in re.finditer(r"#\[verifier::external_body\]\s*(?:pub )?(?:broadcast )?(?:proof )?(?:fn|struct)\s+(\w+)", text):
        trusted.append(g.group(1))
    axioms = re.findall(r"\baxiom fn (\w+)", text)
    return bad, trusted, axioms


def prove(pid, tier):
    p = table().get(pid)
    if not p or not p["units"]:
        return None
    build_extractor()
    limit = 200 if tier == "quick" else 400
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        results = list(ex.map(lambda e: run_unit(e["unit"], limit), p["units"]))
    failed, report, detail, undecided = False, [], [], []
    functions, obligations, discharged, smt, trusted, axioms = [], 0, 0, 0, set(), set()
    verified_somewhere = set()
    for e, r in zip(p["units"], results):
        rel = e.get("functions", ["*"])
        relevant = (lambda f: True) if rel == ["*"] else (lambda f, rel=rel: f.startswith("lemma ") or bool({f.split(":", 1)[-1], f.split(":", 1)[-1].split("#")[0]} & set(rel)))
        obligations += r["verified"] + r["errors"]
        discharged += r["verified"]
        smt += r["smt_ms"]
        bad, t, a = scan(r.get("text", ""))
        trusted |= set(t)
        axioms |= set(a)
        if bad:
            r["status"], r["reason"] = "undecided", f"the unit contains {bad}"
        missing = [x for x in p.get("theorems", []) if e is p["units"][0] and not any(re.search(r"proof fn " + x + r"\b", q.get("text", "")) for q in results)]
        if missing and r["status"] == "proved":
            r["status"], r["reason"] = "undecided", f"no theorem {missing}"
        if r["status"] == "proved":
            functions += [f for f in r["functions"] if relevant(f)]
            verified_somewhere |= set(r["functions"])
        if r["status"] == "undecided":
            undecided.append(f"{r['unit']}: {r['reason']}")
            report.append(f"proof of unit {r['unit']}: UNDECIDED ({r['reason'][:300]})")
            continue
        fl = [f for f in r["failures"] if relevant(f["function"]) and (f["safety"] or p.get("obligations") != "safety")]
        report.append(f"proof of unit {r['unit']}: {r['status']}, {r['verified']} obligations discharged, {r['errors']} not, {r['wall_s']} s")
        for f in fl:
            failed = True
            report.append(f"  FAILED obligation: {f['function']}: {f['obligation']} at `{f['at']}`")
            detail.append(f"{r['unit']}: {f['function']}: {f['obligation']}\n{f['rendered']}\n")
        if r["failures"] and not fl:
            undecided.append(f"{r['unit']}: only obligations this property doesn't depend on failed")
    assumed = sorted({f for r in results for f in r["assumed"]} - verified_somewhere)
    cov = {
        "obligations": obligations, "discharged": discharged, "functions_under_contract": functions,
        "theorems": p.get("theorems", []), "undecided": undecided,
        "checker_cmd": "; ".join(f"verus --rlimit 60 -V spinoff-all build/proof/{e['unit']}.rs" for e in p["units"]),
        "solver": "Verus 0.2026.09.13 with Z3", "solver_s": round(smt / 1000, 2),
        "trusted_base": [
            "Verus and Z3", "the extractor /verif/extract (rules in DESIGN.md)",
            "the std model of contracts/prelude.vrs: " + ", ".join(sorted(trusted)) if trusted else "",
            "axioms: " + ", ".join(sorted(axioms)),
        ],
        "assumed_contracts": assumed,
    }
    assumptions = list(p.get("assumptions", []))
    if assumed:
        assumptions.append("contracts assumed here and not verified for this property: " + ", ".join(assumed))
    if undecided:
        assumptions.append("not decided deductively on this tree (only the bounded exploration decides): " + " | ".join(undecided))
    return {"failed": failed, "coverage": cov, "assumptions": assumptions, "report": report, "detail": "\n".join(detail)}
