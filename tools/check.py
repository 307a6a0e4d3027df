#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current tree (see DESIGN.md).
   check.py --build          builds the extractor and the replay engine
   check.py --unit U         verifies one unit and prints what failed (development aid)
   check.py --replay FILE    replays a recorded failing input on the real crate"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DAM_REPO", "/repo")
WS = "/opt/vp/ws"
B = V + "/build"
EXTRACT, WITNESS = B + "/extract/debug/extract", B + "/witness/debug/witness"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
T0 = time.time()


def sh(cmd, cwd=None, env=None, timeout=600, inp=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, input=inp)
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode(errors="replace"), "timeout"


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()


CARGO = {"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"}


def build_extract():
    env = dict(CARGO, CARGO_TARGET_DIR=B + "/extract")
    rc, o, e = sh(["cargo", "build", "--offline"], cwd=V + "/extract", env=env, timeout=800)
    return None if rc == 0 and os.path.exists(EXTRACT) else (e or o)[-3000:]


def build_witness():
    """None when built; otherwise what the compiler said"""
    env = dict(CARGO, CARGO_TARGET_DIR=B + "/witness", RUSTFLAGS="--cfg dam_verif")
    h = tree_hash(REPO + "/src", REPO + "/dam-macros", V + "/witness/src")
    stamp = B + "/witness.stamp"
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h and os.path.isdir(B + "/witness"):
        # do not rely on modification times: the crate's sources changed
        for pk in ("dam", "dam-macros", "witness"):
            sh(["cargo", "clean", "--offline", "-p", pk], cwd=V + "/witness", env=env)
    rc, o, e = sh(["cargo", "build", "--offline"], cwd=V + "/witness", env=env, timeout=800)
    if rc != 0:
        if os.path.exists(stamp):
            os.remove(stamp)
        return e[-3000:]
    open(stamp, "w").write(h)
    return None


# ---------------------------------------------------------------- proofs
def spec_args(specs):
    a = []
    for s in specs:
        a += ["--assume" if s[0] == "+" else "--spec", f"{V}/spec/{s.lstrip('+')}.vs"]
    return a


def emit(unit, out, extra=()):
    """run the extractor; returns (items, error)"""
    m = out + ".json"
    rc, o, e = sh([EXTRACT, "--repo", REPO, *spec_args(props.UNITS[unit]), "--out", out, "--map", m, *extra], timeout=120)
    if rc != 0 or not os.path.exists(m):
        return [], (e or o)[-2000:] or "extractor failed"
    return json.load(open(m))["items"], None


ERR = re.compile(r"^error(\[E\d+\])?: ", re.M)


def run_verus(f, extra=()):
    rc, o, e = sh(["verus", f, "--output-json", "--time-expanded", "--multiple-errors", "6", *extra], timeout=600, cwd=os.path.dirname(f))
    try:
        j = json.loads(o[o.index("{"):])
    except (ValueError, KeyError):
        j = None
    blocks = []
    pos = [m.start() for m in ERR.finditer(e)] + [len(e)]
    for a, b in zip(pos, pos[1:]):
        t = e[a:b].strip()
        if t.startswith("error: aborting"):
            continue
        lines = {int(x) for x in re.findall(r"^\s*(\d+)\s*\|", t, re.M)} | {int(x) for x in re.findall(r"-->\s*[^\s:]+:(\d+):\d+", t)}
        blocks.append((t.splitlines()[0], lines, t))
    return rc, j, blocks, e


def owner(items, lines):
    """functions whose emitted text contains one of the lines"""
    r = [i for i in items if any(i["out_start"] <= l <= i["out_end"] for l in lines)]
    return r


class Unit:
    def __init__(s, name):
        s.name, s.items, s.failed, s.undecided, s.lost = name, [], {}, {}, {}
        s.error, s.verified, s.errors, s.times, s.trusted, s.solver_ms, s.vacuous = None, 0, 0, {}, [], 0.0, []
        s.smoke_n = 0

    def fns(s):
        return [i for i in s.items if i.get("kind") == "fn" and not i.get("assumed") and not i.get("contract_only") and i["key"] not in s.lost]


def fn_leaf(key):
    f, _, r = key.partition("::")
    sel, _, name = r.rpartition("::")
    return sel, name


def structural(i):
    """the function's shape left what its contract was written for"""
    r = []
    for k in ("unsupported", "loops_unmatched"):
        if i.get(k):
            r.append(f"{k}: {i[k]}")
    if i.get("extra_loops"):
        r.append("a loop without invariant")
    if i.get("unknown_callees"):
        r.append(f"calls without contract: {i['unknown_callees']}")
    return "; ".join(r)


def trusted_of(path, items):
    """assumed contracts in the text; those of functions discharged in another unit are not counted"""
    ls = open(path).read().split("\n")
    for i in items:
        if i.get("assumed"):
            for l in range(i["out_start"] - 1, min(i["out_end"], len(ls))):
                ls[l] = ""
            for l in (i["out_start"] - 2, i["out_start"] - 3):
                if 0 <= l and "external_body" in ls[l]:
                    ls[l] = ""
    t = "\n".join(l for l in ls if not l.rstrip().endswith("// case split"))
    out = set()
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([a-z]+\))?\s+)?(?:broadcast\s+)?(proof fn|fn|struct|enum)\s+(\w+)", t):
        out.add(f"{m.group(1)} {m.group(2)}")
    for m in re.finditer(r"assume_specification\s*(?:<[^>]*>)?\s*\[\s*([^\]]+)\]", t):
        out.add("std contract " + re.sub(r"\s+", "", m.group(1)))
    for m in re.finditer(r"\b(assume|admit)\s*\(", t):
        out.add(f"{m.group(1)} at generated line {t.count(chr(10), 0, m.start()) + 1}")
    return sorted(out)


def verify(unit, tmp):
    u = Unit(unit)
    out = f"{tmp}/{unit}.rs"
    stubs = {}
    for attempt in range(6):
        extra = ["--stub", ",".join(stubs)] if stubs else []
        items, err = emit(unit, out, extra)
        if err:
            u.error = "extraction: " + err
            return u
        u.items = [i for i in items if i.get("kind") == "fn"]
        for i in u.items:
            if i.get("error"):
                u.lost[i["key"]] = i["error"]
        items = [i for i in u.items if "out_start" in i]
        rc, j, blocks, raw = run_verus(out)
        if rc == 124:
            u.error = "the verifier ran out of time"
            return u
        ran = j is not None and "verification-results" in j and not j["verification-results"].get("encountered-vir-error") and \
            any(m.get("function-breakdown") for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []))
        if ran:
            break
        # does not compile as it stands: leave out the functions the messages point at
        new = {}
        for head, lines, t in blocks:
            for i in owner(items, lines):
                if i["key"] not in stubs and not i.get("contract_only") and not i.get("assumed"):
                    new[i["key"]] = head
        if not new:
            u.error = "the extracted text is outside the verifier's subset: " + (blocks[0][2][:800] if blocks else raw[-800:])
            return u
        stubs.update(new)
        u.lost.update(new)
    else:
        u.error = "the extracted text is outside the verifier's subset"
        return u
    vr = j["verification-results"]
    u.verified, u.errors = vr["verified"], vr["errors"]
    smt = j["times-ms"]["smt"]
    u.solver_ms = smt.get("smt-run", 0)
    bad = set()
    for m in smt["smt-run-module-times"]:
        for f in m.get("function-breakdown", []):
            p = f["function"].split("::")
            u.times[f["function"]] = f.get("time-micros", f.get("time", 0))
            if not f["success"]:
                bad.add((p[-2] if len(p) > 1 else "", p[-1]))
    unplaced = []
    for head, lines, t in blocks:
        os_ = [i for i in owner(items, lines) if not i.get("assumed") and not i.get("nobody")]
        def isbad(i):
            sel, name = fn_leaf(i["key"])
            return any(n in (name, i.get("emit_as") or name) or n.endswith(name) for (_, n) in bad)
        cand = [i for i in os_ if isbad(i)] or os_
        # a failed postcondition mentions the contract (declaration) and the body; the body's function is the one that failed
        if not cand:
            unplaced.append(t)
            continue
        for i in cand:
            k = i["key"]
            if "rlimit" in t.lower() or "resource limit" in t.lower():
                u.undecided.setdefault(k, []).append("solver resource limit")
            elif structural(i):
                u.undecided.setdefault(k, []).append(structural(i))
            elif i["key"] in stubs:
                u.undecided.setdefault(k, []).append("left out")
            else:
                u.failed.setdefault(k, []).append(t)
    for t in unplaced:
        u.undecided.setdefault(f"{unit}::lemmas", []).append(t)
    u.trusted = trusted_of(out, items)
    # vacuity: an assertion of false behind every precondition must fail
    so = f"{tmp}/{unit}_smoke.rs"
    sitems, err = emit(unit, so, (["--stub", ",".join(stubs)] if stubs else []) + ["--smoke"])
    if not err:
        _, sj, sblocks, _ = run_verus(so)
        txt = open(so).read().splitlines()
        hit = set()
        for _, lines, _ in sblocks:
            hit |= lines
        for i in sitems:
            if i.get("kind") == "fn" and "out_start" in i and not i.get("assumed") and not i.get("contract_only") and not i.get("nobody") and i["key"] not in stubs:
                marks = [l for l in range(i["out_start"], i["out_end"] + 1) if l - 1 < len(txt) and "// smoke" in txt[l - 1]]
                if marks:
                    u.smoke_n += 1
                    if not any(l in hit for l in marks) and i["key"] not in u.failed and i["key"] not in u.undecided:
                        u.vacuous.append(i["key"])
    for k in u.vacuous:
        u.undecided.setdefault(k, []).append("vacuous: its precondition is contradictory")
    return u


# ---------------------------------------------------------------- bounded runs
def witness(fams, seed, cases, secs):
    """runs the real crate; returns (stats, failure)"""
    stats, fail = [], None
    def one(f):
        return sh([WITNESS, "run", f, str(seed), str(cases), str(secs)], timeout=secs * 3 + 240)
    for f in fams:
        rc, o, e = one(f)
        for l in o.splitlines():
            if l.startswith("FAMILY"):
                d = dict(x.split("=") for x in l.split()[2:])
                stats.append(dict(family=f, seed=seed, cases=int(d["cases"]), distinct=int(d["distinct"]), ms=int(d["wall_ms"]), samples=[]))
            elif l.startswith("SAMPLE") and stats:
                stats[-1]["samples"].append(l.split(" ", 2)[2][:700])
            elif l.startswith("FAIL"):
                m = re.match(r"FAIL family=(\S+) seed=(\d+) index=(\d+) (.*)", l)
                fail = fail or dict(family=m.group(1), seed=int(m.group(2)), index=int(m.group(3)), message=m.group(4))
        if fail:
            break
    return stats, fail


def rec(stats):
    return sum(s["cases"] for s in stats), sum(s["distinct"] for s in stats)


def match(key, pats, msgs=None):
    """the messages of function `key` that count under the patterns: `key`, `key#text` (those with the text), `key!text` (without)"""
    out = []
    for p in pats:
        m = re.match(r"(.*?)(?:([#!])(.*))?$", p)
        k, op, text = m.group(1), m.group(2), m.group(3)
        if re.match(k if "<" in k and ".*" in k else re.escape(k), key):
            if msgs is None:
                return True
            out += [x for x in msgs if x not in out and (not op or (text in x) == (op == "#"))]
    return out


def main():
    a = sys.argv[1:]
    os.makedirs(B, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    if a[0] == "--build":
        with cf.ThreadPoolExecutor(2) as ex:
            r = [f.result() for f in (ex.submit(build_extract), ex.submit(build_witness))]
        for x in r:
            if x:
                print(x)
        sys.exit(1 if any(r) else 0)
    if a[0] == "--unit":
        build_extract()
        with tempfile.TemporaryDirectory(prefix="dv_") as tmp:
            for n in a[1:]:
                u = verify(n, tmp)
                print(n, "verified", u.verified, "errors", u.errors, "error", u.error, "lost", u.lost, "vacuous", u.vacuous, "smoke", u.smoke_n, "fns", len(u.fns()))
                for k, v in list(u.failed.items()) + list(u.undecided.items()):
                    print("  ", k, v[0][:1500])
        return
    if a[0] == "--replay":
        build_witness()
        d = json.load(open(a[1]))
        if "family" in d:
            sys.exit(subprocess.call([WITNESS, "one", d["family"], str(d["seed"]), str(d["index"])]))
        print(d.get("verifier", ""))
        sys.exit(1)
    pid = a[0]
    p = next(x for x in props.P if x["id"] == pid)
    with tempfile.TemporaryDirectory(prefix="dv_") as tmp:
        decide(p, tmp)


def decide(p, tmp):
    pid, fams, thorough = p["id"], p["fams"], TIER == "thorough"
    notes, units = [], []
    ex = cf.ThreadPoolExecutor(6)
    fw = ex.submit(build_witness)
    if p["units"]:
        err = build_extract()
        if err:
            notes.append("the extractor did not build: " + err[-500:])
        else:
            units = list(ex.map(lambda n: verify(n, tmp), props.closure(p["units"])))
    werr = fw.result()
    if werr:
        notes.append("the replay engine does not build against this tree: " + werr[-600:])
    # --- proof verdict
    fail_primary, fail_support, undecided = {}, {}, {}
    rel = lambda k: True
    for u in units:
        if u.error:
            undecided[f"unit {u.name}"] = u.error
        for k, v in u.lost.items():
            if rel(k):
                undecided[k] = v
        for k, v in u.undecided.items():
            if rel(k) or k.endswith("::lemmas"):
                undecided[k] = v[0][:600]
        for k, v in u.failed.items():
            mine = match(k, p["primary"], v)
            rest = [x for x in v if x not in mine]
            if mine:
                fail_primary[k] = mine
            if rest:
                fail_support[k] = rest
    fns = sorted({i["key"] for u in units for i in u.fns() if rel(i["key"])})
    if p["units"] and not fns and not undecided:
        undecided["(all)"] = "no function under contract was found"
    proof_ok = not (fail_primary or fail_support or undecided)
    # --- bounded run: cross-check of the trusted contracts; longer when the proof did not go through, to find a failing input
    stats, fail = [], None
    if not werr and fams:
        base = 60 if thorough else (4 if p["units"] and proof_ok else 10 if p["units"] else 8)
        stats, fail = witness(fams, SEED, 10_000_000 if thorough else 400_000, base)
        if not fail and not proof_ok:
            for s in range(1, 4):
                st, fail = witness(fams, SEED + 1000 * s, 10_000_000, 20)
                stats += st
                if fail:
                    break
    # --- verdict
    violation, inputless = None, False
    os.makedirs(B + "/replay", exist_ok=True)
    replay = f"{B}/replay/{pid}.json"
    if fail:
        violation = dict(fail, replay_cmd=f"python3 {V}/tools/check.py --replay {replay}", property=pid)
        if fail_primary or fail_support:
            violation["failed_obligations"] = sorted(set(fail_primary) | set(fail_support))
            violation["verifier"] = "\n\n".join(t for v in list(fail_primary.values()) + list(fail_support.values()) for t in v)[:20000]
    elif fail_primary:
        inputless = True
        violation = dict(property=pid, failed_obligations=sorted(fail_primary), verifier="\n\n".join(t for v in fail_primary.values() for t in v)[:20000],
                         note="no failing input found by the bounded replay")
    known = [k for k in known_findings() if k["property"] == pid]
    cases, distinct = rec(stats)
    wall = time.time() - T0
    cov = {}
    assumptions = []
    if p["level"] == "proof":
        per = {}
        for u in units:
            per[u.name] = dict(verified=u.verified, errors=u.errors, functions_under_contract=len(u.fns()), solver_ms=u.solver_ms,
                               vacuity_canaries=u.smoke_n, vacuous=u.vacuous, error=u.error)
        ob = sum(u.verified + u.errors for u in units)
        cov.update(obligations=ob, discharged=sum(u.verified for u in units), back_end="Verus 0.2026.09 / Z3 (bundled)",
                   checker_cmd="extract --repo /repo <unit specs> --out U.rs; verus U.rs --multiple-errors 6",
                   obligations_rule="verification queries per function and lemma as counted by Verus over the units of this property",
                   trusted_base=sorted({t for u in units for t in u.trusted}), functions_under_contract=fns, units=per,
                   slowest_functions_us=dict(sorted(((k, t) for u in units for k, t in u.times.items()), key=lambda x: -x[1])[:8]),
                   undischarged=sorted(list(fail_primary) + list(fail_support)), undecided=undecided,
                   decided_by="bounded stand-in (proof undecided on this tree)" if not proof_ok and not violation else "proof")
        cov["dropped_by_extraction"] = sum(i.get("dropped", 0) for u in units for i in u.items if rel(i["key"]))
        assumptions += ["times and cycle counts stay below 2^62 (machine arithmetic does not overflow)",
                        "external_body contracts (trusted_base): std atomics, mutexes, park/unpark, crossbeam channels, as stated in spec/*.vs",
                        "the extractor's rewriting (DESIGN.md, Extraction) preserves meaning; log statements are dropped"]
        cov["bounded_cross_check"] = dict(label="bounded, not counted as proved", evaluations=cases, distinct=distinct,
                                          families=[{k: s[k] for k in ("family", "seed", "cases", "distinct", "ms")} for s in stats])
    else:
        cov.update(evaluations=cases, distinct_nontrivial=distinct,
                   rule="seeded random cases of the families " + ", ".join(fams) + " on the real crate against a reference written from the statement; distinct non-trivial: different case descriptions with more than a degenerate size",
                   samples=[x for s in stats for x in s["samples"]][:6], families=[{k: s[k] for k in ("family", "seed", "cases", "distinct", "ms")} for s in stats],
                   label="bounded")
        if p["units"]:
            cov["proved_part"] = dict(functions_under_contract=fns, obligations=sum(u.verified + u.errors for u in units), discharged=sum(u.verified for u in units),
                                      solver_ms=sum(u.solver_ms for u in units), trusted_base=sorted({t for u in units for t in u.trusted}), undecided=undecided)
    if notes:
        cov["notes"] = notes
    ev = dict(property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=p["level"], coverage=cov, assumptions=assumptions,
              wall_s=round(wall, 2), violations=1 if violation else 0)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for k, v in undecided.items():
        print(f"undecided: {k}: {str(v)[:300]}")
    if fail_support and not violation:
        print("undischarged obligations of other functions (no failing input for this property):", ", ".join(sorted(fail_support)))
    print(f"{pid}: functions under contract {len(fns)}, queries verified {sum(u.verified for u in units)}, bounded cases {cases}, {wall:.1f}s")
    for n in notes:
        print("note:", n[:400])
    if violation:
        json.dump(violation, open(replay, "w"), indent=1)
        if fail:
            print("failing input:", fail["family"], fail["seed"], fail["index"], fail["message"][:1200])
        for k in sorted(fail_primary) + sorted(fail_support):
            print("failed obligation:", k, "|", (fail_primary.get(k) or fail_support.get(k))[0].splitlines()[0])
        print(f"VIOLATION property={pid} replay={replay}" + (" no-failing-input-found" if inputless else ""))
        sys.exit(1)
    sys.exit(0)


def known_findings():
    out = []
    f = V + "/known-findings.txt"
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) (\S+) (.*)", l)
            if m:
                out.append(dict(property=m.group(1), id=m.group(2), what=m.group(3)))
    return out


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
