#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree.

1. deductive step (deciding): extract every function from /repo/src, splice in
   the contracts of /verif/contracts, let Verus discharge every obligation.
2. counterexample search: the same contracts, executable, run against the real
   crate (harness/); it supplies failing inputs, and is the labelled-bounded
   stand-in for every function the verifier could not take this run.
Exit 0: held; exit 1 with a VIOLATION line: broken."""
import json, os, re, subprocess, sys, threading, time
import vp

VERIF = vp.VERIF
BUILD = vp.BUILD
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
DEEP = TIER == "thorough"
FEATURE = {"C13": "c04", "C09": "c05", "C10": "c05", "C14": "c05", "C06": "c03", "C15": "c03", "C12": "c11", "C07": "c11", "C20": "c19"}
ENTITLED = {"C01", "C04", "C15", "C19"}   # properties a matrix that cannot be built at all breaks


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------ native search

def cargo(args, timeout=700, **env):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.update(env)
    return subprocess.run(["cargo", *args], capture_output=True, text=True, timeout=timeout, env=e, cwd=os.path.join(VERIF, "harness"))


# properties that promise forms: a form that no longer compiles is a violation
CLIENT = {"C18": "the operator forms", "C19": "the documented construction forms (macros, conversions)"}


def build_harness(features, sub="harness"):
    td = os.path.join(BUILD, sub)
    r = cargo(["build", "--offline", "--no-default-features", "--features", features, "--target-dir", td])
    return (os.path.join(td, "debug", "harness") if r.returncode == 0 else None), r.stderr


def run_harness(exe, which, timeout, env=None, deep=False):
    e = dict(os.environ, VERIF_SEED=str(SEED))
    for k in ("FORCE_COLOR", "NO_COLOR", "VP_DEEP", "VP_TRACE", "RUST_BACKTRACE"):
        e.pop(k, None)
    if deep:
        e["VP_DEEP"] = "1"
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run([exe, which], capture_output=True, text=True, timeout=timeout, env=e, errors="replace")
        return r.returncode, r.stdout, r.stderr, time.time() - t
    except subprocess.TimeoutExpired as x:
        return None, "", "", time.time() - t


def search(prop, deep, limit=None):
    """-> {status: pass|fail|setup|nobuild, cases, text}"""
    feat = FEATURE.get(prop, prop.lower())
    exe, err = build_harness(feat)
    if exe is None:
        # the crate compiles, a client of its public interface does not
        client = "could not compile `harness`" in err and "signal:" not in err and re.search(r"^error", err, re.M)
        if client:
            err = "\n\n".join(b for b in re.split(r"\n\n", err) if re.match(r"error", b))[:6000]
        return {"status": "nobuild", "client": bool(client), "cases": 0, "text": err[-6000:], "cmd": f"cd {VERIF}/harness && cargo build --offline --no-default-features --features {feat}"}
    limit = limit or (600 if deep else 240)
    rc, out, err, wall = run_harness(exe, prop, limit, deep=deep)
    res = {"cases": 0, "text": out[-6000:], "wall": wall, "cmd": f"{exe} {prop}"}
    m = re.search(r"PASS cases=(\d+)", out)
    if rc == 0 and m:
        res.update(status="pass", cases=int(m.group(1)))
    elif rc == 3:
        res.update(status="setup")
    elif rc == 1 and out.startswith("FAIL") or rc == 1 and "\nFAIL " in out:
        res.update(status="fail")
    else:
        # died or never ended: find the case by a traced run
        tr = os.path.join(BUILD, f"trace-{prop}.txt")
        if os.path.exists(tr):
            os.remove(tr)
        rc2, out2, err2, _ = run_harness(exe, prop, limit, env={"VP_TRACE": tr}, deep=deep)
        last = ""
        if os.path.exists(tr):
            with open(tr, errors="replace") as f:
                for last in f:
                    pass
        how = "did not end" if rc is None else f"the process died (status {rc})"
        again = "did not end" if rc2 is None else f"status {rc2}"
        res.update(status="fail" if rc2 != 0 else "pass",
                   text=f"{how}; rerun with tracing: {again}\ncase: {last.strip()}\n{out[-2000:]}\n{err[-2000:]}{err2[-2000:]}")
    return res


# ------------------------------------------------------------ deduction

TYPES = ("type", "const", "struct", "enum")


def scope(items, cs, traits, skipfiles):
    """Items to leave out: nothing contracted there, and nothing contracted calls them."""
    by_short = {}
    for it in items:
        if it.kind == "fn":
            by_short.setdefault(it.path.rsplit("::", 1)[-1], []).append(it)
    keep, opaque = set(), set()
    text = "\n".join("\n".join(v) for v in traits.values())
    todo = []
    for it in items:
        if it.file in skipfiles:
            continue
        if it.kind in TYPES or it.kind in ("trait", "traitimpl"):
            keep.add(it.path)
            if it.kind == "traitimpl":
                todo += it.calls
        elif it.path in cs:
            keep.add(it.path)
            if not cs[it.path].trusted:
                todo += it.calls
    seen = set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for it in by_short.get(n, []):
            if it.path not in keep and it.file not in skipfiles:
                keep.add(it.path)
                opaque.add(it.path)
    return keep, opaque


def vacuity(d):
    """Every verified function and lemma with `assert(false)` at its exit: each must fail,
    or what is known there is contradictory."""
    opts = dict(d["opts"], probe={"*"})
    o, info = vp.compose(d["items"], d["cs"], d["traits"], opts)
    wd = os.path.join(BUILD, "verus-probe")
    os.makedirs(wd, exist_ok=True)
    errs = vp.analyse(o, vp.run_verus(o, wd, timeout=800))
    hit = {e["probe"] for e in errs if e["probe"]}
    asked = {m["fn"] for m in o.meta if m and m.get("k") == "probe" and info[m["fn"]]["contract"] and not info[m["fn"]]["trusted"]}
    return sorted(asked), sorted(asked - hit)


DEADLINE = 560     # seconds for all rounds of the verifier


def deduce():
    """Runs Verus until only real proof failures are left."""
    d = {"failures": [], "degraded": {}, "fatal": None, "rounds": 0, "wall": 0.0}
    t0 = time.time()
    try:
        exe = vp.build_vx()
        items, skips = vp.extract(exe)
    except RuntimeError as x:
        d["fatal"] = str(x)
        return d
    cs, traits = vp.load_contracts()
    keep, opaque = scope(items, cs, traits, vp.SKIPFILES)
    known = {it.path for it in items}
    trust = {}
    opts = {"trust": {}, "drop": {it.path: True for it in items if it.path not in keep}, "probe": set(), "opaque": set()}
    for p in opaque:
        opts["trust"][p] = "helper without a contract"
    calls = {it.path: set(it.calls) for it in items}
    renamed = dict(n.split("RENAMED ", 1)[1].split(": ", 1) for it in items for n in it.notes if "RENAMED " in n)
    oshort = {p.rsplit("::", 1)[-1] for p in opaque}
    d.update(items=items, skips=skips, cs=cs, opaque=opaque, traits=traits, opts=opts)
    wd = os.path.join(BUILD, "verus")
    os.makedirs(wd, exist_ok=True)
    for rnd in range(14):
        d["rounds"] = rnd + 1
        o, info = vp.compose(items, cs, traits, opts)
        d["info"] = info
        missing = [c for c in cs if not cs[c].used and c != "trait"]
        d["missing"] = missing
        # hints that found no place: the proof cannot be attempted as written
        new = {p: "its proof hints %s have no place in the current code" % ", ".join(i["lost"]) for p, i in info.items() if i["lost"] and p not in opts["trust"]}
        if new:
            opts["trust"].update(new)
            d["degraded"].update(new)
            continue
        left = DEADLINE - (time.time() - t0)
        if left < 20:
            d["fatal"] = "out of time after %d rounds" % rnd
            return d
        res = vp.run_verus(o, wd, timeout=left)
        d["wall"] += res["wall"]
        d["o"], d["res"] = o, res
        if res["timeout"]:
            d["fatal"] = "verus timed out"
            return d
        errs = vp.analyse(o, res)
        again = False
        bad = [e for e in errs if not e["verif"]]
        if not errs and not res["json"]:
            d["fatal"] = "verus crashed: " + res.get("stderr", "")[-1500:]
            return d
        for e in bad:
            p = e["fn"]
            why = "%s (%s)" % ("solver gave up" if e["rlimit"] else "not accepted by the verifier", e["msg"][:160])
            if p is None or p.startswith("lemma "):
                f = prelude_of(o, e)
                if f and f[:2] not in CORE:
                    if f not in opts.get("dropfiles", ()):
                        d["degraded"].update(vp.drop_prelude(f, items, cs, opts))
                    again = True
                    continue
            if p is None or p not in info:
                d["fatal"] = "verifier rejects the extracted text: " + e["rendered"][:1500]
                return d
            if p not in opts["trust"]:
                opts["trust"][p] = why
                d["degraded"][p] = why
                again = True
            elif p not in opts["opaque"] and p in cs:
                opts["opaque"].add(p)
                d["degraded"][p] = why + "; contract dropped"
                again = True
            elif not again and p not in opts["drop"]:
                opts["drop"][p] = True
                d["degraded"][p] = why + "; left out"
                again = True
        if bad and not again:
            d["fatal"] = "verifier rejects the extracted text: " + bad[0]["rendered"][:1500]
            return d
        if again:
            continue
        # definite failures; those in functions that lean on a helper without contract are degraded
        fails = []
        for e in errs:
            p = e["fn"]
            if p is None:
                f = prelude_of(o, e)
                if f and f[:2] not in CORE:
                    if f not in opts.get("dropfiles", ()):
                        d["degraded"].update(vp.drop_prelude(f, items, cs, opts))
                    again = True
                    continue
                d["fatal"] = "unattributed failure: " + e["rendered"][:1500]
                return d
            gone = {q.rsplit("::", 1)[-1] for q in list(opts["opaque"]) + [x for x in opts["drop"] if x in d["degraded"]]}
            lean = calls_of(p, calls, items) & (oshort | gone)
            if lean and p not in opts["trust"]:
                opts["trust"][p] = "it calls %s, which has no contract" % ", ".join(sorted(lean))
                d["degraded"][p] = opts["trust"][p]
                again = True
            elif p in renamed and p not in opts["trust"]:
                opts["trust"][p] = "its locals have other names than its proof hints, and the proof fails after %s" % renamed[p]
                d["degraded"][p] = opts["trust"][p]
                again = True
            elif info[p].get("bare") and p not in opts["trust"]:
                # no proof was attempted: the loop is new, so nothing says what it maintains
                opts["trust"][p] = "it has a loop or closure its contract says nothing about"
                d["degraded"][p] = opts["trust"][p]
                again = True
            else:
                fails.append(e)
        if again:
            continue
        d["failures"] = fails
        return d
    d["fatal"] = "no stable verification state after 14 rounds"
    return d


CORE = ("a_", "b_", "c_", "d_")


def prelude_of(o, e):
    for n in e["lines"]:
        m = o.meta[n - 1] if n <= len(o.meta) else None
        if m and m.get("k") == "prelude":
            return m["file"]
    return None


def calls_of(p, calls, items):
    if p in calls:
        return calls[p]
    for it in items:           # a method of a trait impl: the impl's calls
        if p.startswith(it.path + "::"):
            return calls[it.path]
    return set()


def props_of(e, d):
    """The properties a failed obligation is about."""
    c = e["clause"]
    i = d["info"].get(e["fn"], {})
    ps = set(i.get("props") or [])
    if c:
        if c.get("tags"):
            t = set(c["tags"])
            if "MEM" in t:
                t = (t - {"MEM"}) | {"C03", "C04"} | ps
            return t
    return ps


def related(prop, d):
    """Functions whose contract or clauses are about `prop`."""
    out = []
    for p, i in d["info"].items():
        if prop in (i.get("props") or []):
            out.append(p)
        elif about(prop, d["cs"].get(p)):
            out.append(p)
    return out


def about(prop, c):
    return c is not None and (prop in c.props or any(prop in (vp.tags_of("\n".join(x)) or []) for x in c.ensures))


def obligations(d, names):
    """Named obligations of these functions: clauses, invariants, assertions in
    the composed text, and one safety obligation (preconditions of callees,
    arithmetic, termination) per function with a body."""
    n = {}
    for m in d["o"].meta:
        if m and m.get("fn") in names:
            i = d["info"].get(m["fn"], {})
            if i.get("trusted"):
                continue
            if m["k"] in ("ensures", "invariant"):
                n.setdefault(m["fn"], set()).add((m["k"], m.get("i"), m["text"]))
            elif m["k"] == "proof" and "assert" in m["text"]:
                n.setdefault(m["fn"], set()).add((m["k"], m["at"], m["text"]))
            elif m["k"] == "panic":
                n.setdefault(m["fn"], set()).add((m["k"], 0, m["text"]))
    for p in names:
        if not d["info"][p].get("trusted"):
            n.setdefault(p, set()).add(("safety", 0, ""))
    return n


# ------------------------------------------------------------ verdict

def replay_file(prop, name, text):
    dirn = os.path.join(VERIF, "replay")
    os.makedirs(dirn, exist_ok=True)
    p = os.path.join(dirn, f"{prop}-{name}.txt")
    with open(p, "w") as f:
        f.write(text)
    return p


def main():
    prop = sys.argv[1]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    man = {c["property"]: c for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]}
    level = man.get(prop, {}).get("level", "proof")
    box = {}
    th = threading.Thread(target=lambda: box.update(s=search(prop, DEEP)))
    th.start()
    try:
        d = deduce()
    except Exception as x:     # never turn a fault of the machinery into a verdict
        import traceback
        d = {"failures": [], "degraded": {}, "fatal": "internal: " + traceback.format_exc()[-1500:], "rounds": 0, "wall": 0.0}
    th.join()
    s = box.get("s") or {"status": "error", "cases": 0, "text": "", "cmd": ""}
    extra = {}
    import extras
    xobl = xdis = 0
    viol, notes = [], []      # viol: (kind, replay text)
    for name, fn in extras.FOR.get(prop, []):
        r = fn(sys.modules[__name__], DEEP)
        extra[name] = r["report"]
        if r.get("violation"):
            viol.append((name, r["violation"]))
        for n in r.get("notes", []):
            notes.append(n)
        xobl += r.get("obligations", 0)
        xdis += r.get("discharged", 0)

    if s["status"] == "fail":
        viol.insert(0, ("input", f"property {prop}: the executable contracts fail on the real crate\nreproduce: {s['cmd']}  (VERIF_SEED={SEED}{', VP_DEEP=1' if DEEP else ''})\n\n{s['text']}"))
    elif s["status"] == "setup":
        if prop in ENTITLED:
            viol.insert(0, ("input", f"property {prop}: no constructor yields the described matrix\n\n{s['text']}"))
        else:
            notes.append("the harness could not set up its inputs: " + s["text"][-500:])
    elif s["status"] == "nobuild" and s["client"] and prop in CLIENT:
        viol.insert(0, ("input", f"property {prop}: the crate compiles, but a program that uses {CLIENT[prop]} does not\nreproduce: {s['cmd']}\n\n{s['text']}"))
    elif s["status"] == "nobuild":
        notes.append("the harness does not build against the current tree: " + s["text"][-800:])

    mine = [e for e in d["failures"] if prop in props_of(e, d)]
    if d["fatal"]:
        notes.append("deduction not completed: " + d["fatal"][:800])
    # a proof failure with no failing input from the quick search: search deeper before reporting
    if mine and not viol and not DEEP and s["status"] == "pass":
        s2 = search(prop, True, max(30, (820 - (time.time() - t0)) / 2))     # at most two runs of it
        if s2["status"] == "fail":
            viol.append(("input", f"property {prop}: the executable contracts fail on the real crate\nreproduce: {s2['cmd']}  (VERIF_SEED={SEED}, VP_DEEP=1)\n\n{s2['text']}"))
    ptext = "".join(
        f"obligation: {(e['clause'] or {}).get('k', 'safety')} of {e['fn']}: {(e['clause'] or {}).get('text', e['msg'])}\nverifier: {e['msg']}\n{e['rendered']}\n\n" for e in mine)

    rel = related(prop, d) if "info" in d and "o" in d else []
    obl = obligations(d, set(rel)) if rel else {}
    total = sum(len(v) for v in obl.values())
    failed = len({(e["fn"], (e["clause"] or {}).get("text", e["msg"])) for e in d["failures"] if e["fn"] in obl})
    if d["fatal"]:
        failed = total
    js = (d.get("res") or {}).get("json", {})
    smt = js.get("times-ms", {}).get("smt", {})
    fb = [f for m in smt.get("smt-run-module-times", []) for f in m.get("function-breakdown", [])]
    deg = {p: w for p, w in d["degraded"].items() if p in rel or "cs" in d and about(prop, d["cs"].get(p))}
    untouched = [p for p in rel if d["info"][p].get("trusted")]
    cov = {
        "obligations": total + xobl, "discharged": max(0, total - failed) + xdis,
        "checker_cmd": " ".join(d["res"]["cmd"]) if d.get("res") else "verus (not reached)",
        "backend": "Verus 0.2026.09.13 (z3)",
        "functions_under_contract": sorted(p for p in rel if not d["info"][p].get("trusted")),
        "functions_trusted_by_contract": {p: d["info"][p].get("why_trusted") for p in untouched},
        "functions_degraded_to_bounded_this_run": deg,
        "contracts_without_a_function_this_run": [m for m in d.get("missing", [])],
        "whole_file": {"queries_verified": js.get("verification-results", {}).get("verified"), "queries_failed": js.get("verification-results", {}).get("errors"),
                       "functions": len(fb), "smt_ms": smt.get("smt-run"), "wall_s": round(d["wall"], 1), "rounds": d["rounds"]},
        "trusted_base": trusted_base(d),
        "bounded_stand_in": {"what": "executable contracts on the real crate (harness/), bounded: " + FEATURE.get(prop, prop.lower()) + ".rs states the ranges",
                             "status": s["status"], "evaluations": s["cases"], "wall_s": round(s.get("wall", 0), 2)},
        "evaluations": s["cases"], "distinct_nontrivial": s["cases"],
        "rule": "every case names its shape, order, element type and operation; each is generated once",
        "samples": [s["cmd"]] + sorted(rel)[:3],
        "explanation": "obligations/discharged: named obligations of the functions whose contracts carry this property (see DESIGN.md); evaluations: bounded executable-contract cases, never counted as proved",
    }
    if prop == "C18":
        # each form stands for the impls whose expanded text is the same after abstracting their types
        inst = {it.path: len(n.split()) - 1 for it in d.get("items", []) for n in it.notes if n.startswith("INSTANCES")}
        cov["operator_instances"] = {"forms": inst, "impls": sum(inst.values())}
    if DEEP and d.get("opts") and not d["fatal"]:
        asked, vac = vacuity(d)
        cov["vacuity_probe"] = {"exits_probed": len(asked), "unreachable": vac}
        notes += ["nothing reaches the exit of " + p for p in vac if p in rel]
    if extra:
        cov["additional"] = extra
    ev = {"property": prop, "tier": "thorough" if DEEP else "quick", "seed": SEED, "level": level, "coverage": cov,
          "assumptions": ASSUMPTIONS + notes, "wall_s": round(time.time() - t0, 1), "violations": (len(viol) or (1 if mine else 0))}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n in notes:
        print("note:", n.replace("\n", " ")[:400])
    for p, w in deg.items():
        print(f"note: {p} is covered by the bounded stand-in only on this tree: {w}")
    for l in known(prop):
        print(l)
    print(f"{prop}: {total - failed + xdis}/{total + xobl} named obligations discharged over {len(obl)} functions; bounded stand-in: {s['status']}, {s['cases']} cases; {ev['wall_s']} s")
    if viol:
        text = viol[0][1] + ("\n\n--- failed proof obligations ---\n" + ptext if ptext else "")
        print(f"VIOLATION property={prop} replay={replay_file(prop, viol[0][0], text)}")
        sys.exit(1)
    if mine:
        print(f"VIOLATION property={prop} replay={replay_file(prop, 'obligation', ptext)} no-failing-input-found")
        sys.exit(1)
    sys.exit(0)


def known(prop):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    return [l.strip() for l in open(p) if l.startswith(f"KNOWN-FINDING: property={prop} ")] if os.path.exists(p) else []


ASSUMPTIONS = [
    "the extraction (vx) preserves behaviour; what it rewrites and drops is listed in DESIGN.md",
    "Verus, vstd, z3 and rustc are correct; the assumed contracts on std in contracts/a_prelude.rs hold",
    "the standard library's own unsafe code and the allocator are correct; panics and aborts inside them are as documented",
]


def trusted_base(d):
    out = []
    for f in sorted(os.listdir(vp.CDIR)):
        if not f.endswith(".rs"):
            continue
        t = open(os.path.join(vp.CDIR, f)).read()
        for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?((?:proof |broadcast proof |open |closed )*(?:fn|struct)\s+\w+)", t):
            out.append(f"{f}: external_body {m.group(1)}")
        for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*(.*?)\s*\]\s*\(", t, re.S):
            out.append(f"{f}: assumed contract of {' '.join(m.group(1).split())}")
        for m in re.finditer(r"axiom fn (\w+)", t):
            out.append(f"{f}: axiom {m.group(1)}")
        n = len(re.findall(r"\b(?:assume|admit)\s*\(", t))
        if n:
            out.append(f"{f}: {n} assume/admit")
    for p, i in (d.get("info") or {}).items():
        if i.get("trusted"):
            out.append(f"{p}: body not verified ({i.get('why_trusted')})")
    return out


if __name__ == "__main__":
    main()
