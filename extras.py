"""Additional deciding or supporting steps of single properties. Each function
takes the check module and whether the tier is thorough, and returns
{report, violation?: text, notes?: [..]}."""
import os, re, subprocess, time
import vp

# ------------------------------------------------------------------ C17
# The property's type-level half quantifies over every element type. Its
# contract is the set of auto-trait judgements below, decided by rustc's trait
# solver for a universally quantified T (and for concrete witnesses).

HEAD = """#![allow(unused)]
extern crate matreex;
use matreex::Matrix;
fn send<X: Send>(_: X) {}
fn sync<X: Sync>(_: &X) {}
"""
OUTER = {"rows": "m.iter_rows_mut()", "cols": "m.iter_cols_mut()"}


def probe_text(axis, level, need, bound):
    it = OUTER[axis]
    if level == "vector":
        it += ".next().unwrap()"
    use = "send(it)" if need == "Send" else "sync(&it)"
    return HEAD + f"pub fn probe<T: {bound}>(m: &mut Matrix<T>) {{ let mut o = {OUTER[axis]}; let it = {'o' if level == 'outer' else 'o.next().unwrap()'}; {use}; }}\n"


WITNESS = {
    "Send": ["std::rc::Rc<u8>", "*mut u8", "std::sync::MutexGuard<'static, u8>"],     # not Send (the last one is Sync)
    "Sync": ["std::cell::Cell<u8>", "std::cell::RefCell<String>", "std::rc::Rc<u8>"],  # not Sync (the first two are Send)
}


def witness_text(axis, level, need, ty):
    it = OUTER[axis] + ("" if level == "outer" else ".next().unwrap()")
    use = "send(it)" if need == "Send" else "sync(&it)"
    return HEAD + f"pub fn probe(m: &mut Matrix<{ty}>) {{ let mut o = {OUTER[axis]}; let it = {'o' if level == 'outer' else 'o.next().unwrap()'}; {use}; }}\n"


def auto_traits(chk, deep):
    d = os.path.join(vp.BUILD, "probes")
    os.makedirs(d, exist_ok=True)
    r = subprocess.run(["rustc", "--edition", "2024", "--crate-name", "matreex", "--crate-type", "rlib", "--cap-lints", "allow",
                        os.path.join(vp.REPO, "src/lib.rs"), "--out-dir", d, "--emit", "metadata,link"], capture_output=True, text=True)
    lib = os.path.join(d, "libmatreex.rlib")
    if r.returncode != 0:
        return {"report": "crate did not build for the probes", "notes": ["C17 probes: " + r.stderr[-500:]]}
    jobs = []
    for axis in OUTER:
        for level in ("outer", "vector"):
            for need in ("Send", "Sync"):
                other = "Sync" if need == "Send" else "Send"
                jobs.append((f"{axis}/{level} is {need} when T is only {other}", probe_text(axis, level, need, other), False))
                jobs.append((f"{axis}/{level} is {need} for every T", probe_text(axis, level, need, "Sized"), False))
                jobs.append((f"{axis}/{level} is {need} when T is Send + Sync", probe_text(axis, level, need, "Send + Sync"), True))
                for w in WITNESS[need]:
                    jobs.append((f"{axis}/{level} is {need} for T = {w}", witness_text(axis, level, need, w), False))

    def run(k):
        name, text, want = jobs[k]
        f = os.path.join(d, f"p{k}.rs")
        open(f, "w").write(text)
        p = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "-o", os.path.join(d, f"p{k}.rmeta"),
                            "--extern", "matreex=" + lib, f], capture_output=True, text=True)
        codes = set(re.findall(r"error\[(E\d+)\]", p.stderr))
        return p.returncode == 0, codes, p.stderr

    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(run, range(len(jobs))))
    bad, notes, decided = [], [], 0
    for (name, text, want), (ok, codes, err) in zip(jobs, res):
        if want:
            if not ok:
                notes.append(f"C17: '{name}' is refused as well (not required by the property)")
            continue
        if ok:
            bad.append(f"the type checker accepts this program, so {name}, which must not be derivable:\n{text}")
            decided += 1
        elif codes == {"E0277"}:
            decided += 1
        else:
            notes.append(f"C17: probe '{name}' is inconclusive: {codes} {err[-200:]}")
    out = {"report": {"judgements": len(jobs), "decided_by_the_trait_solver": decided, "rule": "for all T: the iterator and the vectors it yields are Send only if T: Send, Sync only if T: Sync"}, "notes": notes, "obligations": sum(1 for j in jobs if not j[2]), "discharged": decided - len(bad)}
    if bad:
        out["violation"] = "property C17: unsound Send/Sync\n\n" + "\n".join(bad)
    return out


# ------------------------------------------------------------------ C03
# "At most once" also needs that no second way to the elements is open while an
# iterator, a vector it yielded or a reference out of one is alive. The contract is
# carried by the lifetimes in the signatures; these judgements are rustc's, for every T.

MUTS = {
    "iter_rows_mut": "m.iter_rows_mut()", "iter_cols_mut": "m.iter_cols_mut()",
    "iter_nth_row_mut": "m.iter_nth_row_mut(0).unwrap()", "iter_nth_col_mut": "m.iter_nth_col_mut(0).unwrap()",
    "iter_elements_mut": "m.iter_elements_mut()", "iter_elements_mut_with_index": "m.iter_elements_mut_with_index()",
}


def borrows(chk, deep):
    d = os.path.join(vp.BUILD, "probes")
    os.makedirs(d, exist_ok=True)
    r = subprocess.run(["rustc", "--edition", "2024", "--crate-name", "matreex", "--crate-type", "rlib", "--cap-lints", "allow",
                        os.path.join(vp.REPO, "src/lib.rs"), "--out-dir", d, "--emit", "metadata,link"], capture_output=True, text=True)
    lib = os.path.join(d, "libmatreex.rlib")
    if r.returncode != 0:
        return {"report": "crate did not build for the probes", "notes": ["C03 probes: " + r.stderr[-500:]]}
    pre = "#![allow(unused)]\nextern crate matreex;\nuse matreex::Matrix;\n"
    jobs = []
    for n, e in MUTS.items():
        outer = n in ("iter_rows_mut", "iter_cols_mut")
        for what, get, use in [("the iterator", "", "it.next();")] + ([("a vector it yielded", "let mut v = it.next().unwrap(); drop(it);", "v.next();"),
                                ("an element of a vector", "let x = it.next().unwrap().next().unwrap(); drop(it);", "let _y: &mut T = x;")] if outer else
                               [("an element", "let x = it.next().unwrap(); drop(it);", "let _y = x;")]):
            for how, act in (("read", "m.get((0, 0));"), ("iterated again", f"{e};"), ("resized", "m.clear();")):
                jobs.append((f"the matrix can be {how} while {what} of {n} is alive", pre + f"pub fn probe<T>(m: &mut Matrix<T>) {{ let mut it = {e}; {get} {act} {use} }}\n"))
            jobs.append((f"the matrix can be dropped while {what} of {n} is alive", pre + f"pub fn probe<T>(mut m: Matrix<T>) {{ let mut it = {e}; {get} drop(m); {use} }}\n"))
            last = "it" if not get else ("v" if "let mut v" in get else "x")
            jobs.append((f"{what} of {n} outlives the matrix", pre + f"pub fn probe<T>(mut m: Matrix<T>) {{ fn any<X: 'static>(_: X) {{}} let mut it = {e}; {get} any({last}); }}\n".replace("probe<T>", "probe<T: 'static>")))

    def run(k):
        name, text = jobs[k]
        f = os.path.join(d, f"b{k}.rs")
        open(f, "w").write(text)
        p = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "-o", os.path.join(d, f"b{k}.rmeta"),
                            "--extern", "matreex=" + lib, f], capture_output=True, text=True)
        return p.returncode == 0, set(re.findall(r"error\[(E\d+)\]", p.stderr)), p.stderr

    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(run, range(len(jobs))))
    bad, notes, decided = [], [], 0
    for (name, text), (ok, codes, err) in zip(jobs, res):
        if ok:
            bad.append(f"the borrow checker accepts this program: {name}\n{text}")
            decided += 1
        elif codes and codes <= {"E0499", "E0502", "E0505", "E0597"}:
            decided += 1
        else:
            notes.append(f"C03: probe '{name}' is inconclusive: {codes} {err[-200:]}")
    out = {"report": {"judgements": len(jobs), "decided_by_the_borrow_checker": decided}, "notes": notes, "obligations": len(jobs), "discharged": decided - len(bad)}
    if bad:
        out["violation"] = "property C03: elements reachable while they are handed out\n\n" + "\n".join(bad)
    return out


# ------------------------------------------------------------------ C20

def features(chk, deep):
    texts, notes = {}, []
    for feats in ("c19", "c19,pretty", "c19,parallel,pretty"):
        exe, err = chk.build_harness(feats, sub="harness-" + feats.replace(",", "-"))
        if exe is None:
            notes.append(f"C20: harness with features {feats} does not build: {err[-300:]}")
            continue
        rc, out, err, _ = chk.run_harness(exe, "C20text", 120)
        i = out.rfind("PASS cases=")
        if rc != 0 or i < 0:
            return {"report": "failed with " + feats, "violation": f"property C20 with features {feats}:\n{out[-4000:]}\n{err[-1000:]}"}
        texts[feats] = out[:i]
    ks = list(texts)
    r = {"feature_sets": ks, "characters_compared": len(texts[ks[0]]) if ks else 0}
    for k in ks[1:]:
        if texts[k] != texts[ks[0]]:
            a, b = texts[ks[0]].split("\n"), texts[k].split("\n")
            j = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
            return {"report": r, "notes": notes, "violation": f"property C20: the text differs between features {ks[0]} and {k} although colours are not supported by the output, line {j}:\n{a[j-2:j+2]!r}\n{b[j-2:j+2]!r}"}
    return {"report": r, "notes": notes}


# ------------------------------------------------------------------ Miri (thorough only; bounded)

def miri(which, feats):
    def f(chk, deep):
        if not deep:
            return {"report": "thorough tier only"}
        td = os.path.join(vp.BUILD, "miri")
        e = dict(os.environ, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-permissive-provenance")
        t = time.time()
        try:
            r = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "--no-default-features", "--features", feats, "--target-dir", td, "--", which],
                               capture_output=True, text=True, timeout=700, env=e, cwd=os.path.join(vp.VERIF, "harness"))
        except subprocess.TimeoutExpired:
            return {"report": "miri: time limit", "notes": []}
        rep = {"tool": "miri", "wall_s": round(time.time() - t), "result": r.stdout[-200:]}
        if "Undefined Behavior" in r.stderr or r.returncode == 1 and "FAIL " in r.stdout:
            return {"report": rep, "violation": f"miri {which}:\n{r.stdout[-1500:]}\n{r.stderr[-5000:]}"}
        if r.returncode != 0:
            return {"report": rep, "notes": ["miri did not run: " + r.stderr[-300:]]}
        return {"report": rep}
    return f


FOR = {
    "C17": [("auto_trait_judgements", auto_traits), ("miri", miri("C17m", "c17"))],
    "C03": [("borrow_judgements", borrows), ("miri", miri("C03m", "c03"))],
    "C20": [("feature_configurations", features)],
}
