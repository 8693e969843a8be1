#!/usr/bin/env python3
"""Deductive back end: extract /repo's functions (vx), splice the contracts of
/verif/contracts into them, run Verus, and attribute every failed obligation to
a function and a contract clause."""
import copy, hashlib, json, os, re, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "target"))
CDIR = os.path.join(VERIF, "contracts")


SKIPFILES = set()


# ---------------------------------------------------------------- extractor

def build_vx():
    td = os.path.join(BUILD, "vx")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "vx"),
                       env=dict(os.environ, CARGO_TARGET_DIR=td), capture_output=True, text=True)
    exe = os.path.join(td, "debug", "vx")
    if r.returncode != 0:
        raise RuntimeError("extractor build failed:\n" + r.stderr)
    return exe


class Item:
    def __init__(self, kind, path, file, line):
        self.kind, self.path, self.file, self.line = kind, path, file, line
        self.notes, self.calls, self.text = [], [], ""

    def __repr__(self):
        return f"<{self.kind} {self.path}>"


def expand():
    """The crate after rustc's own macro expansion (scalar operator impls, formatting),
    with the default features and with all of them."""
    res = []
    for opt, crate in (("--expanded", "harness"), ("--pretty", "expand")):
        out = os.path.join(BUILD, opt[2:] + ".rs")
        if os.path.exists(out):
            os.remove(out)
        r = subprocess.run(["cargo", "rustc", "--offline", "--quiet", "-p", "matreex", "--lib", "--target-dir", os.path.join(BUILD, "expand-" + crate), "--", "-Zunpretty=expanded"],
                           cwd=os.path.join(VERIF, crate), env=dict(os.environ, RUSTC_BOOTSTRAP="1"), capture_output=True, text=True, timeout=300)
        if r.returncode != 0 or "impl" not in r.stdout:
            continue
        with open(out, "w") as f:
            f.write(r.stdout)
        res += [opt, out]
    # the clients of the macros
    lib, out = os.path.join(BUILD, "libmatreex.rmeta"), os.path.join(BUILD, "macros.rs")
    for x in (lib, out):
        if os.path.exists(x):
            os.remove(x)
    r = subprocess.run(["rustc", "--edition", "2024", "--crate-name", "matreex", "--crate-type", "lib", "--cap-lints", "allow",
                        os.path.join(REPO, "src/lib.rs"), "--emit", "metadata", "-o", lib], capture_output=True, text=True, timeout=300)
    if r.returncode == 0:
        r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--cap-lints", "allow", "-Zunpretty=expanded", "--extern", "matreex=" + lib,
                            os.path.join(VERIF, "macros/client.rs")], capture_output=True, text=True, timeout=300, env=dict(os.environ, RUSTC_BOOTSTRAP="1"))
        if r.returncode == 0:
            with open(out, "w") as f:
                f.write(r.stdout)
            res += ["--macros", out]
    return res


def extract(exe, src=None, extra=None):
    if extra is None:
        try:
            extra = expand()
        except Exception:
            extra = []
    # helpers without a contract are put back into their callers
    os.makedirs(BUILD, exist_ok=True)
    names = os.path.join(BUILD, "contracted.txt")
    with open(names, "w") as f:
        f.write("\n".join(sorted(load_contracts()[0])) + "\n")
    r = subprocess.run([exe, src or os.path.join(REPO, "src"), *extra, "--contracted", names, "--locals", os.path.join(CDIR, "locals.txt")], capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("extractor failed: " + r.stderr[-2000:])
    items, skips, cur, lines = [], [], None, []
    for l in r.stdout.split("\n"):
        if l.startswith("%%ITEM "):
            k, p, f, n = l[7:].split("\t")
            cur, lines = Item(k, p, f, int(n)), []
        elif l.startswith("%%NOTE "):
            cur.notes.append(l[7:])
        elif l.startswith("%%CALLS"):
            cur.calls = l[8:].split()
        elif l.startswith("%%END"):
            cur.text = "\n".join(lines).strip("\n")
            items.append(cur)
            cur = None
        elif l.startswith("%%SKIP"):
            skips.append(l[7:])
        elif cur is not None:
            lines.append(l)
    return items, skips


# ---------------------------------------------------------------- sidecars

class Contract:
    def __init__(self, path, src):
        self.path, self.src = path, src
        self.props, self.ret, self.attrs = [], "ret", []
        self.requires, self.ensures = [], []
        self.at, self.loops, self.closures = {}, {}, {}
        self.panics, self.tail, self.trusted = None, "", None
        self.used = False


def clauses(lines):
    """A clause ends at a line whose code part ends in a comma."""
    out, cur = [], []
    for l in lines:
        if not l.strip() or l.strip().startswith("//"):
            continue
        cur.append(l.rstrip())
        code = l.split("//")[0].rstrip()
        if code.endswith(","):
            out.append(cur)
            cur = []
    if cur:
        code, _, com = cur[-1].partition("//")
        cur[-1] = code.rstrip() + "," + (" //" + com if com else "")
        out.append(cur)
    return out


def tags_of(text):
    m = re.search(r"//@([A-Z0-9, ]+)", text)
    return [t.strip() for t in m.group(1).split(",")] if m else None


def load_contracts():
    cs, traits = {}, {}
    for fn in sorted(os.listdir(CDIR)):
        if not fn.endswith(".vc"):
            continue
        cur, sec, fileprops = None, None, []
        buf = []

        def flush():
            nonlocal buf
            if cur is None or sec is None:
                buf = []
                return
            k = sec.split()
            b = buf
            buf = []
            if k[0] == "@trait":
                traits.setdefault(sec[7:].strip(), []).extend(b)
            elif k[0] == "@requires":
                cur.requires += clauses(b)
            elif k[0] == "@ensures":
                cur.ensures += clauses(b)
            elif k[0] == "@entry":
                cur.at.setdefault("entry", []).extend(b)
            elif k[0] == "@exit":
                cur.at.setdefault("exit", []).extend(b)
            elif k[0] == "@at":
                cur.at.setdefault(k[1], []).extend(b)
            elif k[0] == "@loop":
                cur.loops.setdefault(k[1], []).extend(b)
            elif k[0] == "@closure":
                cur.closures[k[1]] = "\n".join(b)

        for l in open(os.path.join(CDIR, fn)):
            l = l.rstrip("\n")
            if l.startswith("@"):
                flush()
                k = l.split()
                sec = None
                if k[0] == "@fn":
                    p = l[4:].strip()
                    cur = cs.setdefault(p, Contract(p, fn))
                    if not cur.props:
                        cur.props = list(fileprops)
                elif k[0] == "@like":
                    o = cs[l[6:].strip()]
                    cur.requires, cur.ensures = list(o.requires), list(o.ensures)
                    cur.at, cur.loops, cur.closures = copy.deepcopy(o.at), copy.deepcopy(o.loops), dict(o.closures)
                    cur.attrs, cur.panics, cur.ret = list(o.attrs), o.panics, o.ret
                elif k[0] == "@file_props":
                    fileprops = [x.strip() for x in l[11:].split(",") if x.strip()]
                elif k[0] == "@props":
                    cur.props = [x.strip() for x in l[6:].split(",") if x.strip()]
                elif k[0] == "@ret":
                    cur.ret = k[1]
                elif k[0] == "@attr":
                    cur.attrs.append(l[5:].strip())
                elif k[0] == "@panics_when":
                    cur.panics = l[12:].strip()
                elif k[0] == "@trusted":
                    cur.trusted = l[8:].strip()
                elif k[0] == "@tail":
                    cur.tail = l[5:].strip()
                elif k[0] == "@trait":
                    cur = Contract("trait", fn)
                    sec = l
                else:
                    sec = l
            else:
                buf.append(l)
        flush()
    return cs, traits


# ---------------------------------------------------------------- splicing

PH = re.compile(r"@@PH:(.*?)/([^/@]*)@@")


class Out:
    """Text under construction, with a meaning for every line."""

    def __init__(self):
        self.lines, self.meta = [], []

    def add(self, text, meta=None):
        for l in text.split("\n"):
            self.lines.append(l)
            self.meta.append(meta)


def subst(text, params):
    text = re.sub(r"\$t(\d+)", r"__tr\1", text)
    return re.sub(r"\$(\d+)", lambda m: params[int(m.group(1))] if int(m.group(1)) < len(params) else "__missing_param", text)


MARK = "\x01"
TOK = re.compile(r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\[^u]|\\u\{[^}]*\})\'|[{}]', re.S)


def block_end(text, i):
    """Position after the block that opens at i."""
    depth = 0
    for m in TOK.finditer(text, i):
        depth += {"{": 1, "}": -1}.get(m.group(0), 0)
        if depth == 0:
            return m.end()
    return len(text)




def splice_fn(path, text, cs, opts, info, fallback=None):
    """Replaces the placeholders of one function. Clause lines are marked
    with \\x01<meta>\\x01 prefixes, resolved by the caller."""
    c = cs.get(path) or cs.get(fallback or path.split("#")[0])
    if path in opts.get("opaque", ()):
        c = None
    m = re.search(r"@@PARAMS:(.*?)@@", text)
    params, cnames = ([p for p in x.split(",") if p] for x in m.group(1).split(";")) if m else ([], [])
    trusted = path in opts["trust"] or (c is not None and c.trusted)
    fi = info.setdefault(path, {"contract": c is not None, "clauses": 0, "lost": [], "trusted": bool(trusted), "props": c.props if c else [],
                                "why_trusted": opts["trust"].get(path) or (c.trusted if c else None)})
    attrs = ["#[verifier::spinoff_prover]"]
    if c:
        c.used = True
        attrs += c.attrs
    if trusted:
        attrs = ["#[verifier::external_body]"]
        # the body is not looked at, so it need not be readable either
        mb = re.search(r"@@SPEC:.*?@@\s*(?=\{)", text)
        if mb:
            text = text[:mb.end()] + "{ unimplemented!() }" + text[block_end(text, mb.end()):]
    elif c and "result" in c.at:
        # `exit; tail` -> `exit; let __res = tail; result; __res`
        mb = re.search(r"@@SPEC:.*?@@\s*(?=\{)", text)
        mx = re.search(r"@@PH:(.*?)/exit@@", text)
        if mb and mx:
            e = block_end(text, mb.end()) - 1
            tail = text[mx.end():e].strip()
            if tail:
                text = text[:mx.end()] + "\nlet __res = {" + tail + "};\n@@PH:" + mx.group(1) + "/result@@\n__res\n" + text[e:]
    text = re.sub(r"@@PARAMS:.*?@@", "\n".join(attrs) + "\n" if attrs else "", text)
    text = text.replace("@@RET@@", c.ret if c else "ret")

    def clause_block(kw, cls):
        if not cls:
            return ""
        s = "\n    " + kw
        for i, cl in enumerate(cls):
            body = subst("\n".join(cl), params)
            t = tags_of(body)
            if kw == "ensures":
                fi["clauses"] += 1
            for j, bl in enumerate(body.split("\n")):
                s += "\n" + MARK + json.dumps({"k": kw, "fn": path, "i": i, "tags": t, "text": body.strip()}) + MARK + "        " + bl
        return s

    is_impl = info.get("__impl__")
    spec = ""
    if c:
        if not is_impl:
            spec += clause_block("requires", c.requires)
        spec += clause_block("ensures", c.ensures)
        if opts.get("no_unwind"):
            pass
    text = re.sub(r"@@SPEC:.*?@@", lambda _: spec + "\n", text)

    used = set()

    def ph(mm):
        a = mm.group(2)
        if a.endswith("/panic") or a == "panic":
            return MARK + json.dumps({"k": "panic", "fn": path, "tags": None, "text": "panics only when: " + ((c.panics or "never") if c else "unknown")}) + MARK + \
                "assert(%s);" % (subst(c.panics, params) if c and c.panics else ("false" if c else "true"))
        s = ""
        if a == "exit" and opts["probe"] and (path in opts["probe"] or "*" in opts["probe"]):
            s += MARK + json.dumps({"k": "probe", "fn": path}) + MARK + "assert(false);\n"
        if c and a in c.at:
            used.add(a)
            for bl in subst("\n".join(c.at[a]), params).split("\n"):
                s += MARK + json.dumps({"k": "proof", "fn": path, "at": a, "tags": tags_of(bl), "text": bl.strip()}) + MARK + bl + "\n"
        return s

    text = PH.sub(ph, text)

    def loopspec(mm):
        key = mm.group(1)
        n, kind = re.match(r".*/loop(\w+):(\w+)$", key).groups()
        used.add("loop" + n)
        if c and n not in c.loops:
            fi.setdefault("bare", []).append(n)
        raw = subst("\n".join(c.loops.get(n, [])), params) if c else ""
        keep = "".join(f" {x} == __c{i}," for i, x in enumerate(cnames))
        inv, dec = raw, None
        mdec = re.search(r"^\s*decreases\b(.*)$", raw, re.M | re.S)
        if mdec:
            inv, dec = raw[:mdec.start()], mdec.group(1)
        out = ""
        if kind.startswith("d"):
            k = kind[1:]
            auto = f"0 <= __k{k} <= __s{k}.len(), __it{k}@ == __s{k}.skip(__k{k})," + keep
            mi = re.match(r"\s*invariant\b", inv)
            body = inv[mi.end():] if mi else ""
            out = "\ninvariant " + auto
            inv = body
            if dec is None:
                dec = f" __s{k}.len() - __k{k},"
        elif keep:
            mi = re.match(r"\s*invariant\b", inv)
            out = "\ninvariant" + keep
            inv = inv[mi.end():] if mi else ""
        for bl in inv.split("\n"):
            if bl.strip():
                out += "\n" + MARK + json.dumps({"k": "invariant", "fn": path, "tags": tags_of(bl), "text": bl.strip()}) + MARK + "    " + bl
        if dec is not None:
            out += "\ndecreases" + dec
        return out + "\n{"

    text = re.sub(r"\{\s*@@LS:([^@]*)@@", loopspec, text)

    def closure(mm):
        n = re.match(r".*/closure(\w+)$", mm.group(1)).group(1)
        ps = [x for x in mm.group(2).split(",") if x]
        mv = mm.group(3)
        used.add("closure" + n)
        if c and n in c.closures:
            h = re.sub(r"\$c(\d+)", lambda q: ps[int(q.group(1))], c.closures[n])
            h = subst(h, params).strip()
        else:
            h = "|" + ", ".join(ps) + "|"
            fi.setdefault("bare", []).append("closure" + n)
        return (mv + " " if mv else "") + h

    text = re.sub(r"@@CL:([^@:]*(?:::[^@:]*)*?/closure\w+):([^@:]*):(\w*)@@", closure, text)
    if c and not trusted:
        want = set(c.at) | {"loop" + n for n in c.loops} | {"closure" + n for n in c.closures}
        fi["lost"] = sorted(want - used)
    return text


def split_fns(text):
    """[(path|None, text)] for a trait or impl item."""
    out, pos = [], 0
    for m in re.finditer(r"@@FN:(.*?)@@\n(.*?)@@ENDFN@@\n?", text, re.S):
        out.append((None, text[pos:m.start()]))
        out.append((m.group(1), m.group(2)))
        pos = m.end()
    out.append((None, text[pos:]))
    return out


def add_prelude(o, info, f, opts):
    """A library file. A lemma below a line `//@lemma PROPS` states what a property says
    over the contracts; it is an obligation of its own."""
    cur = props = None
    for l in open(os.path.join(CDIR, f)).read().split("\n"):
        if l.startswith("//@lemma "):
            props = [x.strip() for x in l[9:].split(",")]
        m = re.match(r"pub (?:broadcast )?proof fn (\w+)", l)
        if m and props:
            cur = "lemma " + m.group(1)
            info[cur] = {"contract": True, "clauses": 1, "lost": [], "trusted": False, "props": props, "why_trusted": None}
            props = None
        meta = {"k": "prelude", "file": f}
        if cur:
            meta["fn"] = cur
            end = l.startswith("}") or l.startswith("{") and l.rstrip().endswith("}")
            if end and opts["probe"]:
                j = l.rindex("}")
                if l[:j].strip():
                    o.add(l[:j], meta)
                o.add("assert(false);", {"k": "probe", "fn": cur})
                l = "}"
            if end:
                o.add(l, meta)
                cur = None
                continue
        o.add(l, meta)


def prelude_names(f):
    """What a library file defines, as a pattern that finds a mention of it."""
    t = open(os.path.join(CDIR, f)).read()
    fns = set(re.findall(r"^pub (?:[a-z]+ )*fn (\w+)", t, re.M))
    types = set(re.findall(r"^pub (?:ghost )?(?:struct|enum|trait|type) (\w+)", t, re.M))
    ms = set(re.findall(r"\bfn (vp_\w+)", t))
    for g in os.listdir(CDIR):
        if g.endswith(".rs") and g != f:
            ms -= set(re.findall(r"\bfn (vp_\w+)", open(os.path.join(CDIR, g)).read()))
    alts = []
    if fns:
        alts.append(r"(?<![.\w:])(?<!fn )(?:%s)\s*(?:\(|::)" % "|".join(sorted(fns)))
    if types | ms:
        alts.append(r"\b(?:%s)\b" % "|".join(sorted(types | ms)))
    return re.compile("|".join(alts) or "(?!)")


def drop_prelude(f, items, cs, opts):
    """Leaves out a library file that does not fit the current code, with everything resting on it.
    -> what is lost: {path: why}"""
    why = f"contracts/{f} does not fit the current code"
    lost = {}
    drop = opts.setdefault("dropfiles", set())
    todo = [f]
    while todo:
        f = todo.pop()
        if f in drop:
            continue
        drop.add(f)
        pat = prelude_names(f)
        for g in sorted(os.listdir(CDIR)):
            if g.endswith(".rs") and g not in drop and pat.search(re.sub(r"//.*", "", open(os.path.join(CDIR, g)).read())):
                todo.append(g)
        for p, c in cs.items():
            parts = c.requires + c.ensures + list(c.at.values()) + list(c.loops.values())
            if p != "trait" and pat.search("\n".join("\n".join(x) for x in parts) + "\n".join(c.closures.values()) + (c.panics or "")):
                opts["trust"][p] = why
                opts["opaque"].add(p)
                lost[p] = why
        more = True
        while more:
            more = False
            for it in items:
                if not opts["drop"].get(it.path) and pat.search(re.sub(r"@@.*?@@", "", it.text)):
                    opts["drop"][it.path] = True
                    lost[it.path] = why
                    if it.kind in ("struct", "enum", "type", "const"):
                        pat = re.compile(pat.pattern + r"|\b%s\b" % re.escape(it.path.rsplit("::", 1)[-1]))
                        more = True
    return lost


def compose(items, cs, traits, opts):
    """-> Out, info per function path."""
    o, info = Out(), {}
    o.add("#![allow(unused, non_snake_case, non_camel_case_types, unreachable_code, unused_unsafe)]\n#![feature(allocator_api)]\nuse vstd::prelude::*;\nverus! {\n")
    for f in sorted(os.listdir(CDIR)):
        if f.endswith(".rs") and f not in opts.get("dropfiles", ()):
            add_prelude(o, info, f, opts)
    defaults = {}
    for it in items:
        if it.kind == "trait":
            for p, t in split_fns(it.text):
                if p and re.search(r"@@PH:.*?/entry@@", t):
                    defaults.setdefault(it.path, []).append((p, t))

    def emit(path, it, text):
        pos = 0
        base = {"k": "code", "fn": path, "file": it.file if it else None}
        for l in text.split("\n"):
            m = re.match("^(.*?)" + MARK + "(.*?)" + MARK + "(.*)$", l, re.S)
            if m:
                o.add(m.group(1) + m.group(3), json.loads(m.group(2)))
            else:
                o.add(l, base)

    for it in items:
        drop = opts["drop"].get(it.path)
        if drop:
            continue
        o.add(f"// ---- {it.kind} {it.path}  ({it.file}:{it.line})")
        if it.kind in ("type", "const", "struct", "enum"):
            emit(it.path, it, it.text)
        elif it.kind == "fn":
            emit(it.path, it, splice_fn(it.path, it.text, cs, opts, info))
        elif it.kind in ("trait", "traitimpl"):
            parts = split_fns(it.text)
            is_impl = it.kind == "traitimpl"
            m = re.match(r"<(.*) as (\w+)(.*)>$", it.path) if is_impl else None
            if m and m.group(2) in defaults:
                have = {p.rsplit("::", 1)[-1] for p, _ in parts if p}
                add = []
                for p, t in defaults[m.group(2)]:
                    n = p.rsplit("::", 1)[-1]
                    if n not in have:
                        np = it.path + "::" + n
                        add.append((np, t.replace(p + "/", np + "/").replace("SPEC:" + p + "@@", "SPEC:" + np + "@@"), p))
                last = parts.pop()
                j = last[1].rindex("}")
                parts += [(None, last[1][:j])] + add + [(None, last[1][j:])]
            for part in parts:
                p, t = part[0], part[1]
                if p is None:
                    key = re.search(r"@@TRAIT:(.*?)@@", t)
                    if key:
                        ins = "\n".join(traits.get(key.group(1), []))
                        t = re.sub(r"@@TRAIT:.*?@@", lambda _: ins, t)
                    emit(it.path, it, t)
                    continue
                if it.kind == "trait":
                    # default bodies are verified in the impls that inherit them
                    k = t.find("@@PH:" + p + "/entry@@")
                    if k >= 0:
                        b = t.rindex("{", 0, k)
                        t = t[:b] + ";\n"
                info["__impl__"] = is_impl
                fb = None
                if len(part) > 2:
                    fb = part[2]
                elif is_impl and m:
                    fb = None
                s = splice_fn(p, t, cs, opts, info, fb)
                info["__impl__"] = False
                if it.kind == "trait":
                    s = s.replace("#[verifier::spinoff_prover]\n", "")
                emit(p, it, s)
    o.add("fn main() {}\n} // verus!")
    info.pop("__impl__", None)
    return o, info


# ---------------------------------------------------------------- verus

def run_verus(o, workdir, name="all", threads=8, extra=(), timeout=600):
    path = os.path.join(workdir, name + ".rs")
    with open(path, "w") as f:
        f.write("\n".join(o.lines) + "\n")
    t = time.time()
    cmd = ["verus", path, "--crate-type=lib", "--num-threads", str(threads), "--multiple-errors", "4", "--rlimit", "40",
           "--output-json", "--time-expanded", "--error-format=json", *extra]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=workdir)
    except subprocess.TimeoutExpired:
        return {"cmd": cmd, "timeout": True, "diags": [], "json": {}, "wall": time.time() - t}
    diags = []
    for l in r.stderr.split("\n"):
        l = l.strip()
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    try:
        js = json.loads(r.stdout)
    except ValueError:
        js = {}
    return {"cmd": cmd, "timeout": False, "diags": diags, "json": js, "wall": time.time() - t, "rc": r.returncode, "stderr": r.stderr}


def analyse(o, res):
    """-> list of errors {fn, kind, msg, clause(meta), line, rendered, verif: bool}"""
    errs = []
    for d in res["diags"]:
        if d.get("level") != "error":
            continue
        msg = d["message"]
        if msg.startswith("aborting due to"):
            continue
        spans = d.get("spans", [])
        fn = clause = probe = None
        where = None
        for s in sorted(spans, key=lambda s: not s.get("is_primary")):
            n = s["line_start"] - 1
            if n >= len(o.meta) or not s["file_name"].endswith(".rs"):
                continue
            m = o.meta[n] or {}
            if m.get("k") in ("requires", "ensures", "invariant", "proof", "panic", "probe") and clause is None:
                clause = m
            if m.get("k") == "probe":
                probe = m["fn"]
            lab = s.get("label") or ""
            if m.get("fn") and "failed" not in lab:
                if fn is None or m.get("k") != "code" and False:
                    fn = m["fn"]
                    where = s["line_start"]
        if fn is None:
            for s in spans:
                n = s["line_start"] - 1
                if n < len(o.meta) and o.meta[n] and o.meta[n].get("fn"):
                    fn = o.meta[n]["fn"]
                    where = s["line_start"]
                    break
        verif = any(msg.startswith(x) for x in (
            "postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
            "possible arithmetic", "possible division", "decreases not satisfied", "loop invariant", "unable to prove", "cannot show", "recommendation",
            "possible bit shift", "unreached", "index out of", "possible"))
        rl = "resource limit" in msg.lower() or "rlimit" in msg.lower() or "timed out" in msg.lower()
        errs.append({"fn": fn, "msg": msg, "clause": clause, "line": where, "rendered": d.get("rendered", ""),
                     "verif": verif and not rl, "rlimit": rl, "probe": probe,
                     "lines": [s["line_start"] for s in sorted(spans, key=lambda s: not s.get("is_primary"))]})
    return errs


if __name__ == "__main__":
    exe = build_vx()
    items, skips = extract(exe)
    cs, traits = load_contracts()
    only = sys.argv[1:] if len(sys.argv) > 1 else []
    opts = {"trust": {}, "drop": {}, "probe": {"*"} if "-probe" in only else set()}
    pats = [a for a in only if not a.startswith("-")]
    if pats:
        for it in items:
            ok = any((it.file == q.split("=")[0] and ("=" not in q or re.fullmatch(q.split("=")[1], it.path))) for q in pats)
            if not ok and not (it.kind in ("type", "struct", "enum") ):
                opts["drop"][it.path] = True
    wd = "/tmp/vpwork"
    os.makedirs(wd, exist_ok=True)
    o, info = compose(items, cs, traits, opts)
    res = run_verus(o, wd)
    errs = analyse(o, res)
    if "-probe" in only:
        hit = {e["probe"] for e in errs if e["probe"]}
        print("VACUOUS:", sorted(p for p, i in info.items() if i["contract"] and not i["trusted"] and p not in hit and any(m and m.get("k") == "probe" and m["fn"] == p for m in o.meta)))
        errs = [e for e in errs if not e["probe"]]
    for e in errs:
        print("=" * 10, e["fn"], "|", e["msg"], "| verif" if e["verif"] else "| OTHER")
        print(e["rendered"][:1400])
    print("lost:", {p: i["lost"] for p, i in info.items() if i["lost"]})
    nc = [p for p, i in info.items() if not i["contract"]]
    print("no contract:", len(nc), nc[:60] if "-v" in only else "")
    print("unused contracts:", [c for c in cs if not cs[c].used])
    print(json.dumps(res["json"].get("verification-results")), "wall %.1f" % res["wall"], "errors", len(errs))
    if not res["json"]:
        print(res.get("stderr", "")[-3000:])
    smt = (res["json"].get("times-ms") or {}).get("smt", {})
    fb = [f for m in smt.get("smt-run-module-times", []) for f in m.get("function-breakdown", [])]
    fb.sort(key=lambda f: -f.get("rlimit", 0))
    print("heaviest:", [(f.get("function"), f.get("time"), f.get("rlimit")) for f in fb[:6]])
