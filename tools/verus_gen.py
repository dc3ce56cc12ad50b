"""Assemble a Verus crate: contracts and proofs from verus/*.rs, function bodies extracted from /repo.

A template is Rust with directives:
  //@include NAME
  //@fn file=.. owner=.. trait=.. fn=.. [closure] [default] [opt=a,b] [sub=A=>B]...
  <signature with requires/ensures>
  //@entry / //@loop N / //@body N / //@bodyend N / //@after N      (ghost text for those places)
  //@end
The body of the function is what the extractor prints for /repo's current source; nothing of it is in
the template. Raises Lost when a body cannot be extracted or the loops are not those annotated."""
import json, os, re, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Lost(Exception):
    pass

def extractor(build):
    """the extractor binary (built by setup, or here)"""
    t = f"{ROOT}/build/extract"
    b = f"{t}/release/extract"
    src = max(os.path.getmtime(f"{ROOT}/extract/{f}") for f in ("src/main.rs", "Cargo.toml"))
    if not os.path.exists(b) or os.path.getmtime(b) < src:
        r = subprocess.run(["cargo", "build", "--offline", "--release", "--quiet"], cwd=f"{ROOT}/extract",
                           env=dict(os.environ, CARGO_TARGET_DIR=t), capture_output=True, text=True)
        if r.returncode:
            raise Lost("extractor does not build: " + r.stderr[-500:])
    return b

def load(name):
    out = []
    for l in open(f"{ROOT}/verus/{name}.rs").read().splitlines():
        m = re.match(r"\s*//@include (\S+)", l)
        out += load(m.group(1)) if m else [l]
    return out

def clauses(lines):
    """//@spans P m, //@gives P x, //@yields P x: the clauses of a combinator's contract, each with the properties it decides"""
    for l in lines:
        m = re.match(r"(\s*)//@(spans|gives|yields) (\S+) (.*)", l)
        if not m:
            yield l
            continue
        i, k, p, e = m.groups()
        f = re.search(r"\*old\((\w+)\)\)$", e)
        if k == "spans":
            yield f"{i}spans({e}, *old(ctx), *final(ctx), r), //: {p}"
            yield f"{i}exact({e}, *old(ctx), *final(ctx), r), //: C02"
        elif k == "gives":
            yield f"{i}gives({e}, *old(ctx), *final(ctx), *final({f.group(1)}), r), //: {p}"
        else:
            yield f"{i}yields({e}, *old(ctx), *final(ctx), r), //: {p}"
        yield f"{i}r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01"
        end = "1" if k == "spans" else "0"
        if p != "C20":
            yield f"{i}(r is Ok) == ({e} is Some) && (r is Ok ==> final(ctx).pos() == {e}->Some_0.{end}), //: C12"

def parse(lines):
    """-> list of str | dict(req, sig, ghost)"""
    items, cur, sec = [], None, None
    for l in clauses(lines):
        m = re.match(r"\s*//@(\w+)\s*(.*)", l)
        if not m:
            if cur is None:
                items.append(l)
            else:
                cur["ghost"].setdefault(sec, []).append(l)
            continue
        d, rest = m.group(1), m.group(2).strip()
        if d == "fn":
            cur, sec = dict(req={}, ghost={}, sub=[], kinds=None), "sig"
            for w in rest.split():
                if "=" in w and not w.startswith("sub="):
                    k, v = w.split("=", 1)
                    cur["req"][k] = v
                elif w.startswith("sub="):
                    cur["sub"].append(tuple(w[4:].split("=>")))
                else:
                    cur["req"][w] = True
            items.append(cur)
        elif d == "sub":
            cur["sub"].append(tuple(x.strip() for x in rest.split("=>")))
        elif d == "end":
            cur = None
        else:
            sec = f"{d} {rest}".strip()
    return items

def fmt(texts, build):
    """rustfmt the extracted functions, one file each"""
    out = []
    os.makedirs(f"{build}/fmt", exist_ok=True)
    files = []
    for i, t in enumerate(texts):
        f = f"{build}/fmt/f{i}.rs"
        open(f, "w").write(t)
        files.append(f)
    r = subprocess.run(["rustfmt", "--edition", "2024", "--config", "max_width=160"] + files, capture_output=True, text=True)
    if r.returncode:
        raise Lost("rustfmt: " + r.stderr[-500:])
    return [open(f).read() for f in files]

def assemble(name, build, repo="/repo", smoke=None, logging=""):
    """smoke: (function number, place): put `assert(false)` there, which must then fail
    logging: "log" or "tracing": with that feature on"""
    items = parse(load(name))
    fns = [i for i in items if isinstance(i, dict)]
    os.makedirs(build, exist_ok=True)
    rq = f"{build}/requests.json"
    json.dump([f["req"] for f in fns], open(rq, "w"))
    r = subprocess.run([extractor(build), repo, rq], capture_output=True, text=True, env=dict(os.environ, LOGGING=logging or "off"))
    if r.returncode:
        raise Lost("extractor: " + r.stderr[-500:])
    res = json.loads(r.stdout)
    for f, x in zip(fns, res):
        if "error" in x:
            raise Lost(x["error"])
    texts = fmt([x["text"] for x in res], build)
    out, meta = [], []
    for it in items:
        if isinstance(it, str):
            out.append(it)
            continue
        x, t = res[len(meta)], texts[len(meta)]
        g = it["ghost"]
        if smoke and smoke[0] == len(meta):
            g = dict(g, **{smoke[1]: ["assert(false);"] + g.get(smoke[1], [])})
        body = t[t.index("{"):].rstrip()
        kinds = " ".join(x["kinds"]) if "kinds" in x else ""
        want = sum(1 for k in g if k.startswith("loop "))
        who = "{owner}.{fn}".format(owner=it["req"].get("owner", ""), fn=it["req"]["fn"]) + (f" ({it['req']['trait']})" if it["req"].get("trait") else "")
        if want != x["loops"]:
            raise Lost(f"{who}: {x['loops']} loops, {want} annotated")
        # the parameters are those of the contract, in order
        sig, at = "\n".join(g["sig"]), 0
        for p in x["params"]:
            if re.fullmatch(r"\w+", p) and p not in ("self", "_"):
                m = re.search(r"\b%s\s*:(?!:)" % p, sig[at:])
                if not m:
                    raise Lost(f"{who}: parameter {p}")
                at += m.end()
        for n in range(x["loops"]):
            j = lambda k: "\n".join(g.get(f"{k} {n}", []))
            body, c = re.subn(r"\{\s*__LOOP_%d!\(\);" % n, lambda m: "\n" + j("loop") + "\n{\n" + j("body"), body)
            if c != 1:
                raise Lost(f"{who}: loop {n}")
            body = re.sub(r"__LOOPEND_%d!\(\);" % n, lambda m: j("bodyend"), body)
            body = re.sub(r"__AFTER_%d!\(\);" % n, lambda m: j("after"), body)
        for a, b in [("core::ops::RangeBounds::", "rb::"), ("RangeBounds::", "rb::")] + it["sub"]:
            body = body.replace(a, b)
        entry = "\n".join(g.get("entry", []))
        body = "{\n" + entry + body[1:]
        line = sum(s.count("\n") + 1 for s in out) + 1
        text = "\n".join(g["sig"]) + "\n" + body
        out.append(text)
        meta.append(dict(name=who, file=it["req"]["file"], beg=line, end=line + text.count("\n"), notes=x["notes"],
                         tags=sorted(set(t for l in "\n".join(g["sig"]).splitlines() if "//:" in l for t in l.split("//:")[1].strip().split(",")) | set(it["req"].get("props", "").split(",")) - {""}),
                         props=[p for p in it["req"].get("props", "").split(",") if p]))
    path = f"{build}/{name}.rs"
    if any("log_arg(" in l for l in out):
        # formatting takes its arguments by reference
        out.append("verus! { pub fn log_arg<T: ?Sized>(t: &T) { } }")
    open(path, "w").write("\n".join(out) + "\n")
    return path, meta

def clause_props(lines, ln):
    """the properties a clause of a contract is marked with: `clause, //: C01,C02`"""
    depth = 0
    for l in lines[ln - 1:ln + 40]:
        code, _, tag = l.partition("//:")
        depth += sum(code.count(c) for c in "([{") - sum(code.count(c) for c in ")]}")
        if depth <= 0 and code.rstrip().endswith(","):
            return [p for p in tag.strip().split(",") if p]
    return []

def verus(path, cwd, timeout=300, extra=()):
    r = subprocess.run(["verus", "--crate-type=lib", path, "--output-json", "--time", "--rlimit", "100"] + list(extra), capture_output=True, text=True, cwd=cwd, timeout=timeout)
    try:
        return json.loads(r.stdout), r.stderr
    except Exception:
        return None, r.stderr + r.stdout[-3000:]

if __name__ == "__main__":
    import sys
    name = sys.argv[1]
    if "--smoke" in sys.argv:
        from concurrent.futures import ThreadPoolExecutor
        def one(a):
            k, place, d = a
            try:
                p, m = assemble(name, d, smoke=(k, place))
            except Exception as e:
                return f"{k} {place}: {e}"
            j, err = verus(p, d)
            ok = j and not j["verification-results"]["success"] and j["verification-results"]["errors"] >= 1
            return None if ok else f"NOT REFUTED {m[k]['name']} {place}"
        items = [i for i in parse(load(name)) if isinstance(i, dict)]
        jobs = [(k, pl, f"/tmp/vg/s{k}_{n}") for k, it in enumerate(items) for n, pl in enumerate(["entry"] + [g.replace("loop", "body") for g in it["ghost"] if g.startswith("loop ")] + [g.replace("loop", "after") for g in it["ghost"] if g.startswith("loop ")])]
        extractor("")
        with ThreadPoolExecutor(6) as ex:
            for r in ex.map(one, jobs):
                if r:
                    print(r)
        print(len(jobs), "places tried")
        sys.exit()
    p, m = assemble(name, "/tmp/vg", logging=next((a for a in ("log", "tracing") if "--" + a in sys.argv), ""))
    print(p)
    j, err = verus(p, "/tmp/vg", extra=[a for a in sys.argv[2:] if a not in ("--log", "--tracing")])
    print(err[-6000:])
    print(j and j["verification-results"])
