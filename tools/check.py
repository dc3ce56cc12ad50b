#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's current working tree.

Runs the contract harnesses of the property (Kani/CBMC on the compiled crate in /repo) and, where
the property has one, the Verus proof of the functions extracted from /repo's source. Writes
evidence/<property>.json. Exit 0: every obligation was discharged. Exit 1 with a VIOLATION line: an
obligation failed. Exit 2: no answer (nothing could be decided:
the build fails, or the tools' limits)."""
import json, os, re, subprocess, sys, time, shutil, glob
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = "/repo"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)

def run(cmd, timeout, cwd=ROOT, env=None, log=None):
    """run a command in its own process group, kill the whole group on timeout"""
    out = open(log, "w") if log else subprocess.PIPE
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=out, stderr=subprocess.STDOUT,
                         start_new_session=True, text=True)
    try:
        o, _ = p.communicate(timeout=max(5, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        o, rc = "", "timeout"
    if log:
        out.close()
        o = open(log, errors="replace").read()
    return rc, o or ""

class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.feat, self.kdir = pid.lower(), f"{ROOT}/kani"
        self.t0 = time.time()
        self.limit = 840 if tier == "quick" else 6 * 3600
        self.build = f"{ROOT}/build/{pid}"
        os.makedirs(self.build, exist_ok=True)
        os.makedirs(f"{ROOT}/evidence", exist_ok=True)
        self.repdir = f"{ROOT}/replays/{pid}"
        shutil.rmtree(self.repdir, ignore_errors=True)
        os.makedirs(self.repdir)
        self.violations, self.undecided, self.known = [], [], []
        self.cov, self.notes = {}, []

    def left(self):
        return self.limit - (time.time() - self.t0)

    # ------------------------------------------------------------------ Kani
    def kani_cmd(self, out, extra):
        feats = self.feat + (",thorough" if self.tier == "thorough" else "")
        return ["cargo", "kani", "--features", feats, "--output-format", "terse",
                "--target-dir", f"{self.build}/kani", "-Z", "unstable-options", "-Z", "stubbing",
                "--export-json", out] + extra

    def kani_run(self, tag, extra, timeout):
        out = f"{self.build}/{tag}.json"
        if os.path.exists(out):
            os.remove(out)
        rc, log = run(self.kani_cmd(out, extra), timeout, cwd=self.kdir, log=f"{self.build}/{tag}.log")
        try:
            d = json.load(open(out))
        except Exception:
            d = None
        return rc, log, d

    @staticmethod
    def classify(r):
        """-> ('ok'|'fail'|'retry'|'undecided'|'vacuous', failed checks)"""
        bad = [c for c in r["checks"] if c["status"] in ("Failure", "Unsatisfiable")]
        real = [c for c in bad if c["status"] == "Failure" and c["category"] not in ("unwind", "unsupported_construct", "recursion")
                and "HARNESS-CAPACITY" not in c["description"]
                and "recursion unwinding" not in c["description"]
                and "unwinding assertion" not in c["description"]
                and "is not currently supported by Kani" not in c["description"]]
        if real:
            return "fail", real
        unw = [c for c in bad if c["category"] in ("unwind", "recursion") or "unwinding assertion" in c["description"]]
        if unw:
            return "retry", unw
        if r["status"] != "Success":
            return "undecided", bad
        uns = [c for c in bad if c["status"] == "Unsatisfiable"]
        if uns:
            return "vacuous", uns
        return "ok", []

    def kani(self, harness_timeout):
        rc, log, d = self.kani_run("main", ["-j", "8", "--harness-timeout", f"{harness_timeout}s"], self.left() - 60)
        if d is None:
            self.undecided.append(("kani", f"no result (exit {rc}): " + "\n".join(l for l in log.splitlines() if "error" in l)[:2000]))
            print(log[-3000:])
            return
        results = {r["harness_id"]: r for r in d["verification_results"]["results"]}
        want = {h["pretty_name"] for h in d["harness_metadata"]}
        stats = {c["harness_id"]: c["cbmc_stats"] for c in d["cbmc"] if c.get("cbmc_stats")}
        cls = {h: self.classify(results[h]) if h in results else ("undecided", []) for h in want}
        # loops that need more iterations than on the pinned tree / memory or time limits: try again
        # (not when something failed already)
        failed = any(k == "fail" for k, _ in cls.values())
        stop = time.time() + (300 if self.tier == "quick" else 7200)
        for h in sorted(want):
            if cls[h][0] in ("retry", "undecided") and not failed and self.left() > 150 and time.time() < stop:
                extras = ([["--unwind", "12"], ["--unwind", "24"]] if cls[h][0] == "retry"
                          else [["--solver", "kissat"]])
                for e in extras:
                    if self.left() < 150:
                        break
                    _, _, d2 = self.kani_run("again", ["--harness", h, "--exact", "--harness-timeout",
                                             f"{int(min(240, self.left() - 90))}s"] + e, self.left() - 60)
                    if d2 and d2["verification_results"]["results"]:
                        r2 = d2["verification_results"]["results"][0]
                        c2 = self.classify(r2)
                        if c2[0] in ("ok", "fail", "vacuous"):
                            failed = c2[0] == "fail"
                            results[h], cls[h] = r2, c2
                            if d2["cbmc"] and d2["cbmc"][0].get("cbmc_stats"):
                                stats[h] = d2["cbmc"][0]["cbmc_stats"]
                            break
        obl = dis = bobl = bdis = 0
        bounds, fns, proved, bounded = {}, set(), [], []
        covers = 0
        for h in sorted(want):
            k = cls[h][0]
            checks = results[h]["checks"] if h in results else []
            marks = sorted({c["description"].split("BOUND: ")[1] for c in checks
                            if c["category"] == "cover" and "BOUND: " in c["description"]})
            n = sum(1 for c in checks if c["category"] != "cover" and c["status"] != "Unreachable")
            g = sum(1 for c in checks if c["category"] != "cover" and c["status"] == "Success")
            covers += sum(1 for c in checks if c["status"] == "Satisfied")
            for c in checks:
                f = c["location"].get("file") or ""
                if f.startswith(REPO + "/src"):
                    fns.add(re.sub(r"::\{closure.*", "", c["function"] or ""))
            if marks:
                bobl += n; bdis += g
                bounds[h] = marks
                bounded.append(h)
            else:
                obl += n; dis += g
                proved.append(h)
            if k == "fail":
                self.violations.append(dict(engine="kani", name=h, checks=cls[h][1]))
            elif k == "vacuous":
                # a situation the contract must reach is unreachable: the code can no longer do what
                # the property promises it can do, or the harness is broken
                self.violations.append(dict(engine="kani", name=h, vacuous=True, checks=cls[h][1]))
            elif k != "ok":
                self.undecided.append((h, "tool limit: " + k + " " + "; ".join(sorted({c["description"] for c in cls[h][1]}))[:300]))
        self.cov.update(
            harnesses=len(want), harnesses_complete=len(proved), harnesses_bounded=len(bounded),
            obligations=obl, discharged=dis, bounded_obligations=bobl, bounded_discharged=bdis,
            reachability_covers_satisfied=covers,
            functions_under_contract=sorted(f for f in fns if f),
            complete_harnesses=proved, bounded_harnesses=bounds,
            vccs_generated=sum(s.get("vccs_generated", 0) for s in stats.values()),
            vccs_after_simplification=sum(s.get("vccs_remaining", 0) for s in stats.values()),
            solver_time_s=round(sum(s.get("runtime_solver_s") or 0 for s in stats.values()), 2),
            symex_time_s=round(sum(s.get("runtime_symex_s", 0) for s in stats.values()), 2),
            back_end="Kani 0.68.0 / CBMC 6.11.0 / CaDiCaL",
            checker_cmd=f"cd /verif/{os.path.basename(self.kdir)} && " + " ".join(self.kani_cmd("OUT.json", ["-j", "8"])),
        )
        if not want or obl + bobl == 0:
            self.undecided.append(("kani", "no obligations generated"))

    # ----------------------------------------------------------------- Verus
    MSG = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
           "arithmetic underflow/overflow", "decreases not satisfied", "division by zero", "index out of bounds",
           "loop ensures not satisfied", "recommendation not met", "unreachable", "possible bit shift")

    def verus_one(self, name, logging=""):
        """-> (what to report, failed obligations, the assembled text)"""
        import verus_gen
        t0, info = time.time(), {}
        what = name + (f" ({logging})" if logging else "")
        build = f"{self.build}/verus" + ("_" + logging if logging else "") + (f"/{name}" if self.pid == "C23" else "")
        try:
            path, meta = verus_gen.assemble(name, build, logging=logging)
            j, err = verus_gen.verus(path, build, timeout=max(10, min(300, self.left() - 60)), extra=["--multiple-errors", "10"])
        except Exception as e:
            # the text changed its shape: the proof says nothing, the bounded contracts still do
            info["not_proved"] = f"{type(e).__name__}: {e}"[:400]
            print(f"NOT-PROVED verus/{what}: {info['not_proved']}")
            return info, [], None
        res = (j or {}).get("verification-results", {})
        # a function (or clause) that decides other properties only says nothing about this one
        info["functions"] = [f"{m['name']} {m['file']}" for m in meta if self.pid == "C23" or self.pid in (m["tags"] or [self.pid])]
        lines = open(path).read().splitlines()
        info["wall_s"] = round(time.time() - t0, 1)
        info["solver_ms"] = (j or {}).get("times-ms", {}).get("smt", {}).get("smt-run", 0)
        notes = sorted({n for m in meta for n in m["notes"]})
        if notes:
            info["rewrites"] = notes
        if res.get("success"):
            info["verified"] = res["verified"]
            return info, [], path
        fails = []
        if res.get("errors") and not res.get("encountered-vir-error"):
            for blk in re.split(r"\n(?=error)", "\n" + err):
                m = re.match(r"\n?error(?:\[\w+\])?: ([^\n]*)\n\s*--> [^\n]*?:(\d+):\d+", blk)
                if not m or not any(x in m.group(1) for x in self.MSG):
                    continue
                ln = int(m.group(2))
                at = [f for f in meta if f["beg"] <= ln <= f["end"]]
                if not at:  # a clause of a trait: the function is named elsewhere in the message
                    more = [int(x) for x in re.findall(r"\n\s*(\d+)\s*\|", blk)] + [int(x) for x in re.findall(r":::? [^\n]*?:(\d+):\d+", blk)]
                    at = [f for f in meta if any(f["beg"] <= x <= f["end"] for x in more)]
                if at:
                    mark = verus_gen.clause_props(lines, ln) if "postcondition" in m.group(1) else []
                    fails.append((at[0], m.group(1), blk.strip(), mark or at[0]["props"], lines[ln - 1].strip()))
        info["verified"] = res.get("verified", 0) if fails else 0
        if not fails:
            info["not_proved"] = "no verdict: " + err.strip()[:600]
            print(f"NOT-PROVED verus/{what}: {info['not_proved'][:300]}")
        return info, fails, path

    def verus(self, names):
        """the unbounded proofs: contracts and proofs of verus/NAME.rs over the bodies extracted from /repo now"""
        self.cov["verus"] = {}
        for name in names:
            info, fails, path = self.verus_one(name)
            self.cov["verus"][name] = info
            if not fails:
                continue
            other = [x for x in fails if x[3] and self.pid not in x[3]]
            fails = [x for x in fails if not (x[3] and self.pid not in x[3])]
            if other:
                info["failed_for_other_properties"] = sorted({f"{x[0]['name']}: {x[1]} ({','.join(x[3])})" for x in other})
                for x in info["failed_for_other_properties"]:
                    print(f"NOTE verus/{name}: {x}")
            info["failed"] = [f"{x[0]['name']} {x[0]['file']}: {x[1]}" for x in fails]
            self.verus_report(name, fails, path)
        self.verus_sum()

    def verus_report(self, name, fails, path, why=""):
        if True:
            for who in sorted({x[0]["name"] for x in fails}):
                mine = [x for x in fails if x[0]["name"] == who]
                base = f"{self.repdir}/verus.{name}.{re.sub(r'[^A-Za-z0-9]+', '_', who)}"
                shutil.copy(path, base + ".rs")
                with open(base + ".md", "w") as f:
                    f.write(f"# {self.pid}: failed obligation of the contract of `{who}` ({mine[0][0]['file']})\n\n"
                            f"Verus does not accept the body extracted from /repo's current source against its contract (verus/{name}.rs).\n"
                            f"The assembled text is beside this file; run `verus --crate-type=lib {os.path.basename(base)}.rs --rlimit 100`.\n"
                            "Verus gives no counterexample.\n\n" + why
                            + "\n".join(f"* {x[1]}" for x in mine) + "\n\n```\n" + "\n\n".join(x[2] for x in mine) + "\n```\n")
                self.violations.append(dict(engine="verus", name=f"verus/{name}: {who}", replay=base + ".md",
                                            checks=[dict(description=x[1]) for x in mine]))

    def verus_sum(self):
        n = sum(i.get("verified", 0) for i in self.cov["verus"].values())
        bad = sum(len(i.get("failed", [])) for i in self.cov["verus"].values())
        self.cov["verus_obligations"] = n + bad
        self.cov["obligations"] = self.cov.get("obligations", 0) + n + bad
        self.cov["discharged"] = self.cov.get("discharged", 0) + n
        self.cov["solver_time_s"] = round(self.cov.get("solver_time_s", 0) + sum(i.get("solver_ms", 0) for i in self.cov["verus"].values()) / 1000, 2)
        self.cov["functions_under_contract"] = sorted(set(self.cov.get("functions_under_contract", []))
                                                      | {x for i in self.cov["verus"].values() for x in i.get("functions", []) if "not_proved" not in i})
        if n:
            self.cov["back_end"] = self.cov.get("back_end", "") + "; Verus 0.2026.09.13 / Z3 (functions and lemmas, each one obligation)"

    # ------------------------------------------------------------- logging (C23)
    LOG_KANI = {"quick": "c04,c05,c06,c08,c09,c10,c11,c15,c17,c22", "thorough": "c04,c05,c06,c07,c08,c09,c10,c11,c12,c13,c15,c17,c18,c19,c21,c22"}
    TRACE_KANI = {"quick": "c15,c17", "thorough": "c05,c08,c11,c15,c17"}

    def logging(self, names, kani):
        """the same contracts on both builds: an obligation met with logging off and not with logging on (or the
        other way round) is a difference. The contracts determine results and positions."""
        from concurrent.futures import ThreadPoolExecutor
        import verus_gen
        self.cov["verus"] = {}
        try:
            verus_gen.extractor(self.build)
        except Exception:
            pass
        modes = ("", "log", "tracing")
        text = lambda p: p and open(p).read()
        with ThreadPoolExecutor(4) as ex:
            jobs = {(n, m): ex.submit(self.verus_one, n, m) for n in names for m in modes[:2]}
            out = {k: j.result() for k, j in jobs.items()}
            # with tracing the text is that with log; where it is not, it is proved as well
            for n in names:
                try:
                    p, _ = verus_gen.assemble(n, f"{self.build}/verus_tracing/{n}", logging="tracing")
                    if text(p) != text(out[n, "log"][2]):
                        out[n, "tracing"] = self.verus_one(n, "tracing")
                except Exception:
                    pass
        for n in names:
            info0, off, path0 = out[n, ""]
            self.cov["verus"][n + " (logging off)"] = info0
            for mode in modes[1:]:
                if (n, mode) not in out:
                    continue
                info, on, path = out[n, mode]
                self.cov["verus"][f"{n} ({mode})"] = info
                if bool(info.get("not_proved")) != bool(info0.get("not_proved")):
                    self.undecided.append((f"verus/{n}", "no verdict on one of the two builds"))
                    continue
                key = lambda x: (x[0]["name"], x[1])
                a, b = [x for x in on if key(x) not in {key(y) for y in off}], [x for x in off if key(x) not in {key(y) for y in on}]
                for fails, p, why in ((a, path, f"The obligation is met with logging off, and not with the text as it is with the feature {mode}.\n\n"),
                                      (b, path0, f"The obligation is met with the feature {mode}, and not with the text as it is with logging off.\n\n")):
                    if fails:
                        (info if fails is a else info0)["failed"] = [f"{x[0]['name']} {x[0]['file']}: {x[1]}" for x in fails]
                        self.verus_report(n, fails, p, why)
        if kani:
            keep = {}
            # the recorded violations have their replays made with the build they come from
            for feat, which in ((self.LOG_KANI, "with_log"), (self.TRACE_KANI, "with_tracing")):
                if any(v["engine"] == "kani" for v in self.violations):
                    break
                self.feat, self.kdir = feat[self.tier] + "," + which, f"{ROOT}/kani_log"
                held, mine = self.cov, len(self.violations)
                self.cov = {}
                self.kani(200 if self.tier == "quick" else 3000)
                keep[which], self.cov = self.cov, held
                if not keep[which] and not self.builds():
                    p = f"{self.repdir}/build.md"
                    open(p, "w").write(f"# C23: the crate builds with logging off, and not with {which}\n\n```\n{open(self.build + '/main.log', errors='replace').read()[-6000:]}\n```\n")
                    self.violations.append(dict(engine="build", name=which, replay=p, checks=[dict(description="does not build")]))
                # a contract the build without logging does not meet either is no difference
                for v in self.violations[mine:]:
                    if v["engine"] != "kani":
                        continue
                    log = (self.feat, self.kdir)
                    self.feat, self.kdir = v["name"].split("::")[0], f"{ROOT}/kani"
                    _, _, d = self.kani_run("off", ["--harness", v["name"], "--exact", "--harness-timeout", "240s"], self.left() - 60)
                    self.feat, self.kdir = log
                    r = d and d["verification_results"]["results"]
                    if not r or self.classify(r[0])[0] != "ok":
                        self.violations.remove(v)
                        self.notes.append(f"{v['name']} fails with logging off as well")
                        print("NOTE " + self.notes[-1])
            for which, c in keep.items():
                for k in ("harnesses", "harnesses_complete", "harnesses_bounded", "obligations", "discharged", "bounded_obligations",
                          "bounded_discharged", "vccs_generated", "solver_time_s", "symex_time_s"):
                    self.cov[k] = round(self.cov.get(k, 0) + c.get(k, 0), 2)
                self.cov["functions_under_contract"] = sorted(set(self.cov.get("functions_under_contract", [])) | set(c.get("functions_under_contract", [])))
                self.cov[f"harnesses_{which}"] = dict(complete=c.get("complete_harnesses", []), bounded=c.get("bounded_harnesses", {}))
            first = keep.get("with_log") or {}
            self.cov.update(back_end=first.get("back_end", ""), checker_cmd=first.get("checker_cmd", ""))
        self.verus_sum()

    def builds(self):
        """does the build with logging on work (when the one without does)?"""
        log, _ = run(["cargo", "check", "--offline", "--quiet", "--features", self.feat.split(",")[-1], "--target-dir", f"{self.build}/chk"], 120, cwd=self.kdir, log=f"{self.build}/chk.log")
        off, _ = run(["cargo", "check", "--offline", "--quiet", "--target-dir", f"{self.build}/chk"], 120, cwd=self.kdir)
        return not (isinstance(log, int) and log != 0 and off == 0)

    # ---------------------------------------------------------------- replay
    def playback(self, v):
        """turn the verifier's counterexample into a native test against the real crate"""
        h = v["name"]
        if v.get("vacuous"):
            path = f"{self.repdir}/{h.replace('::', '.')}.md"
            open(path, "w").write(f"# {self.pid}: contract harness `{h}`\n\nEvery assertion holds, but these situations, which the property says occur, "
                                  "can no longer occur in the code (no input reaches them):\n\n"
                                  + "\n".join("* " + c["description"] for c in v["checks"]) + "\n")
            return path, False
        rc, log, d = self.kani_run("cex", ["--harness", h, "--exact", "-Z", "concrete-playback",
                                   "--concrete-playback=print"] + (["--solver", "minisat"] if False else []),
                                   min(300, max(60, self.left() - 60)))
        tests = re.findall(r"/// Check for `([^`]*)`: \"(.*?)\"\n\s*\n?#\[test\]\s*\nfn \w+\(\) \{\n(.*?)\n\}", log, re.S)
        # a harness without symbolic values needs none
        tests = [t for t in tests if t[0] != "cover"] or [("", "no symbolic values", "    let concrete_vals: Vec<Vec<u8>> = vec![];\n    kani::concrete_playback_run")]
        descs = [c["description"] for c in v["checks"]]
        path = f"{self.repdir}/{h.replace('::', '.')}.md"
        head = [f"# {self.pid}: failed obligation in contract harness `{h}`", "",
                "Failed checks (Kani/CBMC):"] + [f"* {c['category']}: {c['description']} at {c['location']['file']}:{c['location']['line']} in `{c['function']}`" for c in v["checks"]]
        ok = False
        if tests and self.left() > 40:
            scratch = f"{self.build}/playback"
            shutil.rmtree(scratch, ignore_errors=True)
            os.makedirs(scratch)
            shutil.copytree(f"{ROOT}/kani/src", f"{scratch}/src")
            for f in ("Cargo.toml", "Cargo.lock"):
                if os.path.exists(f"{self.kdir}/{f}"):
                    shutil.copy(f"{self.kdir}/{f}", scratch)
            for d in ("log", "tracing"):
                if os.path.isdir(f"{self.kdir}/{d}"):
                    shutil.copytree(f"{self.kdir}/{d}", f"{scratch}/{d}")
            s = open(f"{scratch}/Cargo.toml").read()
            open(f"{scratch}/Cargo.toml", "w").write(s.replace("../kani/src/lib.rs", "src/lib.rs"))
            for f in glob.glob(f"{scratch}/src/*.rs"):
                s = open(f).read()
                s = re.sub(r"(#\[kani::proof\](?:\s*#\[[^\]]*\])*\s*)fn ", r"\1pub fn ", s)
                s = re.sub(r"^(\s*)mod ", r"\1pub mod ", s, flags=re.M)
                open(f, "w").write(s)
            with open(f"{scratch}/src/lib.rs", "a") as f:
                f.write("\n#[cfg(test)]\nmod pbgen;\n")
            gen = ""
            for i, (cat, desc, body) in enumerate(tests[:6]):
                vals = body[:body.rfind("kani::concrete_playback_run")]
                gen += f"/// {cat}: {desc}\n#[test]\nfn pb{i}() {{\n{vals}\n    kani::concrete_playback_run(concrete_vals, crate::{h});\n}}\n\n".replace("\n\n    kani", "\n    kani")
            open(f"{scratch}/src/pbgen.rs", "w").write(gen)
            feats = self.feat + (",thorough" if self.tier == "thorough" else "")
            rc2, out = run(["cargo", "kani", "playback", "-Z", "concrete-playback", "--features", feats, "--", "pbgen"],
                           min(180, self.left()), cwd=scratch, env=dict(ENV, CARGO_TARGET_DIR=f"{self.build}/pbtarget", RUST_BACKTRACE="0"))
            panics = re.findall(r"panicked at [^\n]*\n([^\n]*)", out)
            real = [p for p in panics if "assume" not in p and "HARNESS-CAPACITY" not in p and "concrete" not in p.lower() and "det vals" not in p.lower()]
            ok = "test result: FAILED" in out and bool(real)
            head += ["", "Counterexample replayed natively against /repo (cargo kani playback): " + ("REPRODUCED" if ok else "not reproduced"),
                     "", "```rust", gen, "```", "", "```", out[-4000:], "```", "",
                     "To replay: copy /verif/kani, make the harness public, add the test above, run",
                     f"`cargo kani playback -Z concrete-playback --features {feats} -- pbgen`."]
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            head += ["", "No concrete counterexample could be extracted.", "", "```", log[-4000:], "```"]
        open(path, "w").write("\n".join(head) + "\n")
        return path, ok

    # -------------------------------------------------------------- evidence
    def evidence(self, level, assumptions):
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level,
                  coverage=self.cov, assumptions=assumptions, wall_s=round(time.time() - self.t0, 1),
                  violations=len(self.violations))
        if self.undecided:
            ev["coverage"]["undecided"] = [f"{a}: {b}"[:500] for a, b in self.undecided]
        if self.known:
            ev["coverage"]["known_findings"] = self.known
        json.dump(ev, open(f"{ROOT}/evidence/{self.pid}.json", "w"), indent=1)

def known_findings(pid):
    out = []
    for l in open(f"{ROOT}/known-findings.txt"):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3).strip()))
    return out

def main():
    import props
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    meta = props.PROPS[pid]
    c = Check(pid, tier)
    if pid == "C23":
        c.logging(meta["verus"], "--no-kani" not in sys.argv)
    elif meta.get("kani", True) and "--no-kani" not in sys.argv:  # --no-kani: while developing
        c.kani(200 if tier == "quick" else 3000)
    if meta.get("verus") and pid != "C23":
        c.verus(meta["verus"])
    kf = known_findings(pid)
    for key, text in kf:
        # key is harness#prefix of the failed check; any other failing check of the harness is reported
        name, _, pre = key.partition("#")
        hit = [v for v in c.violations if v["name"] == name and any(k["description"].startswith(pre) for k in v["checks"])]
        if hit:
            for v in hit:
                v["checks"] = [k for k in v["checks"] if not k["description"].startswith(pre)]
            c.violations = [v for v in c.violations if v["checks"]]
            c.known.append(text)
            print(f"KNOWN-FINDING: property={pid} {text}")
    # report at most a few violations; replay the first ones
    lines = []
    for i, v in enumerate(c.violations):
        if v["engine"] == "kani":
            if i < 3 and c.left() > 60 and not any(ok for _, ok in lines):
                path, ok = c.playback(v)
            else:
                path, ok = f"{c.repdir}/{v['name'].replace('::', '.')}.md", False
                open(path, "w").write(json.dumps(v, indent=1))
        else:
            path, ok = v["replay"], v.get("reproduced", False)
        lines.append((path, ok))
    lines.sort(key=lambda l: not l[1])
    c.cov.setdefault("obligations", 0)
    c.cov.setdefault("discharged", 0)
    c.cov.setdefault("checker_cmd", "")
    level = meta["level"]
    if level == "proof" and not c.cov["obligations"]:
        level = "other"
    if level == "other":
        c.cov["explanation"] = "bounded contract harnesses only: see bounded_harnesses for each bound"
    c.cov["trusted_base"] = props.TRUST + meta.get("trust", [])
    c.evidence(level, props.ASSUME + meta.get("assume", []))
    for h, why in c.undecided:
        print(f"UNDECIDED {h}: {why}"[:600])
    print(f"{pid}: obligations {c.cov['discharged']}/{c.cov['obligations']} discharged without bound, "
          f"{c.cov.get('bounded_discharged', 0)}/{c.cov.get('bounded_obligations', 0)} within stated bounds, "
          f"{time.time() - c.t0:.0f} s")
    if lines:
        rep = [l for l in lines if l[1]]
        for path, ok in (rep or lines[:1]):
            print(f"VIOLATION property={pid} replay={path}" + ("" if ok else " no-failing-input-found"))
        sys.exit(1)
    # a harness beyond the tools' limits is reported above and in the evidence; no answer only if nothing was decided
    sys.exit(0 if c.cov["discharged"] + c.cov.get("bounded_discharged", 0) > 0 else 2)

if __name__ == "__main__":
    main()
