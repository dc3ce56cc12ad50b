"""What each check consists of, beside its Kani module kani/src/cNN.rs."""
TRUST = [
    "Kani 0.68.0 (MIR to goto translation), CBMC 6.11.0, CaDiCaL",
    "rustc and its standard library as compiled by Kani (verified through, not assumed)",
]
ASSUME = [
    "abstract sub-patterns (abs.rs Orc): a user's own pattern is a function of the position; a failure leaves the position, a success advances by n within the input and reports that span",
    "abstract context (abs.rs AC): any length up to isize::MAX and any position in it; offset/set_offset/inc/len as of RegexCtx (checked for RegexCtx in C03)",
    "default cargo features (alloc and std on, log and tracing off); default debug profile, so arithmetic overflow is an obligation",
    "termination is not proved (Kani)",
]
PROPS = {}
for i in range(1, 24):
    PROPS["C%02d" % i] = dict(level="proof")
# unbounded proofs by Verus over bodies extracted from the source on every run (tools/verus_gen.py)
VERUS = dict(C01=["comb", "repeat", "sep", "choice", "quant", "prim", "policy"], C02=["comb", "repeat", "sep", "choice", "quant", "prim"], C03=["iter", "view"], C04=["quant"], C05=["comb"], C06=["choice", "comb"],
             C07=["choice", "comb"], C08=["comb"], C09=["repeat"], C10=["sep"], C11=["prim"], C12=["comb", "repeat", "sep"], C16=["store"],
             C17=["comb"], C18=["scan"], C19=["policy"], C20=["comb"], C21=["iter"], C22=["prefix"],
             C23=["comb", "choice", "repeat", "sep", "quant", "prim", "prefix", "policy", "view", "scan", "iter", "store"])
VTRUST = ["Verus 0.2026.09.13, Z3", "extract/ (syn): the rewrites listed under coverage.verus.*.rewrites keep the meaning; logging macros are expanded by their definitions, debug_assert! becomes an obligation"]
VASSUME = [
    "Verus: contracts in verus/prelude.rs of what the bodies call (context offset/len/set_offset/inc/peek, a sub-pattern's try_mat/construct, RangeBounds of CRange, Option arrays, from_iter): the context's are decided by C03, CRange's by C15, sub-patterns by C01/C02 for every pattern of the crate",
    "Verus: an input has at most isize::MAX units",
]
for i, t in VERUS.items():
    PROPS[i].update(verus=t, trust=VTRUST, assume=VASSUME, technique="contract-based deductive verification: Verus over bodies extracted from the source (unbounded), Kani/CBMC over the compiled functions")
for i in ("C03", "C14"):
    PROPS[i]["assume"] = PROPS[i].get("assume", []) + ["inputs of at most 2^46 bytes (the size of an object in the verifier's memory model)"]
NOT_APPLICABLE = {
    "C24": "thread safety: Kani has no threads, and the crate's Mutex/Arc types are outside Verus' permission types",
}
PROPS["C23"].update(
    technique="contract-based deductive verification of both builds: the contracts of the other properties, discharged by Verus on the bodies as src/log.rs expands them with logging on and off, and by Kani/CBMC on the crate compiled with the log and the tracing feature",
    assume=VASSUME + ["the log and tracing crates are stand-ins (kani_log/log, kani_log/tracing) whose macros evaluate every argument as an enabled level does; formatting a value (Debug, Display) has no effect on the parse",
                      "two builds that meet the same contracts return the same results: the contracts determine success, span, value, handler state and position (not which Error)"])
