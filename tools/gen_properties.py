#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one place to edit the property texts).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

OFF = [("offset", "read position of the parsing context; the only mutable parse state", "src/ctx/regex.rs RegexCtx.offset")]

p("C01", "A failed match or construct leaves the input position unchanged",
  "When a provided pattern or combinator fails, in matching mode or in value-constructing mode (including when a value conversion or a handler is what fails), the context's position afterwards equals its position before the attempt. This holds for every combination, given only that the user's own sub-patterns behave this way, so an alternative can always be tried from the same place.",
  ["inputs", "programs"], "every input, every start position, every outcome (success length or failure) of every sub-pattern, for each provided combinator",
  "The tests check final results of a few parsers; the position after a failure in the middle of a sequence, after a failing conversion, or after some elements of a repetition matched is sampled for a handful of strings only.",
  ["src/ctx/guard.rs", "src/ctor/*.rs", "src/regex/*.rs", "src/neu/*.rs", "src/ctx.rs", "src/ctx/regex.rs"],
  [("CtxGuard rollback on drop", "src/ctx/guard.rs"), ("inspect_err(set_offset) in combinators", "src/ctor/*.rs")],
  ["Context::offset after Err from Match::try_mat / MatchExt::ctor*"], OFF)

p("C02", "A successful match reports exactly the range it consumed",
  "When a provided pattern or combinator succeeds in matching mode, the returned span begins at the position where the attempt started, ends exactly at the context's position afterwards, and lies inside the input. Consecutive matches therefore tile the input: nothing is skipped silently and nothing is consumed twice. (A pattern that is produced by an earlier pattern through into_regex_builder reports the produced pattern's own span.)",
  ["inputs", "programs"], "every input, every start position, every outcome of every sub-pattern, for each provided combinator and leaf pattern",
  "Tests compare a span or an extracted value for sample strings; they almost never compare the span with the position left behind, nor over combinations of empty and non-empty sub-matches.",
  ["src/ctor/*.rs", "src/regex/*.rs", "src/neu/*.rs", "src/span.rs", "src/ctx/guard.rs"],
  [("Span::add_assign accumulation", "src/span.rs"), ("new_span_inc", "src/ctx.rs"), ("CtxGuard::inc/len/beg", "src/ctx/guard.rs")],
  ["Span returned by Match::try_mat, Context::offset"], OFF)

p("C03", "Context views are faithful, in bounds and never split a character",
  "Iterating a context from any position yields exactly the remaining bytes or characters in order, each with its byte distance from where the iteration starts, and extracting a sub-range yields exactly those bytes of the input. A position or range that is outside the input (or, for text, not on a character boundary) is reported as an error; no request of any kind panics, overflows or reads outside the input.",
  ["inputs"], "every text or byte input, every position and length in the full machine range",
  "Tests only use in-range positions on a few literals; out-of-range, overflowing and mid-character requests are not sampled.",
  ["src/ctx.rs", "src/ctx/regex.rs", "src/iter/byte.rs", "src/iter/span.rs", "src/iter/mod.rs"],
  [("orig_sub/peek_at bounds checks via slice get", "src/ctx/regex.rs"), ("BytesIndices", "src/iter/byte.rs")],
  ["Context::peek_at, orig_at, orig_sub, clone_at, len, offset"], OFF)

p("C04", "Unit quantifiers take the maximal run within their bounds",
  "A quantified unit (once, opt, many0, many1, count/between/at_least/at_most/times, and one unit followed by another) succeeds exactly when the input at the current position starts with at least the minimum number of items accepted by the unit and its condition, and then consumes the longest run of accepted items not exceeding the maximum, and nothing more. This holds for any item widths, including multi-byte characters and runs that reach the end of the input.",
  ["inputs"], "every input sequence of items with any byte widths, every unit predicate and condition, every bound pair",
  "Tests use a few ASCII strings per quantifier; the off-by-one cases (exactly the bound, end of input, multi-byte last item, condition failing mid-run) form an unbounded set.",
  ["src/neu/once.rs", "src/neu/opt.rs", "src/neu/times.rs", "src/neu/then.rs", "src/neu.rs", "src/neu/cond.rs"],
  [("peek loop + calc_length + new_span_inc", "src/neu/{once,opt,times,then}.rs, src/neu.rs calc_length")],
  ["Span of try_mat on a quantified unit"])

p("C05", "Sequencing combinators run their parts back to back, all or nothing",
  "Sequencing (then, prefix, suffix, enclose, sep_once, and the conditional if_then) matches exactly when each required part matches at the position where the previous part ended, in the documented order; it consumes exactly the parts together and yields the values of the value-carrying parts in order, paired with the right part. If_then runs its continuation exactly when its test matches and otherwise yields just the first value.",
  ["inputs", "programs"], "every input and every pair/triple of sub-pattern behaviours",
  "Tests run some happy-path sequences; swapped parts, a part evaluated at the wrong position or a skipped part for particular sub-results are only seen for the sampled inputs.",
  ["src/ctor/then.rs", "src/ctor/affix.rs", "src/ctor/enclose.rs", "src/ctor/sep.rs"],
  [("CtxGuard sequencing", "src/ctor/{then,affix,enclose,sep}.rs")],
  ["try_mat / ctor on combinators"])

p("C06", "Ordered choice takes the first alternative that matches, from the same start",
  "Ordered choice (or, array/slice/vector and their keyed pair forms, optional, and if_else) behaves as its first alternative, in order, that matches when started from the original position, and fails only if all fail; later alternatives cannot influence the result. Optional patterns always succeed, yielding nothing and consuming nothing when the inner pattern fails, keyed choices return the key's own value, and if_else picks its branch by the test alone.",
  ["inputs", "programs"], "every input, every number and behaviour of alternatives",
  "Tests use two or three fixed alternatives; order sensitivity with overlapping alternatives and state left over from a failed earlier alternative are not covered in general.",
  ["src/ctor/or.rs", "src/ctor/opt.rs", "src/ctor/branch.rs", "src/ctor/array.rs", "src/ctor/slice.rs", "src/ctor/vec.rs", "src/ctor.rs", "src/regex.rs"],
  [("reset before next alternative", "src/ctor/or.rs, src/ctor.rs handler, src/regex.rs handler")],
  ["try_mat / ctor on choices"])

p("C07", "Longest-match choice takes the longest alternative and stops at its end",
  "Longest-token choice (longest, and the _ltm array/slice/vector forms and their keyed pair forms) tries every alternative from the same start and yields the one that consumed most, preferring the earliest on a tie, failing only if none matches. The position afterwards is the end of that winning alternative.",
  ["inputs", "programs"], "every input, every number and behaviour (length) of alternatives, in every order",
  "Tests check the returned value for a few orders of alternatives, not the resulting position nor all orderings and ties.",
  ["src/ctor/longest.rs", "src/ctor.rs", "src/regex.rs", "src/ctor/array.rs", "src/ctor/slice.rs", "src/ctor/vec.rs"],
  [("handler_ltm", "src/ctor.rs, src/regex.rs"), ("LongestTokenMatch", "src/ctor/longest.rs")],
  ["try_mat / ctor on longest choices, Context::offset"])

p("C08", "Lookahead never consumes and reports exactly whether the pattern matches",
  "Positive and negative lookahead (peek, not, the ! operator, and the context's own assertion calls) never change the position, return an empty span at the current position, and succeed exactly when the inner pattern would match (respectively would not match) there. Negating twice is the same as the positive form.",
  ["inputs", "programs"], "every input, start position and inner-pattern behaviour",
  "Tests assert a few sample lookaheads; the zero-width guarantee must hold whatever the inner pattern consumed.",
  ["src/regex/assert.rs", "src/ctx.rs", "src/neu/cond.rs"],
  [("save/restore offset in try_assert", "src/ctx.rs, src/regex/assert.rs")],
  ["Context::offset before/after, result of try_mat(not(p)/peek(p))"])

p("C09", "Repetition is greedy within its count bounds and keeps every value in order",
  "Repeating a pattern matches it back to back as often as possible without exceeding the upper bound, and succeeds exactly when the number of matches reached lies in the requested range. The result carries exactly one value per match, in order (unused fixed slots stay empty), and a match that was attempted but failed contributes neither a value nor consumed input.",
  ["inputs", "programs"], "every input, every count range, every element behaviour over any number of iterations",
  "Tests repeat a few times with fixed ranges; boundary counts and inputs with more matches than the maximum are unbounded families.",
  ["src/ctor/repeat.rs", "src/ctor/repeat2.rs", "src/ctor/collect.rs", "src/neu/range.rs"],
  [("counting loop + range.contains", "src/ctor/{repeat,repeat2,collect}.rs")],
  ["try_mat / ctor on repeat, repeat2, collect"])

p("C10", "Separated lists accept exactly element-separator alternations",
  "A separated list consumes the longest alternation of elements and separators starting with an element, within its count limits, and yields one value per accepted element in order; it succeeds exactly when at least the minimum number was accepted. With trailing separators optional the last element needs none; with trailing separators required an element is accepted only together with the separator after it, and an element without one is neither kept nor consumed.",
  ["inputs", "programs"], "every input, element/separator behaviour, minimum, maximum and trailing-separator mode",
  "Tests sample a few well-formed lists; malformed tails, more elements than the maximum and the required-trailing mode combine without bound.",
  ["src/ctor/sep.rs"],
  [("element/separator loop", "src/ctor/sep.rs Separate, Separate2, SepCollect")],
  ["try_mat / ctor on sep, sep2, sep_collect"])

p("C11", "Primitive patterns match exactly what they denote",
  "A literal matches exactly when the remaining input starts with it and consumes exactly its length; start and end match exactly at the first and last position without consuming; consume(n) takes exactly n when that many remain and fails otherwise, consume_all takes everything that remains; the empty pattern always succeeds without consuming and the failing pattern always fails.",
  ["inputs"], "every input, position, literal and count",
  "Tests sample literals that fit; the remaining-input-shorter-than-literal, near-end and large-count cases are only sampled.",
  ["src/regex/literal.rs", "src/regex/anchor.rs", "src/regex/consume.rs", "src/regex/empty.rs", "src/regex/fail.rs", "src/regex.rs"],
  [("LiteralTy::is_match", "src/regex/literal.rs")],
  ["try_mat on primitives"])

p("C12", "Constructing a value consumes exactly what matching alone would",
  "For the same pattern on the same input, constructing a value succeeds exactly when plain matching succeeds (when no conversion rejects the value), and leaves the context at the same position; leaf values are extracted from exactly the matched span. A user may therefore use the matching form to predict the constructing form.",
  ["inputs", "programs"], "every input, start position and sub-pattern behaviour, for every combinator with both forms",
  "The two forms are separate hand-written loops; tests exercise mostly one form per example and never compare the two on the same input.",
  ["src/ctor/*.rs", "src/neu/*.rs", "src/regex/*.rs"],
  [("paired Regex::try_parse and Ctor::construct implementations", "src/ctor/*.rs")],
  ["ctor_span vs try_mat, Context::offset"])

p("C13", "Wrapping a pattern does not change its behaviour",
  "A pattern held through a reference, box, shared pointer, cell, mutex, option, dynamic object or adapter matches, constructs and fails exactly as the wrapped pattern itself does on the same context, and uses the same handler; an empty option fails without consuming.",
  ["inputs", "programs"], "every wrapper kind and every inner-pattern behaviour",
  "Tests call some wrappers once on one input.",
  ["src/regex/adapter.rs", "src/ctor/adapter.rs", "src/regex.rs", "src/ctor.rs", "src/regex/into.rs", "src/ctor/into.rs"],
  [("forwarding impls", "src/regex.rs, src/ctor.rs, src/*/adapter.rs")],
  ["try_mat / ctor through wrappers"])

p("C14", "Value conversions are exact and reject what they cannot represent",
  "Built-in conversions return exactly the value the matched text or bytes denote: fixed-width integers and floats in the stated byte order from the first bytes of exactly their width (and an error when fewer are there), text decoding that accepts exactly valid UTF-8, radix parsing, selection of tuple parts, equality-checked selection, bounded and defaulted values. Anything outside the conversion's domain is an error (or the documented default), never a wrong value or a panic.",
  ["inputs"], "every byte sequence, width, value and tuple",
  "Tests convert a few constants; conversions must hold for all 2^N values and all lengths.",
  ["src/map.rs"],
  [("FallibleMap impls", "src/map.rs")],
  ["try_map(map::...) results, MatchExt::map"])

p("C15", "Unit classes and their boolean algebra denote the right sets",
  "Each unit accepts exactly its documented set (a character, a byte, ranges of every bound kind, lists, digit of a radix, ASCII and Unicode classes, word, wild, always, never), and or/and/not combine units as set union, intersection and complement. A unit's declared minimum width never exceeds the width of an item it accepts, so a width pre-check can never reject matching input.",
  ["inputs"], "all characters and bytes; all ranges; all sub-unit truth values",
  "Tests sample a few characters per class; the full Unicode range and the composed minimum widths are not covered.",
  ["src/neu.rs", "src/neu/units.rs", "src/neu/bool.rs", "src/neu/equal.rs", "src/neu/op_or.rs", "src/neu/op_and.rs", "src/neu/op_not.rs", "src/neu/range.rs"],
  [("Neu::is_match / min_length", "src/neu/*.rs")],
  ["Neu::is_match, Neu::min_length, CRange::contains"])

p("C16", "Capture storage returns what was stored and touches nothing else",
  "A span recorded for a group is returned for that group and index until overwritten or cleared, every other group and index is unaffected; reading a group or index that holds nothing, or does not exist, reports nothing, and adding to full storage is refused without changing anything. Span arithmetic (start, length, end, merging adjacent spans) agrees with the ranges it denotes and never yields a range outside the ones combined.",
  ["inputs", "histories"], "every sequence of storage operations with any group ids, indices and spans",
  "Tests store a few captures; a frame condition over all other groups and all operation sequences is not testable by samples.",
  ["src/span.rs"],
  [("ArrayStorer, VecStorer", "src/span.rs"), ("Span::add_assign", "src/span.rs")],
  ["span storer accessors"])

p("C17", "A transaction guard restores the context exactly when its scope failed",
  "Dropping a context guard puts the position back to where the guard was created if, and only if, a failure was recorded through it (a failed match or a failed result handed to it); otherwise the position reached is kept. An explicit reset restores the position immediately. Its reported begin and end always delimit the region consumed since it was created, and advancing through it reports exactly the range it advanced over.",
  ["histories"], "every sequence of guard operations with any outcomes",
  "Tests never use the guard directly.",
  ["src/ctx/guard.rs"],
  [("Drop for CtxGuard", "src/ctx/guard.rs")],
  ["Context::offset after the guard is dropped"])

p("C18", "Scanning finds every non-overlapping match, in order, and terminates",
  "Searching (find, find_all) reports the non-empty matches at the leftmost position at or after the end of the previous match, in increasing non-overlapping order, missing none, and always terminates; sequential matching (match_seq) reports contiguous matches and stops at the first position that does not match.",
  ["inputs", "programs"], "every input and every pattern behaviour, any number of matches",
  "Tests run a few searches; leftmost-first completeness and termination range over all inputs.",
  ["src/ctx.rs"],
  [("find_with / find_all_with loops", "src/ctx.rs MatchMulti")],
  ["results of find, find_all, match_seq and the final position"])

p("C19", "Skipping policies apply before every match and only move past skipped input",
  "With a skip-before policy every match first skips what the policy pattern matches and then behaves as the plain pattern at that point, including inside combinators, with spans covering only the pattern itself. If the policy or the pattern fails the position is as before the attempt, and before/after variants run in the stated order.",
  ["inputs", "programs"], "every input, policy behaviour and pattern behaviour",
  "Tests use whitespace skipping on a few strings and never check the position after a failure.",
  ["src/ctx/policy.rs", "src/ctx/regex.rs", "src/ctx.rs"],
  [("PolicyCtx::try_mat", "src/ctx/policy.rs"), ("try_mat_policy", "src/ctx/regex.rs")],
  ["try_mat on a policy context"])

p("C20", "Dynamic and recursive patterns run exactly the pattern they produce",
  "A pattern built at match time from an earlier result, from the context, or through a recursive handle behaves exactly as the produced pattern run at that point: same result, same consumption, values in order, and failure of either stage fails the whole without consuming. A recursive parser unfolds to its definition at any nesting depth.",
  ["inputs", "programs"], "every produced pattern, every outcome of either stage, every nesting depth",
  "Tests run one or two builders and shallow nesting.",
  ["src/regex/builder.rs", "src/ctor/dthen.rs", "src/regex/rec.rs"],
  [("DynamicRegexBuilder, DynamicCtorThenBuilder, RecursiveParser", "src/regex/builder.rs, src/ctor/dthen.rs, src/regex/rec.rs")],
  ["try_mat / ctor on dynamic patterns"])

p("C21", "Iterators over captured spans yield every item once and report exact sizes",
  "Iterating the text or bytes of stored spans yields, in order, exactly the sub-slices those spans denote and skips nothing but empty slots and spans that denote nothing in the value. At every point, including after exhaustion, an iterator that reports its remaining size reports the number of items still to come, and stepping never panics.",
  ["inputs", "histories"], "every span list, input and number of next() calls",
  "Tests never step past the end nor check sizes.",
  ["src/iter/mod.rs", "src/iter/span.rs", "src/iter/byte.rs"],
  [("SpanIterator, IteratorBySpan, IteratorByOptionSpan, BytesIndices", "src/iter/*.rs")],
  ["Iterator::next / size_hint / len"])

p("C22", "A prefixed unit demands its prefix count first, then its unit, then stays failed",
  "A prefixed unit accepts its first n items exactly as the prefix does and every later item exactly as the unit does, and once a prefix item was rejected it rejects everything; the synchronized variant behaves identically.",
  ["histories"], "every prefix count and every sequence of items and sub-unit answers",
  "Tests run a few fixed numbers; the state machine must hold over all item sequences.",
  ["src/neu/prefix.rs"],
  [("Prefix / PrefixSync state", "src/neu/prefix.rs")],
  ["Neu::is_match call sequences"])

p("C23", "Enabling logging or tracing does not change parsing results",
  "With the optional logging or tracing features enabled, every pattern returns the same results and leaves the same positions as without them.",
  ["configurations", "inputs"], "every feature combination and input",
  "The test suite is not run with the log feature against the same expectations.",
  ["src/log.rs", "src/macro.rs"],
  [("debug_* macros", "src/log.rs")],
  ["results with and without features"])

p("C24", "Synchronized recursive and dynamic parsers can be shared between threads",
  "A parser built from the synchronized constructors can be used from several threads at once, each thread seeing the same results as a single-threaded run, without deadlock.",
  ["schedules"], "every interleaving of threads using one shared parser",
  "The tests are single-threaded.",
  ["src/regex/rec.rs", "src/regex/adapter.rs", "src/ctor/adapter.rs"],
  [("Arc/Mutex based handles", "src/regex/rec.rs")],
  ["concurrent try_mat"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
