"""What decides each property: the witness entries to analyse and the rules to apply."""

import rules

U = dict(unroll=24)


FULL = "full"


def D(level, rule, quick, thorough=None, rules=(), assumptions=(), note=None, technique=None):
    d = dict(level=level, rule=rule, note=note or rule, technique=technique, entries={"quick": quick}, rules=list(rules), assumptions=list(assumptions))
    thorough = thorough or quick
    d["entries"]["thorough"] = thorough + [("fast", e, o) for c, e, o in thorough if c == FULL and ("fast", e, o) not in thorough]
    return d


EQ = "on every path of the trace partition the abstract output of the witness equals the specification term, for all values of the symbols"

PLAN = {
    "C01": D("proof", EQ + "; each value occurs in the output exactly as its encoding", [(FULL, "e_auth_lit_.*", {}), (FULL, "e_c01_.*", {})], [(FULL, "e_c02_.*", {}), (FULL, "e_c01_.*", {})]),
    "C02": D("proof", EQ + "; each value occurs in what is signed exactly as its double encoding, with debug assertions on and off", [(FULL, "e_auth_lit_.*", {}), (FULL, "e_c02_[pl].*", {}), ("fast", "e_c02_[pl].*", {}), (FULL, "e_c01_.*", {})], [(FULL, "e_c02_.*", {}), ("fast", "e_c02_[pl].*", {}), (FULL, "e_c01_.*", {})]),
    "C03": D("proof", EQ, [(FULL, "e_c03_.*", {})]),
    "C04": D("proof", EQ + "; the loops over request parameters are joined into invariants that keep output and signature input in step", [(FULL, "e_auth_.*", {})]),
    "C05": D("proof", EQ, [(FULL, "e_auth_lit_.*", {}), (FULL, "e_auth_(form|query)_.*", {})]),
    "C06": D("proof", EQ, [(FULL, "e_auth_lit_.*", {}), (FULL, "e_auth_header_.*", {}), (FULL, "e_c01_oauth_header", {})]),
    "C07": D("proof", EQ, [(FULL, "e_auth_lit_.*", {}), (FULL, "e_auth_(form|query)_.*", {}), (FULL, "e_c35_.*", {})]),
    "C08": D("proof", "the number of occurrences of each parameter name and the values, per combination of options", [(FULL, "e_auth_lit_.*", {}), (FULL, "e_c08_.*", {})]),
    "C09": D("proof", "the log of the calls received by a signature method equals the documented protocol", [(FULL, "e_auth_.*", {})]),
    "C10": D("proof", "the log of the calls received by a serializer equals the eight parameters and the request's own, merged by key, then end; over any number of parameters, order comparisons being facts on the path", [(FULL, "e_c10_lit.*", {}), (FULL, "e_c10_assert_sorted|e_c10_unit", {}), (FULL, "e_c10_(slice|list.*|wrapped)", U)]),
    "C11": D("proof", "the order of the items, under every order of the symbolic keys", [(FULL, "e_c11_.*", U)]),
    "C12": D("proof", "the order of the items, under every order of the symbolic keys and encoded values", [(FULL, "e_c12_.*|e_c11_.*", U)]),
    "C13": D("proof", EQ, [(FULL, "e_c13_.*", {})]),
    "C14": D("proof", EQ + "; keys and lengths are symbolic, cut in two at any position", [(FULL, "e_c14_.*", {})]),
    "C15": D("proof", EQ + "; and the set of bytes the output can contain", [(FULL, "e_c13_lit", {}), (FULL, "e_c15_.*", {})]),
    "C16": D("proof", EQ, [(FULL, "e_c16_.*", {})]),
    "C17": D("proof", "the calls received by the wrapped signature method and the value returned, for each variant", [(FULL, "e_c17_.*", {})]),
    "C18": D("proof", EQ + "; the verb is the constant each shorthand is named after", [(FULL, "e_c18_.*", {})]),
    "C19": D("proof", "both entry points yield the same abstract output for the same symbols", [(FULL, "e_c19_.*", {})]),
    "C20": D("proof", EQ + "; the buffer starts as a symbol that must be the prefix of the result", [(FULL, "e_auth_lit_.*", {}), (FULL, "e_c20_.*|e_c35_.*", {})]),
    "C21": D("proof", "each getter after each setter, against a symbolic starting state", [(FULL, "e_c21_.*", U)]),
    "C22": D("proof", "the nonce is an injective rendering of enough bytes drawn from the generator during the call", [(FULL, "e_c22_.*", U), (FULL, "e_c08_.*", {})]),
    "C23": D("proof", EQ + "; and how often the clock is read", [(FULL, "e_c23_.*", {}), (FULL, "e_c08_.*", {})]),
    "C24": D("proof", "how often each ambient source is consulted on each path", [(FULL, "e_c24_.*", {}), (FULL, "e_c08_.*", {})]),
    "C25": D("proof", "no symbol that stands for a secret occurs in what Debug writes, in either style", [(FULL, "e_c25_.*", U)]),
    "C26": D("proof", "no symbol that stands for a secret occurs in the abstract output, and two requests that differ in the secrets only yield the same output apart from the signature", [(FULL, "e_c26_.*", {}), (FULL, "e_c01_oauth_.*", {})]),
    "C27": D("proof", "every string of the converted value, as a term, equals the one that entered in the same role", [(FULL, "e_c27_.*", U)]),
    "C28": D("proof", "the log of the calls received by a serde serializer equals a struct of exactly the two fields", [(FULL, "e_c28_.*", U)]),
    "C29": D("proof", "the result for every sequence of up to three fields a deserializer can offer, in every order, the unknown one included", [(FULL, "e_c29_.*", U)]),
    "C34": D("proof", "the recording, as terms, equals the calls the recorder received", [(FULL, "e_c34_.*", U)]),
    "C36": D("proof", "a writer or value that may fail at any of its calls: no path on which one failed returns normally", [(FULL, "e_c36_.*", dict(unroll=60))]),
    "C38": D("proof", "every misuse panics on every path, with debug assertions on; no valid use does", [(FULL, "e_c38_.*", {})]),
    "C44": D("proof", "the abstract output of the clone equals that of the original for the same further calls, from a state reached by any calls before, and neither affects the other", [(FULL, "e_c44_.*", U)]),
    "C35": D("proof", EQ + "; the loop over request parameters is joined into an invariant", [(FULL, "e_c35_.*", {})]),
}

PLAN["C30"] = D("translation_validation", "for each program of the family, the calls its expansion makes on a serializer equal the specification, for all values of the fields and every presence of the optional ones: the parameters in ascending order of their names, each of the eight OAuth parameters once at its place, then end",
                [("derived", "e_c30_.*", dict(unroll=60))], technique="static analysis: translation validation of the derive macro by abstract interpretation of the expansion's MIR")
PLAN["C31"] = D("translation_validation", "for each program of the family (every combination of field attributes, in each order and grouping), the calls its expansion makes on a serializer equal the documented meaning of the attributes, for all values of the fields, every presence of the optional ones and every answer of the predicates",
                [("derived", "e_c31_.*", dict(unroll=60))], technique="static analysis: translation validation of the derive macro by abstract interpretation of the expansion's MIR")
PLAN["C32"] = D("other", "each program of the family type-checks against the library: raw identifiers, names that collide with those of the derived code and with the prelude, generics, every attribute, four editions, renamed and re-exported crates, no_std, no prelude, lints denied",
                [], rules=[rules.derive_accepts], technique="static analysis: compile-pass witnesses")
PLAN["C33"] = D("other", "each program of the family is a compile error of its own, while the control programs type-check: wrong shapes, unknown, malformed and repeated attributes, names that are not URI-safe, duplicate names",
                [], rules=[rules.derive_rejects], technique="static analysis: compile-fail witnesses")

ALL = []
for _d in PLAN.values():
    for _e in _d["entries"]["quick"]:
        if _e not in ALL and _e[0] == FULL and "c38" not in _e[1] and "c08" not in _e[1]:
            ALL.append(_e)
PLAN["C39"] = D("proof", "no path of any witness ends in a panic, with overflow checks and debug assertions on (quick) and off (thorough): every assertion, unwrap, index and slice bound is discharged on every path; and no path goes round a loop leaving everything the loop depends on as it was",
                ALL + [("derived", "e_c3[01]_.*", dict(unroll=60))])

PLAN["C45"] = D("other", "each program that relies on one of these facts type-checks against the library", [], rules=[rules.type_level], technique="static analysis: compile-pass witnesses (auto traits, variance, constness, trait impls)")

NOCLOCK = "(?!e_c08|e_c21|e_c23)"
PLAN["C46"] = D("proof", "the witnesses of the other properties hold, on the MIR of builds without std and without alloc; and every combination of features type-checks with the API that belongs to it",
                [(c, NOCLOCK + "(?:%s)" % e, o) for c in ("nostd", "min") for _, e, o in ALL if not e.startswith(("e_c21", "e_c23"))] + [(c, "e_c46_.*", U) for c in ("nostd", "min")], rules=[rules.feature_matrix])
PLAN["C46"]["every"] = True

PLAN["C47"] = D("proof", "the witnesses of the other properties hold on the MIR of a build without debug assertions and overflow checks, just as they do with them", [("fast", e, o) for _, e, o in ALL])
PLAN["C47"]["every"] = True

PLAN["C37"] = D("proof", "at every unsafe call and pointer cast of the repository that a path of a witness reaches, the contract holds on that path: the bytes are valid UTF-8, the index is in bounds, the types are transparent wrappers; debug assertions off, so that nothing depends on them",
                [("fast", e, o) for _, e, o in ALL], rules=[rules.unsafe_sites])

PLAN["C48"] = D("proof", "no path of the call graph, from any function of the repository the witnesses instantiate, leads to a function of the standard library or libc that deals with the environment, files, sockets, streams, processes or threads; panics, the generator and the caller's own code apart",
                [], rules=[rules.effects], technique="static analysis: effect analysis over the call graph of the monomorphic MIR")

NA = {
    "C41": "the numeric results of SHA-1, HMAC and RSA are computed by third-party crates over unbounded runtime data; nothing in this repository's source decides them",
    "C42": "a probability over runtime randomness has no static witness",
    "C43": "execution time is not a property of the source or its intermediate representation",
}
