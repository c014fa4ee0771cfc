#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
R = "oauth1-request/src/"
A = R + "serializer/auth.rs"; U = R + "serializer/urlencode.rs"; REC = R + "serializer/recorder.rs"
B = R + "lib.rs"; PE = R + "util/percent_encoding.rs"; SM = R + "signature_method.rs"
DC = R + "signature_method/digest_common.rs"; H = R + "signature_method/hmac_sha1.rs"
PT = R + "signature_method/plaintext.rs"; RS = R + "signature_method/rsa_sha1.rs"
RS6 = R + "signature_method/rsa_sha1_06.rs"; RS9 = R + "signature_method/rsa_sha1_09.rs"
EI = R + "signature_method/either.rs"; RQ = R + "request.rs"; PL = R + "request/parameter_list.rs"
OP = R + "util/oauth_parameter.rs"; UT = R + "util.rs"; SER = R + "serializer.rs"
C = "oauth-credentials/src/lib.rs"; CS = "oauth-credentials/src/serde_imp.rs"
D = "oauth1-request-derive/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

p("C01", "Parameter values are percent-encoded exactly once, exactly as RFC 5849 says",
  "In every string the library produces, each byte of a raw parameter value (or OAuth protocol parameter value) that is not an RFC 3986 unreserved character appears as '%' and two upper-case hex digits, and each unreserved byte appears as itself. Values supplied as already encoded appear verbatim. Nothing is encoded twice or left unencoded in the output, however many pieces the value's Display writes.",
  ["inputs"], "all values (any UTF-8, any length), written in any number of chunks; form, query and Authorization header outputs",
  "The tests encode a handful of fixed strings; the set of bytes x positions x Display chunkings is unbounded.",
  [PE, U, A], [("PercentEncode", PE), ("percent_encode/RESERVED", PE), ("serialize_parameter", U), ("append_to_header!", A)],
  ["output string of form/query/header serializers"])
p("C02", "Values enter the signature base string percent-encoded exactly twice",
  "The value half of each parameter in the signature base string is exactly the percent-encoding of the percent-encoding of the raw value (once more for a value supplied as already encoded), for every value and however its Display splits its output. The one-pass double encoder never drops, repeats or reorders a byte and never writes anything else.",
  ["inputs"], "all raw and pre-encoded values, all chunkings, all 256 byte values at all positions relative to runs of unreserved bytes",
  "Unit tests check the two 256-entry tables and a few strings; run splitting (first byte, last byte, runs, adjacent reserved bytes, chunk borders) is sampled, not covered.",
  [PE, A, DC], [("DoublePercentEncode", PE), ("double_encode_byte/ENCODE table", PE), ("should_percent_encode/ENCODE_MAP", PE)],
  ["arguments passed to the signature method"])
p("C03", "The digest signature methods hash exactly METHOD&enc(URI)&params",
  "HMAC-SHA1 and RSA-SHA1 hash exactly the RFC 5849 signature base string: the request method, '&', the percent-encoded base URI, '&', then every parameter as key, '%3D', value, separated by '%26' - no byte more, fewer or in another order, with no leading or trailing delimiter.",
  ["inputs", "histories"], "all methods, URIs, credentials, options and any sequence of parameters",
  "Existing tests compare a few whole signatures; a base-string defect that appears only for some sequence (e.g. a first parameter, an empty list) is not enumerated.",
  [A, DC, H, RS, SM], [("UpdateSign", DC), ("make_sign", A), ("sign_delimiter", A), ("Sign default methods", SM)],
  ["byte stream fed to the MAC/hash"])
p("C04", "Exactly the parameters that are sent are signed",
  "Every OAuth protocol parameter written to the Authorization header, form or query is fed to the signature with the same key and the correspondingly encoded value, in the same order, and nothing else is signed apart from the request's own parameters; oauth_signature is written once, last, and is never signed.",
  ["inputs", "histories", "configurations"], "all option combinations, tokens present or absent, signature methods that do or do not use nonce/timestamp, any interleaving with request parameters",
  "A mismatch between what is signed and what is sent needs a particular option combination; tests exercise two or three.",
  [A, SM], [("append_to_header!", A), ("Serializer for Authorizer", A), ("Sign::callback..version", SM)],
  ["header/form/query output vs. calls made to the signature method"])
p("C05", "Authorized form/query output carries all request and OAuth parameters",
  "An authorizing form or query serialization contains every parameter of the request together with the OAuth protocol parameters, in the order serialized, followed by oauth_signature - so that a server recomputing the signature from what it received sees the same parameter set.",
  ["inputs", "histories"], "every request (any number of parameters, raw or encoded), every option combination, with and without caller-supplied buffers",
  "No test calls the authorizing form/query entry points with a non-empty request at all.",
  [A, U, B], [("Data::Urlencode", A), ("Authorizer::serialize_parameter", A), ("Urlencoder", U)],
  ["return value of to_form/to_query/into_form/into_query (+_with_buf)"])
p("C06", "The Authorization header is well formed and ends with the signature",
  "An Authorization header value is exactly 'OAuth ', then key=\"value\" pairs each followed by a comma, then oauth_signature=\"...\" last and without trailing comma; the request's own parameters never appear in it.",
  ["inputs", "histories"], "all requests, options, credentials and signature methods",
  "Tests compare a few complete headers; empty requests, absent tokens or unusual option sets give other shapes.",
  [A], [("authorization_with_buf", A), ("append_to_header_encoded", A), ("end", A)], ["header string"])
p("C07", "Form and query delimiters are placed exactly between parameters",
  "A form string has '&' exactly between consecutive parameters and none at either end; a query serialization leaves the URI untouched and appends '?' before the first parameter and '&' before each later one, and appends nothing if there is no parameter.",
  ["inputs", "histories"], "any sequence of zero or more parameters, raw or encoded, authorizing or not",
  "The first/second/later-parameter states interact with skipped parameters and with which method serialized them; tests sample a few sequences.",
  [U, A], [("Append state machine", U)], ["output string"])
p("C08", "Each optional OAuth parameter is present exactly when it should be",
  "oauth_consumer_key and oauth_signature_method are always present; oauth_callback, oauth_token and oauth_verifier exactly when they were supplied, with the supplied value; oauth_version=\"1.0\" exactly when enabled; oauth_nonce and oauth_timestamp exactly when the signature method uses them, with the supplied value if there is one. The same holds of what is signed.",
  ["inputs", "configurations"], "all 2^7 combinations of supplied options, token presence and signature-method answers, over all values",
  "Tests use two or three option combinations.",
  [A, SM], [("serialize_oauth_*", A), ("Options", A), ("use_nonce/use_timestamp", SM)], ["output and signature input"])
p("C09", "A signature method is driven by the documented call protocol",
  "For each authorization the signature method is instantiated once with the client secret and (if any) the token secret, fed the request method once and then the percent-encoded URI once, then parameters with exactly one delimiter between consecutive ones, and finally ended exactly once.",
  ["histories", "inputs"], "any sequence of serializer calls, any user-defined signature method",
  "A user-defined signature method sees call orders that the built-in ones tolerate; no test observes the protocol.",
  [A, SM], [("make_sign", A), ("sign_delimiter", A), ("end", A)], ["calls received by a SignatureMethod/Sign implementation"])
p("C10", "Every Request feeds all eight OAuth parameters once, in key order, and ends once",
  "Every Request the library provides (unit, Option, references, sorted iterators, parameter lists) feeds a serializer each of its own parameters exactly once and unchanged, each of the eight OAuth protocol parameters exactly once in alphabetical order at the position their name has among the request's keys, then ends the serializer exactly once and returns its result.",
  ["inputs", "histories"], "every request of any size with any sorted keys, every serializer",
  "Interleaving depends on how each key compares with eight names; tests use a few keys.",
  [RQ, PL, UT, OP, SER], [("AssertSorted::serialize", RQ), ("OAuthParameter::next/partial_cmp/serialize", OP), ("serialize_oauth_parameters", SER)],
  ["calls received by a Serializer implementation"])
p("C11", "A ParameterList is sorted at all times",
  "However a parameter list is created or modified through its public interface (new, from, collect, extend, default, from_sorted), the list it serializes is in the order RFC 5849 requires, contains exactly the supplied pairs, and from_sorted returns a list if and only if the given one is already in that order.",
  ["inputs", "histories"], "all lists, all sequences of constructions and extensions",
  "Whether every mutator re-sorts and every adjacent pair is compared is a property of all lists and all operation sequences.",
  [PL], [("ParameterList::{new,from_sorted,from,from_iter,extend,default}", PL), ("sort", PL), ("is_sorted_by", PL)], ["ParameterList contents/serialization"])
p("C12", "Parameters are ordered by key and then by percent-encoded value",
  "The order used for parameter lists compares keys by bytes and, for equal keys, the percent-encoded values by bytes (RFC 5849 section 3.4.1.3.2); it does not depend on how the values' Display splits its output.",
  ["inputs"], "all pairs of (key, value) pairs",
  "Raw and encoded orders agree on most values and differ only where a reserved byte meets an unreserved one; tests never compare such a pair.",
  [PL], [("cmp", PL)], ["order of ParameterList"])
p("C13", "The signing key is enc(client secret) & enc(token secret)",
  "HMAC-SHA1 and PLAINTEXT key material is exactly the percent-encoded client secret, '&', and the percent-encoded token secret, where the '&' is present and the second half empty when there is no token secret; the two secrets are never swapped, dropped or taken from identifiers.",
  ["inputs"], "all secrets, present or absent token",
  "Tests use two fixed secrets made of unreserved characters, for which encoding is the identity.",
  [SM, H, PT, A, B], [("write_signing_key", SM), ("make_sign", A)], ["key given to the MAC; PLAINTEXT signature"])
p("C14", "HMAC keys of every length and chunking are handled as RFC 2104 requires",
  "The MAC computed by HMAC-SHA1 equals the HMAC keyed with the complete signing key for every key length and however the key arrives in pieces: up to the block size the key is used as is, beyond it its SHA-1 digest is used, and no byte is lost at the boundary.",
  ["inputs"], "all key lengths and all chunkings of the key",
  "The unit test feeds one-byte chunks only; the boundary depends on the sum of chunk lengths.",
  [H], [("SigningKey::write/into_hmac", H)], ["HMAC key"])
p("C15", "Signatures are emitted as URL-encoded text",
  "Every built-in signature method yields the URL-encoded form of its signature - base64 (standard alphabet, padded) of the MAC or RSA signature, or the signing key for PLAINTEXT - so that the value in the header, form or query contains only unreserved characters and '%XX' triplets and decodes to the exact signature.",
  ["inputs"], "all keys, secrets and base strings",
  "The output of a hash is arbitrary; each of '+', '/', '=' and '&' has to be encoded, which fixed examples only sample. PLAINTEXT output is never checked by a test.",
  [DC, H, RS, PT], [("Base64PercentEncodeDisplay", DC), ("Sign::Signature", SM)], ["oauth_signature value"])
p("C16", "Each built-in signature method implements its standard algorithm and name",
  "HMAC-SHA1, RSA-SHA1 and PLAINTEXT announce exactly those names, both in the output and in what they sign; HMAC-SHA1 is HMAC over SHA-1 of the base string, RSA-SHA1 is RSASSA-PKCS1-v1_5 over its SHA-1 with the configured private key, in both supported rsa versions, whether the key is owned or borrowed; RSA-SHA1 does not depend on the shared secrets.",
  ["inputs", "configurations"], "all inputs; all signature methods and feature selections",
  "The rsa-0.6 and rsa-0.9 variants share one test vector each; the owned-key path and independence of the secrets are not tested.",
  [H, RS, RS6, RS9, PT], [("Sign impls", RS), ("new_pkcs1v15_sign", RS6), ("new_pkcs1v15_sign", RS9)], ["announced name; bytes hashed; primitive called"])
p("C17", "Either behaves exactly like the signature method it holds",
  "An Either of two signature methods behaves in every respect like the one it holds: construction and every method, including each optional method the inner type overrides, are forwarded to it with the same arguments, and its result is returned.",
  ["inputs", "programs"], "both variants, every method of the signing interface, user-defined inner signature methods",
  "Only an inner type overriding a particular optional method can observe a missing delegation; no test has one.",
  [EI], [("delegate!", EI)], ["calls received by the inner signature method"])
p("C18", "Verb shorthands use exactly their own HTTP verb",
  "Each verb shorthand (get, put, post, delete, options, head, connect, patch, trace and the _form/_query ones; methods and free functions) is the general authorization with exactly that upper-case verb as request method and all other arguments unchanged.",
  ["inputs"], "all shorthands, all arguments",
  "Only two or three of the 31 shorthands are ever called in a test.",
  [B], [("builder_authorize_shorthand! etc.", B), ("authorize_shorthand!", B)], ["request method fed to the signature"])
p("C19", "All authorization entry points agree with one another",
  "Borrowing and consuming variants, with and without buffer, and the free functions all authorize the same request in the same way: the given method, URI, client and token credentials, options and signature method are the ones used, and the request is serialized once; a Builder is unchanged by use and can authorize again.",
  ["inputs", "histories"], "all entry points, all arguments, repeated use of one builder",
  "There are 14 general entry points; most are not called by tests, and agreement is relational.",
  [B, A], [("Builder::{authorize,to_form,to_query,into_*,*_with_buf}", B), ("authorize", B), ("Authorizer constructors", A)], ["returned strings; signature input"])
p("C20", "Output is appended to the caller's buffer or URI, which is otherwise preserved",
  "The variants that take a buffer, and the query variants that take the URI, only ever append to it in order and hand that same writer back; they never clear, replace or reorder what is there, and what is appended does not depend on what it already contains.",
  ["inputs", "histories"], "all writers and initial contents",
  "Tests pass empty buffers.",
  [A, U, B], [("authorization_with_buf/form_with_buf/query", A), ("Urlencoder::query/form_with_buf", U)], ["writes on the caller's writer"])
p("C21", "Option setters set exactly the option they name",
  "Each setter of Builder and of the authorization options changes exactly the option it names; the last call wins, None unsets, and no other option, credential or token is affected. A Builder created with a token uses exactly that client and token; a fresh Builder has no token and no option set.",
  ["inputs", "histories"], "any sequence of setter calls with any values, before any authorization",
  "The number of call sequences is unbounded; tests set nonce, timestamp, version and callback once each.",
  [B, A, UT], [("options!/impl_setters!", UT), ("Builder setters", B), ("with_token", B)], ["authorization produced afterwards"])
p("C22", "A default nonce is fresh, unpredictable and needs no encoding",
  "When no nonce is supplied, each authorization draws a nonce from a cryptographic generator at that time: at least 64 fresh random bits rendered with unreserved characters only, at most 12 characters, and the same nonce is sent and signed. No part of it is cached or shared between authorizations.",
  ["inputs", "histories"], "all random byte strings (including leading zeros and all zero), repeated authorizations",
  "Randomness hides rare values (leading zero bytes) from tests, and freshness is about histories.",
  [A], [("gen_nonce", A), ("get_rng", A), ("serialize_oauth_nonce", A)], ["oauth_nonce"])
p("C23", "A default timestamp is the current UNIX time in seconds",
  "When no timestamp is supplied, each authorization reads the system clock once at that time and sends and signs the whole seconds since the UNIX epoch (1 when the clock is before the epoch); a supplied timestamp is used unchanged without reading the clock.",
  ["inputs", "configurations"], "all clock values, supplied or not",
  "Tests fix the timestamp; the default path is not asserted on.",
  [A], [("get_current_timestamp", A), ("serialize_oauth_timestamp", A)], ["oauth_timestamp"])
p("C24", "With nonce and timestamp given, authorization is deterministic",
  "If nonce and timestamp are supplied, or not used by the signature method, the output depends only on the arguments: no random number generator, clock or other ambient state is consulted. Plain form/query serialization never consults any.",
  ["inputs", "configurations", "programs"], "all calls through every entry point",
  "Absence of an effect on all paths cannot be observed from a few runs.",
  [A, B, U], [("serialize_oauth_nonce/timestamp", A)], ["calls to RNG and clock"])
p("C25", "Debug output never reveals secrets",
  "Formatting any public type of the library with Debug (credentials, tokens, builders, authorizers, signature methods and their signing states) never includes a shared secret, a signing key or private key material.",
  ["inputs"], "all secrets, all public types that hold them directly or indirectly, both Debug styles",
  "One test formats one Credentials value; composite types are not formatted.",
  [C, B, A, PT, H, RS], [("Debug for Credentials", C), ("derived Debug of holders", A)], ["Debug output"])
p("C26", "Secrets reach nothing but the signing key",
  "Shared secrets are used for nothing but the signing key: apart from a PLAINTEXT signature value, no output, signature input, comparison or other externally visible effect depends on them.",
  ["inputs"], "all secrets and all entry points",
  "Non-interference quantifies over pairs of runs.",
  [A, B, SM, C], [("make_sign", A)], ["all outputs"])
p("C27", "Credential and token conversions keep every string in its role",
  "Every constructor, accessor, conversion and map of credentials and tokens keeps identifiers, secrets, client and token parts in their own roles: nothing is swapped, dropped, duplicated or altered, and each mapping function is applied once to each string it should be applied to and to no other.",
  ["inputs"], "all contents and all mapping functions, every conversion",
  "Swaps are invisible when a test uses similar strings or only reads back one part.",
  [C], [("Credentials::{new,as_ref,map,from}", C), ("Token::{new,from_parts,client,token,as_ref,map*,from_ref,from}", C)], ["field values"])
p("C28", "Credentials serialize as exactly oauth_token and oauth_token_secret",
  "Serializing credentials emits a structure with exactly two fields, oauth_token with the identifier and then oauth_token_secret with the secret, and reports every serializer error.",
  ["inputs", "fault_sequences"], "all contents, every serde serializer, an error at any point",
  "The doc tests use one format and no failing serializer.",
  [CS], [("Serialize for Credentials", CS)], ["calls received by a serde Serializer"])
p("C29", "Deserializing credentials is strict on its two fields and tolerant of others",
  "Deserializing succeeds exactly when oauth_token and oauth_token_secret each occur once, in any order among any number of other fields, which are ignored; each value lands in its own role; duplicates, missing fields and format errors are reported as errors, naming the field. Keys match whether given as text or bytes.",
  ["inputs", "fault_sequences"], "all sequences of fields of any length, errors at any point",
  "The number of field sequences is unbounded; tests have a few.",
  [CS], [("Visitor::visit_map", CS), ("Field visitor", CS)], ["deserialization result"])
p("C30", "Derived requests are sorted and interleaved at compile time",
  "A derived Request serializes its parameters in ascending byte order of their effective names, whatever the declaration order, with each of the eight OAuth parameters exactly once at its alphabetical position, and ends the serializer once.",
  ["programs", "inputs"], "all structs: any field order and names (including names around and between the OAuth ones), renamed, skipped or optional fields",
  "The macro's input space is all structs; tests derive a handful.",
  [D + "lib.rs", D + "method_body.rs", D + "util/oauth_parameter.rs"], [("sort of fields", D + "lib.rs"), ("MethodBody", D + "method_body.rs")],
  ["calls received by a Serializer implementation"])
p("C31", "Derive attributes mean what the documentation says",
  "encoded, fmt, option (implicit, true and false), rename, skip and skip_if each have their documented effect, alone and in combination: an absent optional, a skipped or a skip_if-matching field emits nothing; every other field emits exactly its effective name once and its value through Display or the given function, percent-encoded unless marked encoded.",
  ["programs", "inputs"], "all combinations of attributes, all field values",
  "The combinations multiply; tests cover a few of them with one value each.",
  [D + "method_body.rs", D + "method_body/helper.rs", D + "field.rs", D + "meta.rs"], [("MethodBody::to_tokens", D + "method_body.rs"), ("FmtHelper/SkipIfHelper", D + "method_body/helper.rs")],
  ["calls received by a Serializer implementation"])
p("C32", "Every valid request struct can be derived",
  "The derive macro accepts every struct it documents as supported - raw identifiers, generics and lifetimes, attribute values that a macro passes on, user types, traits, modules and functions that shadow prelude names or have the names of the macro's local variables, a renamed or re-exported library crate, no_std - and the generated code compiles, without warnings and without naming anything but the library and core. (Reserved are the names `_S` of a type parameter and `_oauth1_request` of an item, and constants with the lower-case names of the macro's local variables.)",
  ["programs"], "all well-formed structs with named fields and valid attributes",
  "Hygiene and name resolution failures appear only in particular user programs.",
  [D + "lib.rs", D + "field.rs", D + "method_body.rs"], [("Field::new", D + "field.rs"), ("mixed_site hygiene", D + "method_body.rs")],
  ["whether a deriving program compiles"])
p("C33", "Invalid derive input is rejected at compile time",
  "Deriving on anything but a struct with named fields, an unknown, malformed or repeated attribute, a parameter name that is not URI-safe, or two serialized fields with the same effective name is a compile error; in particular no derived request can emit a key that is not URI-safe or a key twice.",
  ["programs"], "all invalid inputs of those kinds",
  "The UI tests pin a fixed set of messages; other spellings and combinations are not tried.",
  [D + "lib.rs", D + "meta.rs", D + "field.rs", D + "ctxt.rs"], [("duplicate check", D + "lib.rs"), ("UriSafe::from_expr", D + "meta.rs"), ("add_meta", D + "meta.rs")],
  ["whether a deriving program compiles"])
p("C34", "The recorder records exactly what it was fed",
  "The recording serializer returns exactly the sequence of operations it was fed, each of the right kind with the key and displayed value it was given; two records are equal exactly when they are of the same kind and, if they carry them, keys and displayed values are equal.",
  ["inputs", "histories"], "any operation sequence, all pairs of records",
  "Kinds x pairs and unbounded histories; tests compare a few.",
  [REC], [("Serializer for Recorder", REC), ("PartialEq for Record", REC)], ["history"])
p("C35", "Plain form/query serialization contains only the request's own parameters",
  "Serializing a request to a form or query without authorization contains exactly the request's parameters, in order and encoded, and never any OAuth protocol parameter or secret; to_query appends to the given URI.",
  ["inputs", "histories"], "all requests",
  "Tests serialize a few small requests.",
  [U, SER, B], [("skip_serialize_oauth_parameters!", SER), ("to_form/to_query", B)], ["output string"])
p("C36", "Errors from the caller's writer or values are never swallowed",
  "If the caller's writer, or the Display of a value or URI, reports an error, no authorization or serialization returns normally as though it had been written: no truncated header, form, query, key or signature is ever returned.",
  ["fault_sequences", "inputs"], "an error at any write, on any path",
  "Tests only write to String, which never fails.",
  [A, U, DC, H, PT, PE], [("unwrap on each write", A), ("? in adapters", PE)], ["result after a failed write"])
p("C37", "Unsafe code is never given data that breaks its contract",
  "Every unsafe operation's precondition holds on every call: bytes passed to the unchecked UTF-8 conversion are ASCII (runs of unreserved bytes or table entries within bounds), and the reference cast between the RSA key and its wrapper is between types of guaranteed identical layout and lifetime.",
  ["inputs"], "all strings, all bytes; all reachable call sites",
  "Undefined behaviour is not observable by assertion on outputs, and depends on byte positions within unbounded input.",
  [PE, RS], [("from_utf8_unchecked", PE), ("#[repr(transparent)] cast", RS)], ["arguments of unsafe operations"])
p("C38", "Misuse is caught in debug builds, and only misuse",
  "In debug builds an authorization panics if the base URI contains '?' anywhere, however its Display splits it, and if a parameter is serialized with a key smaller than the previous one; it never panics on keys in order (repeats allowed) or on a URI without '?'.",
  ["inputs", "histories", "configurations"], "all URIs and chunkings, all key sequences",
  "One misordering is tested; '?' detection is not.",
  [A], [("AssertNotContainQuestion", A), ("check_dictionary_order", A)], ["panics"])
p("C39", "No panic and no endless loop on valid input",
  "With a writer and values that do not fail, keys in order, a URI without '?', and a clock and generator that work, no authorization or serialization panics: no index, slice, arithmetic-overflow or unwrap failure is reachable, for any lengths and contents. Nor does any go on for ever: every loop makes progress on every iteration.",
  ["inputs"], "all inputs meeting the documented preconditions, debug and release arithmetic",
  "Panic freedom quantifies over all lengths and byte values.",
  [A, U, PE, H, DC, RQ, PL, PT], [("slice indexing", H), ("ENCODE[b*5..]", PE), ("unwrap", A)], ["absence of panics"])
p("C40", "The example server rejects requests whose signature does not verify",
  "The bundled example server accepts a request only if the OAuth parameters are present and well-formed, the client and token are the known ones, and the signature equals the one computed for what was received; any mismatch leads to an error response, for every signature method it supports.",
  ["inputs"], "all requests",
  "The examples have no tests; they are only type-checked.",
  ["examples/src/server/handler.rs", "examples/src/server/authorization.rs"], [("verify", "examples/src/server/handler.rs")], ["HTTP response"])
p("C41", "HMAC/RSA/SHA-1/base64 primitives are numerically correct",
  "The MAC, hash, RSA and base64 primitives produce the numerically correct result for every input.",
  ["inputs"], "all inputs", "Needs proofs about the arithmetic of third-party crates.",
  [H, RS], [("hmac, sha1, rsa, base64 crates", "dependencies")], ["signature bytes"])
p("C42", "Nonces do not collide in practice",
  "Two authorizations with the same client, token and timestamp have different nonces except with negligible probability.",
  ["histories"], "all pairs of authorizations", "A probabilistic statement about the generator.",
  [A], [("thread_rng/OsRng", A)], ["oauth_nonce"])
p("C43", "Signing time does not depend on secrets",
  "The time an authorization takes reveals nothing about the shared secrets beyond their encoded length.",
  ["inputs"], "all secrets", "Tests do not measure time.",
  [SM, H], [("write_signing_key", SM)], ["timing"])
p("C44", "A clone carries on exactly like its original",
  "Cloning a serializer, an unfinished signer, a signature method, a builder, a set of options, an AssertSorted request or a recorder at any point of its use gives an independent value: every further result obtained from the clone equals the one the original gives for the same calls, and using either leaves the other unchanged.",
  ["inputs", "histories"], "all cloneable values of the library, at any point between construction and the final call, all contents",
  "No test clones a value part-way; the state a Clone implementation drops or resets shows only after the copied point.",
  [A, U, H, DC, PT, RQ, REC, B], [("#[derive(Clone)]", A), ("Clone", REC), ("Clone", U)], ["output of the clone", "output of the original"])
p("C45", "The types keep their promises: threads, copies, constants, lifetimes",
  "The public types stay Send, Sync, Unpin and unwind-safe whenever what they hold is; small types stay Copy, and the documented Clone, Debug and Default implementations exist; constructors documented as const work in constants and statics; borrowed data may be shortened in lifetime (covariance) and results do not borrow from arguments they do not hold; and users can implement the extension traits (Request, Serializer, SignatureMethod, Sign), and use trait objects as values, URIs and writers.",
  ["inputs"], "all programs that rely on these type-level facts",
  "Auto traits, variance and constness are facts about every program that names the types; no test mentions most of them, and they vanish silently with a private field's type.",
  [B, A, U, SM, H, PT, RQ, PL, REC, C], [("struct fields", A), ("const fn new", H), ("blanket impls", RQ)], ["compilation of dependent programs"])
p("C46", "Every combination of features builds and behaves alike",
  "The library compiles under every combination of its cargo features, without std and without an allocator where these are off, each with the API its features promise; and what it computes (encoding, ordering, base string, signing protocol, form, query and header output, nonce generation) does not depend on which other features are on. Only the clock needs std: without it, a timestamp that is used must be supplied (asking for the current one panics), and everything else works unchanged.",
  ["inputs", "configurations"], "all 2^9 combinations of the cargo features; all inputs",
  "The test suite runs with all features on only; code under cfg(not(...)) is never compiled by it.",
  ["oauth1-request/Cargo.toml", A, B, SM, H, PT], [("cfg_if / cfg(feature)", A), ("features", "oauth1-request/Cargo.toml")], ["compilation", "output in each configuration"])
p("C47", "Release builds compute exactly what debug builds do",
  "Turning debug assertions and overflow checks off changes nothing about valid uses: every output, signature input, order, count of clock and generator reads and error of a release build is the one the debug build gives. Checks that exist in debug builds only have no effect other than a panic on misuse.",
  ["inputs", "configurations"], "all inputs meeting the documented preconditions; builds with and without debug assertions",
  "The test suite runs in one profile; an effect inside debug_assert! or a cfg(debug_assertions) block disappears in the other.",
  [A, PE, RQ, OP, UT], [("cfg(debug_assertions)", A), ("debug_assert!", PE), ("debug_assert!", OP)], ["output of a release build"])
p("C48", "Nothing but the clock, the generator and the caller's values is touched",
  "Creating credentials, building, authorizing, serializing and signing requests reads no environment variable, opens no file or socket, prints to no standard stream and starts no process or thread. The result depends on the arguments, the clock and the random number generator only; the only effects are those on the caller's buffers.",
  ["inputs", "environments"], "all calls of the public API, in any process environment",
  "A test that compares outputs does not see what else a call did, and runs in one environment only.",
  [A, PE, RQ, OP, UT, H, PT, "oauth-credentials/src/lib.rs"], [("gen_nonce / SystemTime::now", A), ("the whole crate", "oauth1-request/src/lib.rs")], ["process environment", "standard streams", "file system"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
