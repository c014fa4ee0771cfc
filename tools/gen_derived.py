#!/usr/bin/env python3
"""Writes witness/src/derived.rs: a family of structs that derive Request, with what each must serialize."""
import itertools, random, os
R = random.Random(5849)
out = []
w = out.append
w('''//! Written by tools/gen_derived.py: derived requests and what they must feed to a serializer.
use crate::derive_values::*;
use crate::p::*;
use crate::requests::feeds;
use oauth1_request as oauth;
''')
N = [0]

# (encoded, fmt, opt, rename, skip, skip_if)
OPTS = ["none", "implicit", "true", "true_plain", "false"]


class F:
    def __init__(self, ident, eff=None, encoded=0, fmt=0, opt="none", rename=None, skip=0, skip_if=0, split=0, raw=0):
        self.__dict__.update(locals())
        self.eff = rename or ident

    def decl(self):
        a = []
        if self.encoded:
            a.append("encoded")
        if self.fmt:
            if self.fmt == 2:
                a.append("fmt = %s" % ("<DV>::fmt_by" if self.kind() == "dv" else "crate::derive_values::fmt_%s" % self.kind()))
            else:
                a.append("fmt = fmt_%s" % self.kind())
        if self.opt.startswith("true"):
            a.append("option = true")
        if self.opt == "false" or self.opt == "noneoff":
            a.append("option = false")
        if self.rename:
            a.append('rename = "%s"' % self.rename)
        if self.skip:
            a.append("skip")
        if self.skip_if:
            if self.skip_if == 2:
                a.append("skip_if = %s" % ("DV::skip_by::<u8>" if self.kind() == "dv" else "crate::derive_values::skip_%s" % self.kind()))
            else:
                a.append("skip_if = skip_%s" % self.kind())
        R.shuffle(a)
        s = ""
        if a and self.split:
            s = "".join("    #[oauth1(%s)]\n" % x for x in a)
        elif a:
            s = "    #[oauth1(%s)]\n" % ", ".join(a)
        return s + "    %s%s: %s,\n" % ("r#" if self.raw else "", self.ident, self.ty())

    def ty(self):
        return {"none": "DV", "noneoff": "DV", "implicit": "Option<DV>", "true": "Opt<DV>", "true_plain": "Option<DV>", "false": "Option<DV>" if self.fmt else "shadow::Opt2"}[self.opt]

    def inner(self):
        return self.ty() if self.opt == "false" else "DV"

    def kind(self):
        return "dv" if self.inner() == "DV" else "opt" if self.fmt else "opt2"


def struct(prop, fields, attr=""):
    N[0] += 1
    n = N[0]
    w("pub fn e_%s_derived_%d() {" % (prop.lower(), n))
    w("    #[derive(oauth::Request)]\n%s    struct R {\n%s    }" % (attr, "".join("    " + l + "\n" for f in fields for l in f.decl().splitlines())))
    for i, f in enumerate(fields):
        w("    let v%d = DV::fresh(%s);" % (i, "true" if f.skip_if else "false"))
        if f.opt in ("implicit", "true", "true_plain") or (f.opt == "false" and f.fmt):
            w("    let o%d = if nd() { Some(v%d) } else { None };" % (i, i))
        elif f.opt == "false":
            w("    let o%d = shadow::Option(v%d);" % (i, i))
        else:
            w("    let o%d = v%d;" % (i, i))
    w("    let r = R { %s };" % ", ".join("%s%s: o%d" % ("r#" if f.raw else "", f.ident, i) for i, f in enumerate(fields)))
    parts = []
    for i, f in sorted(((i, f) for i, f in enumerate(fields) if not f.skip), key=lambda x: x[1].eff.encode()):
        sep = "~" if f.encoded else "="
        val = "v%d.s()" % i
        if f.opt == "false" and f.fmt:
            val = "opt_s(&o%d)" % i
        if f.fmt:
            val = 'cat(&["F(", %s, ")"])' % val
        s = 'cat(&["|%s%s", %s])' % (f.eff, sep, val)
        conds = []
        if f.opt in ("implicit", "true", "true_plain"):
            conds.append("o%d.is_some()" % i)
        if f.skip_if:
            conds.append(("!skip_opt(&o%d)" if f.opt == "false" and f.fmt else "!v%d.skip") % i)
        if conds:
            s = 'if %s { %s } else { "" }' % (" && ".join(conds), s)
        parts.append(s)
    w("    let want = cat(&[%s]);" % ",\n        ".join(parts) if parts else '    let want = "";')
    w('    feeds("%s", &r, want);' % prop)
    w("}\n")


# C31: every combination of attributes, between two plain fields.
for e, f, o, rn, sk, si in itertools.product((0, 1), (0, 1), OPTS, (0, 1), (0, 1), (0, 1)):
    x = F("mid", encoded=e, fmt=f * R.choice((1, 1, 2)), opt=o, rename="oauth_z" if rn else None, skip=sk, skip_if=si * R.choice((1, 1, 2)), split=R.random() < .3)
    fs = [F("after"), x, F("zz", encoded=R.random() < .3)]
    R.shuffle(fs)
    struct("C31", fs)
# Two attributed fields next to each other.
for _ in range(40):
    fs = []
    for nm in R.sample(["aa", "b", "ab", "zz", "z", "mid", "y2", "type", "oauth_w"], 3):
        fs.append(F(nm, encoded=R.random() < .4, fmt=R.choice((0, 1, 2)), opt=R.choice(["none", "none"] + OPTS + ["noneoff"]),
                    rename=R.choice((None, None, "r." + nm, nm.upper(), "oauth_" + nm)), skip=R.random() < .15, skip_if=R.choice((0, 0, 1, 2)), split=R.random() < .5, raw=nm == "type"))
    struct("C31", fs)

# C30: names before, between, equal to and after the OAuth parameters.
OA = ["oauth_callback", "oauth_consumer_key", "oauth_nonce", "oauth_signature_method", "oauth_timestamp", "oauth_token", "oauth_verifier", "oauth_version"]
uni = ["a", "A", "aA", "Aa", "a1", "a_", "_a", "__", "Z", "z", "zz", "oauth", "oauth_", "oauth_a", "oauth_z", "oauth__", "oauth1", "oauthz", "OAUTH_TOKEN", "Oauth_token", "n", "o", "p", "oauti", "oaut"]
for x in OA:
    uni += [x, x + "_", x + "a", x + "0", x[:-1], x[:-1] + chr(ord(x[-1]) - 1), x[:-1] + chr(ord(x[-1]) + 1), x[:8], x.replace("_", "z"), x[:6] + x[6].upper() + x[7:]]
uni = sorted({u for u in uni if u.replace("_", "a").isalnum()})
ren = ["0", "9a", "-", ".", "~", "a-b", "a.b", "a~", "oauth-token", "oauth.token", "oauth~", "oauth_token-", "oauth_token.x", "oauth_token~", "oauth_version~", "oauth_version.0", "oauth_callback-", "~oauth", "type", "self", "Self", "crate", "-oauth_token", "%s" % ("x" * 40), "oauth_token_secret", "oauth_body_hash"]
allnames = uni + ren
for nm in allnames:
    struct("C30", [F("x", rename=nm) if nm in ren or R.random() < .3 else F(nm)])


def named(nm, i, **k):
    if nm in ren or R.random() < .25:
        return F("f%d" % i, rename=nm, **k)
    return F(nm, **k)


for size in [2] * 12 + [3] * 12 + [5] * 8 + [9] * 6 + [16] * 3 + [30]:
    names = R.sample(allnames, size)
    fs = [named(nm, i, opt="implicit" if (R.random() < .3 and i < 3) else "none", skip=R.random() < .1, skip_if=1 if R.random() < .15 and i < 2 else 0, encoded=R.random() < .2) for i, nm in enumerate(names)]
    struct("C30", fs)
struct("C30", [named(nm, i) for i, nm in enumerate(R.sample(allnames, len(allnames)))])
# All gaps at once, in each direction.
gaps = sorted(OA + [x + "_" for x in OA] + ["a", "zz"])
struct("C30", [F(x) for x in gaps])
struct("C30", [F(x) for x in reversed(gaps)])
struct("C30", [])
# A skipped field may have the name of another one, and any name.
struct("C30", [F("b"), F("a", skip=1), F("c", rename="a"), F("d", rename="oauth_token")])
struct("C30", [F("a", skip=1)])
# Renames that swap.
struct("C30", [F("a", rename="b"), F("b", rename="a"), F("oauth_token", rename="z"), F("z", rename="oauth_token")])

open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../witness/src/derived.rs"), "w").write("\n".join(out))
print(N[0])
