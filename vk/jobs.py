"""Which symbolic jobs decide which property."""
SETS = ["512", "768", "1024"]

PATTERNS = "for each job one accept/reject path through the rejection sampler (pattern and seed fixed); all byte values on that path are symbolic; hashes are arbitrary functions"
COMMON_ASSUME = ["Keccak-f[1600] (dependency crate keccak) is modelled as an arbitrary function: equal inputs give equal outputs", "LLVM IR of the overflow-checked build (debug assertions on) is what is executed; the release profile differs only in those checks"]
TRUST_SPEC = ["spec.rs: transcription of FIPS 203 (validated against the native code by the replay program)"]


def job(check, s, pattern="natural", seed=1, pkg="mlkem", flavour="dbg", cost=1, args=None, **kw):
    return dict(check=check, set=s, pattern=pattern, seed=seed, pkg=pkg, flavour=flavour, cost=cost, args=args or [], **kw)


def j_keygen(t, seed, safety=False):
    a = ["--safety", "1"] if safety else []
    return a


def sets3(check, pats, seed, cost=1, **kw):
    return [job(check, s, p, seed, cost=cost * (1 + SETS.index(s)), **kw) for s in SETS for p in pats]


def jobs(prop, tier, seed):
    th = tier == "thorough"
    f = globals()[f"jobs_{prop}"]
    out = f(th, seed)
    for j in out:
        # several times what the job takes on the unchanged tree
        j.setdefault("timeout", {"dhkem": 90, "xwing": 300, "mlkem": 450}[j["pkg"]] * (10 if th else 1))
    return out


def many(check, th, seed, cost=1, quick=("natural", "mix"), deep=12, **kw):
    out = sets3(check, quick, seed, cost, **kw)
    if th:
        out += sets3(check, ["accept", "half"], seed, cost, **kw)
        for k in range(1, deep):
            out += sets3(check, ["natural", "mix"], seed + 1000 * k, cost, **kw)
    return out


def jobs_C01(th, seed):
    return many("keygen", th, seed, 2)


def jobs_C02(th, seed):
    return many("encaps", th, seed, 2)


def jobs_C03(th, seed):
    return many("decaps", th, seed, 3)


def jobs_C04(th, seed):
    return many("reject", th, seed, 3, quick=("natural",))


def jobs_C05(th, seed):
    out = []
    for c in ("agreep", "agree", "agree2"):
        out += many(c, th, seed, 3, quick=("natural",), deep=4)
    return out


def jobs_C06(th, seed):
    return sets3("ekrt", ["natural"], seed) + ([j for k in range(1, 5) for j in sets3("ekrt", ["natural"], seed + k)] if th else [])


def jobs_C07(th, seed):
    return sets3("dkrt", ["natural"], seed) + ([j for k in range(1, 5) for j in sets3("dkrt", ["natural"], seed + k)] if th else [])


def jobs_C08(th, seed):
    out = []
    for c in ("keygen", "encaps", "decaps", "ekrt", "dkrt", "genrng", "encrng", "eqek", "eqdk", "wipe"):
        pats = ["mix"] if c in ("keygen", "encaps", "decaps", "genrng", "encrng") else ["natural"]
        if th:
            pats = ["natural", "mix", "half", "accept"]
        out += sets3(c, pats, seed + 500, 2, args=["--safety", "1"])
    return out


def jobs_C09(th, seed):
    return many("genrng", th, seed, 2, quick=("natural",), deep=4) + many("encrng", th, seed, 2, quick=("natural",), deep=4)


def jobs_C10(th, seed):
    out = []
    n = 40 if th else 3
    for k in range(n):
        out += sets3("keygen", ["mix"], seed + 100 * k + 7, 2)
    out += sets3("keygen", ["half"], seed, 2)
    for k in range(20 if th else 1):
        out += sets3("encaps", ["mix"], seed + 100 * k + 57, 2)
    return out


def jobs_C11(th, seed):
    return sets3("wipe", ["natural"], seed) + ([j for k in range(1, 5) for j in sets3("wipe", ["natural"], seed + k)] if th else [])


def jobs_C12(th, seed):
    return sets3("eqek", ["natural"], seed) + sets3("eqdk", ["natural"], seed) + ([j for k in range(1, 5) for j in sets3("eqek", ["natural"], seed + k) + sets3("eqdk", ["natural"], seed + k)] if th else [])


def jobs_C13(th, seed):
    out = []
    for k in range(6 if th else 1):
        out += sets3("ctdec", ["real"], seed + 1000 * k, 3, flavour="rel")
        out += sets3("ctenc", ["real"], seed + 1000 * k, 2, flavour="rel")
        out += sets3("ctgen", ["accept"], seed + 1000 * k, 2, flavour="rel")
    return out


def xj(check, pats, seed, cost=1, **kw):
    return [job(check, "768", p, seed, pkg="xwing", cost=cost, **kw) for p in pats]


def xmany(check, th, seed, cost=2, quick=("natural", "mix"), deep=8, **kw):
    out = xj(check, quick, seed, cost, **kw)
    if th:
        out += xj(check, ["accept", "half"], seed, cost, **kw)
        for k in range(1, deep):
            out += xj(check, ["natural", "mix"], seed + 1000 * k, cost, **kw)
    return out


def jobs_C14(th, seed):
    return xmany("xkeygen", th, seed) + xmany("xgenrng", th, seed)


def jobs_C15(th, seed):
    return xmany("xencaps", th, seed)


def jobs_C16(th, seed):
    return xmany("xdecaps", th, seed)


def jobs_C17(th, seed):
    return xmany("xrt", th, seed, quick=("natural",), deep=4) + xmany("xeqek", th, seed, quick=("natural",), deep=4) + xmany("xeqct", th, seed, quick=("natural",), deep=4)


def jobs_C18(th, seed):
    return xmany("xagree", th, seed, quick=("natural", "mix"), deep=4) + xmany("xagree2", th, seed, quick=("natural", "mix"), deep=4)


def jobs_C19(th, seed):
    return xmany("xwipe", th, seed, quick=("natural",), deep=4)


def jobs_C20(th, seed):
    out = []
    for c in ("xkeygen", "xgenrng", "xencaps", "xdecaps", "xrt", "xeqek", "xeqct", "xwipe"):
        pats = ["mix"] if c in ("xkeygen", "xgenrng", "xencaps", "xdecaps") else ["natural"]
        if th:
            pats = ["natural", "mix", "half", "accept"]
        out += xj(c, pats, seed + 500, 2, args=["--safety", "1"])
    return out


GROUPS = ["x25519", "k256", "p256", "p384", "p521"]


def dj(checks, groups, th, seed, **kw):
    return [job(c, g, "natural", seed + 1000 * k, pkg="dhkem", **kw) for k in range(5 if th else 1) for c in checks for g in groups]


def jobs_C21(th, seed):
    return dj(["dagree"], GROUPS, th, seed)


def jobs_C22(th, seed):
    return dj(["dfull", "dpair"], GROUPS, th, seed)


def jobs_C23(th, seed):
    return dj(["dpoint"], GROUPS[1:], th, seed) + dj(["dwrap"], GROUPS[:1], th, seed)


def jobs_C26(th, seed):
    h = ["--havoc", "1"]
    return (many("seqdk", th, seed, 3, quick=("natural",), deep=4, args=h) + many("seqek", th, seed, 3, quick=("natural",), deep=4, args=h)
            + xmany("xseqdk", th, seed, 3, quick=("natural",), deep=4, args=h) + xmany("xseqek", th, seed, 2, quick=("natural",), deep=4, args=h)
            + dj(["dfull"], GROUPS, th, seed, args=h))


def jobs_C27(th, seed):
    out = []
    for k in range(6 if th else 1):
        for c, pat in (("ctxgen", "accept"), ("ctxenc", "real"), ("ctxdec", "accept")):
            out += xj(c, [pat], seed + 1000 * k, 2, flavour="rel")
    return out


B_ALL = "none on values: every input byte is symbolic and all loops are unrolled to their actual trip counts, fixed by the parameter set"
B_XOF = "all values of all inputs; " + PATTERNS


def bounds(prop, tier, seed):
    return PROPS[prop]["bounds"]


def P(level, explain, bounds, assume=(), trusted=(), native=True, concrete=True):
    return dict(level=level, explain=explain, bounds=bounds, assume=COMMON_ASSUME[: 1 if explain.startswith("Relational") else 2] + list(assume), trusted=list(trusted), native=native, concrete=concrete)


X_ASSUME = ["X25519 scalar multiplication (crate curve25519-dalek) is an arbitrary function of the clamped scalar and the 255-bit coordinate with X25519(a, X25519(b, 9)) = X25519(b, X25519(a, 9)); comparison of coordinates modulo 2^255-19 is an arbitrary reflexive symmetric relation"]
TRUST_X = TRUST_SPEC + ["spec.rs: transcription of draft-connolly-cfrg-xwing-kem-06"]
D_ASSUME = ["scalar multiplication on each curve (crates k256, p256, p384, p521, curve25519-dalek) is an arbitrary function of scalar and point with [a]([b]G) = [b]([a]G); points are represented by their canonical coordinates", "the first candidate scalar drawn is in range and non-zero (the redraw loop of the curve crates is outside the bound)"]
B_D = "all values of the 512-byte generator stream and of peer keys; histories of one key generation and up to three encapsulations with their decapsulations; first scalar candidates accepted"
PATH = ["the accept/reject outcome of every 12-bit candidate of the public-matrix XOF is fixed per job; other outcomes are covered by other jobs (patterns, seeds)"]
PROPS = {
    "C01": P("other", "Symbolic execution of generate_deterministic and of FIPS 203 KeyGen over the same symbolic d, z; every output byte proved equal.", B_XOF, PATH, TRUST_SPEC),
    "C02": P("other", "Symbolic execution of key parsing + encapsulate_deterministic and of FIPS 203 Encaps over symbolic key bytes and message; every output byte proved equal.", B_XOF, PATH, TRUST_SPEC),
    "C03": P("other", "Symbolic execution of key parsing + decapsulate and of FIPS 203 Decaps over symbolic key and ciphertext bytes; every output byte proved equal.", B_XOF, PATH, TRUST_SPEC),
    "C04": P("other", "Decapsulation over symbolic key and ciphertext: each output byte is a selection between the accepted key and SHAKE256(z||c) by one condition, and that condition is proved equivalent to equality of all ciphertext bytes, position by position.", B_XOF, PATH, TRUST_SPEC),
    "C05": P("other", "Symbolic execution of key generation (or parsing), encapsulation and decapsulation in sequence, under the assumption that each decoded noise coefficient yields its message bit; both shared keys proved equal.", B_XOF, PATH + ["no decryption failure: each coefficient of the decrypted polynomial compresses to its message bit"], TRUST_SPEC),
    "C06": P("proof", "Parse + re-encode of an encapsulation key over all symbolic bytes compared with coefficient-wise reduction.", B_ALL, (), TRUST_SPEC),
    "C07": P("proof", "Parse + re-encode of a decapsulation key over all symbolic bytes compared with coefficient-wise reduction; embedded encapsulation key extracted and compared.", B_ALL, (), TRUST_SPEC),
    "C08": P("other", "All entry points executed symbolically with overflow checks and debug assertions compiled in: each panic branch, memory access and unreachable/UB marker is an obligation.", B_XOF, PATH),
    "C09": P("other", "RNG-driven entry points over a symbolic RNG byte stream: number of bytes drawn, and results equal to the specification on exactly those bytes.", B_XOF, PATH, TRUST_SPEC),
    "C10": P("other", "Key generation and encapsulation with symbolic XOF output along many accept/reject paths (long rejection runs, rejections across block boundaries); matrix entries proved equal to the first 256 accepted candidates.", B_XOF, PATH, TRUST_SPEC),
    "C11": P("proof", "Two keys with the same public part and independent symbolic secrets are dropped; the remaining memory is proved identical.", B_ALL),
    "C12": P("proof", "PartialEq over two fully symbolic keys; result proved equivalent to equality of the re-encodings, byte by byte.", B_ALL, (), TRUST_SPEC),
    "C13": P("other", "Relational (two-copy) symbolic execution of the optimised IR of key generation, encapsulation and decapsulation: every condition with two possible outcomes, operand of a division by a variable, symbolic address and comparison result must be a function of public data; where secrets occur in it, the solver is asked for two assignments that differ in secrets only and disagree.", B_XOF, PATH + ["public: encapsulation key, its hash, ciphertext, and the matrix XOF output; secret: every other input and everything derived from it", "LLVM IR after the release optimisation pipeline is what is judged, before instruction selection; division by a constant is a multiplication", "lookups in constant tables of at most 128 bytes (the noise tables) are allowed"], native=False),
    "C14": P("other", "Symbolic execution of X-Wing key derivation and generation over a symbolic seed / RNG stream and of the X-Wing specification; every output byte and the number of drawn bytes proved equal.", B_XOF, PATH + X_ASSUME, TRUST_X),
    "C15": P("other", "Symbolic execution of X-Wing key parsing and encapsulation over symbolic key bytes and RNG stream and of the specification; every output byte and the number of drawn bytes proved equal.", B_XOF, PATH + X_ASSUME, TRUST_X),
    "C16": P("other", "Symbolic execution of X-Wing decapsulation over a symbolic secret and ciphertext and of the specification (implicit rejection included); every output byte proved equal.", B_XOF, PATH + X_ASSUME, TRUST_X),
    "C17": P("proof", "Parse + re-encode of X-Wing ciphertexts, encapsulation keys and secrets over all symbolic bytes; PartialEq over two symbolic values proved equivalent to equality byte by byte (and of the X25519 coordinates).", B_ALL, X_ASSUME, TRUST_X),
    "C18": P("other", "Symbolic execution of X-Wing key generation, encapsulation and decapsulation in sequence over a symbolic RNG stream, with and without re-encoding in between, excluding ML-KEM decryption failure; both secrets proved equal.", B_XOF, PATH + X_ASSUME + ["no ML-KEM decryption failure: each coefficient of the decrypted polynomial compresses to its message bit"], TRUST_X),
    "C19": P("proof", "Two X-Wing secrets (or ciphertexts) with independent symbolic contents are dropped or zeroized; the remaining memory is proved identical.", B_ALL),
    "C20": P("other", "All X-Wing entry points executed symbolically with overflow checks and debug assertions compiled in: each panic branch, memory access and unreachable/UB marker is an obligation.", B_XOF, PATH + X_ASSUME),
    "C21": P("other", "Symbolic execution of key generation, encapsulation (once, and three times in a row) and decapsulation for all five groups over a symbolic generator stream; sender's and receiver's secrets proved equal.", B_D, D_ASSUME, ["dh.rs: stand-ins for the curve operations"], concrete=False),
    "C22": P("other", "Symbolic execution of key generation, encapsulation and decapsulation for all five groups over a symbolic generator stream and peer key; keys, encapsulated keys, secrets and bytes drawn proved equal to those of the directly applied group operations.", B_D, D_ASSUME, ["dh.rs: stand-ins for the curve operations"], concrete=False),
    "C23": P("other", "Wrapper conversions, comparisons, point encodings and zeroization executed symbolically over arbitrary wrapped values; results proved equal to those on the wrapped value, memory after zeroize proved independent of it.", "all wrapped values ([u8; 32] for conversion and zeroization, [u8; 4] for ordering, X25519 keys for equality, points of the four curves for encodings)", D_ASSUME, ["dh.rs: stand-ins for the curve operations"], concrete=False),
    "C26": P("other", "A key (and its clone) used two or three times in one symbolic execution, with every writable static of the compiled code holding an arbitrary value at the start; each result proved equal to that of the specification on that call's own inputs, and the key's encoding after use to that before.", "all values of all inputs and of all writable statics; histories of three operations on a key and its clone; " + PATTERNS, PATH + X_ASSUME + D_ASSUME, TRUST_X, concrete=False),
    "C27": P("other", "Relational (two-copy) symbolic execution of the optimised IR of X-Wing key generation, encapsulation and decapsulation with the combined secret key, the drawn randomness and everything derived from them secret: every condition with two possible outcomes, operand of a division by a variable, symbolic address and comparison result must be a function of public data; where secrets occur in it, the solver is asked for two assignments that differ in secrets only and disagree.", B_XOF, PATH + X_ASSUME + ["public: encapsulation key, ciphertext, and the matrix XOF output; secret: every other input and everything derived from it", "LLVM IR after the release optimisation pipeline is what is judged, before instruction selection; curve25519-dalek's own scalar multiplication is outside"], native=False),
}
