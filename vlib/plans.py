"""What each check runs."""
import json, os

from . import core, conf, tx
from .core import Stage

A_CRYPTO = "Ed25519 and BLAKE2b are taken as ideal: the specification knows keys and identities, not bytes"
A_LEDGER = "consumed outputs are outputs a ledger can contain (syntactically valid ones); resolving inputs, credits and rewards is the node's part"
A_BOUND = "TLC integers are 32 bit: slots up to 2^29, amounts and mana are arbitrary-precision"

TX = {  # property -> focuses of the random generator with weights
    "V01": [("V01", 4), ("V05", 1), ("V04", 1), ("V02", 1)],
    "V02": [("V02", 5), ("V07", 1), ("V12", 1)],
    "V03": [("V03", 5), ("V12", 1), ("V08", 1)],
    "V04": [("V04", 6), ("V06", 1), ("V13", 1)],
    "V05": [("V05", 5), ("V04", 1), ("V01", 1)],
    "V06": [("V06", 5), ("V12", 1), ("V13", 1)],
    "V07": [("V07", 5), ("V02", 1), ("V11", 1)],
    "V08": [("V08", 5), ("V11", 1), ("V03", 1)],
    "V09": [("V09", 6), ("V08", 1)],
    "V10": [("V10", 6), ("V03", 1)],
    "V11": [("V11", 5), ("V08", 1), ("V07", 1)],
    "V12": [("V12", 5), ("V06", 1), ("V02", 1)],
    "V13": [("V13", 5), ("V04", 1), ("V06", 1)],
    "S01": [("S01", 5), ("S04", 1), ("S02", 1)],
    "S02": [("S02", 5), ("V04", 1)],
    "S04": [("S04", 5), ("S01", 1)],
}

FAMILIES = {  # property -> families of CasesSyntax.tla
    "V01": "sdr sdr3 amounts", "V02": "tokens tokover scheme", "V03": "mana maxima", "V04": "unlock multi", "V05": "slots", "V06": "anchor chain", "V07": "counter",
    "V08": "issuer manalock", "V09": "stake", "V10": "deleg", "V11": "implicit", "V12": "caps", "V13": "sender", "S01": "limits self shape scheme maxima",
    "S02": "unlist", "S04": "deposit restricted return",
}

MANIFEST = {}
PLANS = {}
REPLAYS = {}
CONF = "TLA+ specification (TLC) with conformance checking of recorded executions"


def plan(prop, technique, level, note):
    def reg(f):
        PLANS[prop] = f
        MANIFEST[prop] = (technique, level, note)
        return f
    return reg


@plan("P01", CONF + "; small-scope cases enumerated by TLC", "model_checking",
      "TLC proves the laws of the specification for every small genesis, slot duration and epoch length and judges every answer of the real TimeProvider to the enumerated and to random queries over the full 32-bit and time range; random queries sample")
def p01(ctx):
    st = Stage("time: enumerated and random queries")
    cases = ctx.path("cases.ndjson")
    conf.model(ctx, st, "MC_Time", out=cases, constants=None if ctx.quick else dict(MaxGenesis=5, MaxDur=5, MaxExp=4, MaxSteps=60))
    for b in range(ctx.scale(1, 20)):
        q = ctx.path("t.ndjson")
        kw = {"in": cases} if b == 0 else {}
        ctx.harness("time", seed=ctx.seed * 100 + b, n=ctx.scale(40000, 60000), out=q, **kw)
        c = conf.judge(ctx, st, "TimeConform", q, params=q + ".params", sig=lambda rec, x: x)
        conf.require(st, c, ["slot", "epoch", "time before genesis", "time after genesis", "genesis slot", "parameters", "now"])
    ctx.stages.append(st)
    return "model_checking", ["the wall clock does not jump back during a query of the current slot"]


@plan("P02", CONF, "model_checking",
      "TLC checks the laws of decay and generation exhaustively in small scope and judges every answer of the real provider to random queries over random parameter sets and the full 64-bit ranges; the queries sample")
def p02(ctx):
    st = Stage("mana: laws in small scope")
    conf.model(ctx, st, "MC_Mana", constants=dict(MaxValue=8, MaxSlot=9) if ctx.quick else None)
    ctx.stages.append(st)
    st = Stage("mana: recorded queries")
    for b in range(ctx.scale(1, 30)):
        q = ctx.path("m.ndjson")
        ctx.harness("mana", seed=ctx.seed * 100 + b, n=ctx.scale(25000, 40000), out=q)
        c = conf.judge(ctx, st, "ManaConform", q, params=q + ".params")
        conf.require(st, c, [o + ":" + k for o in ("decayslots", "decayepochs", "generate") for k in ("same epoch", "next epoch", "within table", "beyond table", "target before origin")]
                     + ["generate:overflow", "generate:upper word", "reward:bootstrapping", "reward:after bootstrapping"])
    ctx.stages.append(st)
    return "model_checking", ["tables of decay factors do not increase; slots whose epoch ends beyond the 32-bit range are left out"]


@plan("P03", CONF + "; histories enumerated by TLC; linearizability by TLC of histories recorded under the race detector", "model_checking",
      "TLC enumerates all histories of three announcements over three versions and epochs and checks the laws of the state machine on them; the real provider replays them and longer random ones and every answer is judged by the specification; concurrent histories are recorded under the race detector and TLC searches an explaining order; schedules are those the Go scheduler produced")
def p03(ctx):
    st = Stage("versions: histories of announcements")
    cases = ctx.path("cases.ndjson")
    conf.model(ctx, st, "MC_Provider", out=cases)
    hashes, contents = {}, {}

    def collect(r):
        for h in r.lines("HASH"):
            c = json.dumps(sorted(h["c"]))
            if hashes.setdefault(h["h"], c) != c or contents.setdefault(c, h["h"]) != h["h"]:
                st.mismatch("VersionsAndProtocolParametersHash:not a function of the content", "%s / %s / %s" % (h, hashes[h["h"]], contents.get(c)), h)
    for b in range(ctx.scale(1, 12)):
        q = ctx.path("p.ndjson")
        kw = {"in": cases} if b == 0 else {}
        ctx.harness("prov", focus=ctx.scale("12000", ""), seed=ctx.seed * 100 + b, n=ctx.scale(4000, 20000), out=q, **kw)
        c = conf.judge(ctx, st, "ProviderConform", q, jvms=8, workers=1, after=collect,
                       sig=lambda rec, x: x.split("(")[0], what=lambda rec, x: "%s after %s" % (x, " ".join("%s(%s)" % (o["op"], ",".join(str(o[k]) for k in ("v", "x", "h"))) for o in rec["h"])))
        conf.require(st, c, ["add", "add fails", "commit", "commit fails", "committed version rises", "version in force without parameters", "future", "version"])
        if st.mismatches:
            break
    st.info["distinct_contents_hashed"] = len(contents)
    ctx.stages.append(st)

    st = Stage("versions: concurrent histories")
    for b in range(ctx.scale(1, 20)):
        q = ctx.path("c.ndjson")
        if not conf.race(ctx, st, "provconc", "concurrent use of the provider", seed=ctx.seed * 100 + b, n=2000, out=q):
            break
        r = ctx.tlc("ProviderLin", env={"VERIF_IN": q}).require_ok()
        st.add_tlc(r)
        recs = [json.loads(l) for l in open(q)]
        ok = {v["i"] for v in r.lines("LIN")}
        for k, rec in enumerate(recs):
            if k + 1 not in ok:
                st.mismatch("not linearizable", "no order of the operations explains %s" % json.dumps(rec), rec)
        st.traces += len(recs)
    ctx.stages.append(st)
    return "model_checking", ["BLAKE2b is collision free: hashes stand for their content", "all versions share the time parameters, and parameters of a version are not announced twice with different content"]


@plan("P04", "TLA+ model of hash trees and proofs checked by TLC; its trees, proofs and tampered proofs replayed on the real hasher, commitment roots and output proofs", "model_checking",
      "TLC proves completeness and soundness of proofs for every list over a small alphabet up to the bound under every one-step tampering, and every tree, proof and tampering is replayed on the real code; hashes are ideal terms in the model")
def p04(ctx):
    st = Stage("hash trees: all small lists, all positions, all one-step tamperings")
    for k, (cfg, con) in enumerate([("MC_Merkle", None if ctx.quick else dict(Letters=3, MaxLen=6)), ("MC_MerkleLong", None if ctx.quick else dict(MaxLen=300))]):
        cases, rep = ctx.path("cases%d.ndjson" % k), ctx.path("rep%d.ndjson" % k)
        conf.model(ctx, st, "MC_Merkle", cfg, out=cases, constants=con)
        ctx.harness("merkle", out=rep, **{"in": cases})
        conf.replayed(st, rep, ["output proof"] + (["roots of a commitment", "list of 0"] if k == 0 else ["list of 128"]))
    ctx.stages.append(st)
    return "model_checking", [A_CRYPTO, "a proof of an output does not bind its index (known finding), so soundness is that of membership"]


@plan("P05", CONF, "model_checking",
      "TLC recomputes work score, mana cost and their maximum from the counted parts for every recorded block under arbitrary costs, including those that overflow by one, and checks that no valid block exceeds the maximum; blocks are random samples")
def p05(ctx):
    st = Stage("work: recorded blocks under random costs")
    for b in range(ctx.scale(1, 25)):
        q = ctx.path("w.ndjson")
        ctx.harness("work", seed=ctx.seed * 100 + b, n=ctx.scale(4000, 10000), out=q)
        c = conf.judge(ctx, st, "WorkConform", q, params=q + ".params")
        conf.require(st, c, ["allot", "bi", "ctx", "data", "input", "nt", "output", "sig", "stake", "cand", "none", "tagged", "tx", "validation", "cost fits", "cost overflows",
                             "maximum work fits", "maximum work overflows", "work fits", "work overflows", "work exactly maximal", "valid with more token parts than outputs"])
        if st.mismatches:
            break
    ctx.stages.append(st)
    tx.random_tx(ctx, [("S01", 1), ("V08", 1), ("V02", 1)], ctx.scale(3000, 60000))
    return "model_checking", []


@plan("P06", CONF + "; option sequences enumerated by TLC and replayed on the real code; race detector on shared parameters", "model_checking",
      "TLC enumerates sequences of options around the bounds of every rule, checks that sane parameters keep what the rules are for, that decoding inverts encoding and that later options of a kind win, and the real code replays them; random options, fields, pairs differing in each single field are recorded and judged by the specification, derived values by the laws that define them; percentages are 1 to 99")
def p06(ctx):
    st = Stage("protocol parameters: option sequences, encodings and comparisons")
    cases = ctx.path("cases.ndjson")
    conf.model(ctx, st, "MC_Params", out=cases, constants=dict(MaxOpts=1) if ctx.quick else None)
    for b in range(ctx.scale(1, 20)):
        q = ctx.path("pp.ndjson")
        kw = {"in": cases} if b == 0 else {}
        ctx.harness("proto", seed=ctx.seed * 100 + b, n=ctx.scale(5000, 10000), out=q, **kw)
        c = conf.judge(ctx, st, "ParamsConform", q, params=q + ".params", what=lambda rec, x: "%s: %s" % (x, json.dumps(rec)[:1500]))
        conf.require(st, c, ["sane", "encode", "pair:same", "pair:different", "several violated"] + ["only:" + x for x in (
            "liveness bounds", "liveness before committable", "committable ages", "nearing threshold", "epoch length", "epoch exponent", "increase threshold", "threshold order",
            "pool coefficient", "validation blocks", "generation exponent", "reward overflow", "initial reward", "mana supply", "epochs sum")]
            + ["differs:" + x for x in ("Version", "NetworkName", "Bech32HRP", "DecayFactors", "ChainSwitchingThreshold", "TokenSupply", "MaxValidationBufferSize", "RetentionPeriod", "ActivationOffset", "OffsetDelegation", "SignatureEd25519")])
        if st.mismatches:
            break
    ctx.stages.append(st)
    st = Stage("protocol parameters: shared by goroutines")
    q = ctx.path("ppc.ndjson")
    if conf.race(ctx, st, "protoconc", "shared protocol parameters", seed=ctx.seed, n=ctx.scale(1500, 30000), out=q):
        conf.replayed(st, q, ["parameters shared"])
    ctx.stages.append(st)
    return "model_checking", ["ln of the annual decay factor to 8 digits: parameters within a ten-thousandth of the mana supply and decay sum bounds are not judged"]


@plan("P07", CONF + "; errors wrapped in every short way enumerated by TLC and replayed", "model_checking",
      "every refusal of a transaction by the ledger rules, over the enumerated families and random transactions, is reported as one of the reasons of the rules the specification finds broken; TLC enumerates the ways errors wrap each other up to three deep, checks the laws of the choice and the real code replays them; all 256 values of states and reasons and texts around the names; transactions and deeper errors sample")
def p07(ctx):
    st = Stage("reasons: errors, values and texts")
    cases = ctx.path("cases.ndjson")
    conf.model(ctx, st, "MC_Reasons", out=cases, constants=dict(MaxSteps=2) if ctx.quick else None)
    q = ctx.path("r.ndjson")
    ctx.harness("reasons", seed=ctx.seed, n=ctx.scale(8000, 100000), out=q, **{"in": cases})
    c = conf.judge(ctx, st, "ReasonsConform", q, sig=lambda rec, x: x, what=lambda rec, x: "%s: %s" % (x, json.dumps(rec)[:1200]))
    conf.require(st, c, ["err:bare", "err:generic", "err:wrapped", "value:block", "value:tx", "value:reason", "text:name", "text:none"])
    ctx.stages.append(st)
    if st.mismatches:
        return "model_checking", []
    fams = [f for p in sorted(FAMILIES) if p[0] == "V" for f in FAMILIES[p].split()]
    tx.enumerated(ctx, fams, ctx.scale(24000, 300000), 2)
    if not any(st.mismatches for st in ctx.stages):
        tx.random_tx(ctx, [("V%02d" % k, 1) for k in range(1, 14)], ctx.scale(16000, 300000))
    return "model_checking", [A_CRYPTO, A_LEDGER, A_BOUND]


def blocks(ctx, mine, name, n):
    """Enumerated and random blocks; mine: which disagreements belong to the property."""
    st = Stage(name)
    cases = ctx.path("bcases.ndjson")
    params = ctx.path("params.ndjson")
    ctx.harness("params", out=params)
    conf.model(ctx, st, "MC_Block", out=cases, env={"VERIF_PARAMS": params}, constants=None if ctx.quick else dict(Span=12))
    for b in range(ctx.scale(1, 20)):
        q = ctx.path("b.ndjson")
        kw = {"in": cases} if b == 0 else {}
        ctx.harness("blocks", seed=ctx.seed * 100 + b, n=n, out=q, **kw)
        c = conf.judge(ctx, st, "BlockConform", q, params=q + ".params", keep=lambda rec, d: [x for x in d if (x in OF_S05) != (mine == "S03")],
                       what=lambda rec, x: "%s: %s" % (x, json.dumps(rec)[:1500]))
        conf.require(st, c, ["valid basic", "valid validation", "valid tx", "valid tagged", "valid cand", "valid none", "S03:commitment input too recent"]
                     + ["only S03:" + x for x in ("version", "network", "parent count", "parents not sorted and unique", "weak parent is also another parent", "commitment too recent", "commitment too old",
                                                  "tagged data too long", "transaction from the future", "commitment input too old", "commitment input newer than commitment", "highest supported version too small")])
        if st.mismatches:
            break
    ctx.stages.append(st)


OF_S05 = {"size", "identifier", "attestation", "roundtrip", "JSON roundtrip"}


@plan("S03", CONF + "; blocks around every boundary enumerated by TLC", "model_checking",
      "TLC enumerates all blocks around every boundary of the rules for small parameter sets (windows including the end of the slot range, parents, versions, payloads), the real code decodes and encodes them and random others, and the specification judges every verdict")
def s03(ctx):
    blocks(ctx, "S03", "blocks: enumerated and random", ctx.scale(8000, 40000))
    return "model_checking", ["what a transaction needs to be valid on its own is property S01"]


@plan("S05", CONF, "model_checking",
      "the specification recomputes the size of transactions, outputs and blocks from their parts; every object is encoded and decoded (bytes and JSON) and byte strings near encodings (changed, moved, duplicated, reordered, truncated) are decoded: TLC judges each as the encoding of what it decodes to or as refused; random samples")
def s05(ctx):
    tx.random_tx(ctx, [("S05", 5), ("S01", 1), ("V02", 1)], ctx.scale(10000, 300000))
    blocks(ctx, "S05", "blocks: enumerated and random", ctx.scale(4000, 40000))
    st = Stage("byte strings near encodings")
    for b in range(ctx.scale(1, 25)):
        q = ctx.path("c.ndjson")
        ctx.harness("canon", seed=ctx.seed * 100 + b, n=ctx.scale(40000, 80000), out=q)
        c = conf.judge(ctx, st, "CanonConform", q, sig=lambda rec, x: x)
        conf.require(st, c, ["%s:%s" % (k, v) for k in ("tx", "output", "block", "attestation", "commitment") for v in ("original", "accepted", "accepted prefix", "refused")]
                     + ["mutation " + m for m in ("bit", "byte", "increment", "decrement", "insert", "delete", "truncate", "append", "swap", "duplicate", "zero", "reorder", "entries", "late")])
    ctx.stages.append(st)
    return "model_checking", [A_CRYPTO, "length prefixes that announce more than 1 MB are left out (the deserializer of the dependency allocates what they announce)"]


@plan("B05", "TLA+ specification of the text code and address grammar; its distance and laws checked by TLC, encodings and decodings of the real code judged by it", "model_checking",
      "TLC proves that words of the code differ in at least five places for the data part of an address (and round trips for payloads of every length) and judges every encoding, decoding and parse of addresses and of texts near encoded ones; texts sample")
def b05(ctx):
    st = Stage("code: distance and laws")
    conf.model(ctx, st, "MC_Distance", constants=None if ctx.quick else dict(Places=88))
    conf.model(ctx, st, "MC_Bech32", constants=None if ctx.quick else dict(Places=88, MaxBytes=60))
    ctx.stages.append(st)
    st = Stage("texts: recorded encodings and decodings")
    for b in range(ctx.scale(1, 25)):
        q = ctx.path("t.ndjson")
        ctx.harness("bech32", seed=ctx.seed * 100 + b, n=ctx.scale(24000, 60000), out=q)
        c = conf.judge(ctx, st, "Bech32Conform", q, sig=lambda rec, x: x, what=lambda rec, x: "%s: %s %r" % (x, rec["err"], bytes(rec["text"])))
        conf.require(st, c, ["enc:encodable", "enc:not encodable", "enc:length at the limit", "dec:", "dec:too long", "dec:no separator", "dec:no prefix", "dec:no checksum", "dec:character in prefix", "dec:mixed case",
                             "dec:character in data", "dec:checksum", "dec:padding", "parse:", "parse:empty", "parse:length", "parse:kind", "parse:nested kind", "parse:capabilities",
                             "mutation:replace", "mutation:unicode", "mutation:case"]
                     + ["addr:%d/-1" % k for k in (0, 8, 16, 24, 32, 40)] + ["addr:48/%d" % k for k in (0, 8, 16, 24, 40)])
        if st.mismatches:
            break
    ctx.stages.append(st)
    return "model_checking", ["replacing characters of the data part by the separator moves the data part; that such a text is refused rests on the checksum, not on the distance"]


@plan("B03", "TLA+ model of workers, discovery and cancellation; every interleaving checked by TLC for safety and termination, its situations replayed on the real miner, recorded runs judged by the specification; race detector on the same runs", "model_checking",
      "TLC proves for two and three workers that only satisfying nonces are returned, that an error has a reason and that mining ends and leaves nothing running under every interleaving; real runs (enumerated situations and random ones with up to 33 workers, concurrent calls, cancellation at random times) sample the schedules of the real scheduler")
def b03(ctx):
    st = Stage("mining: interleavings and real runs")
    cases = ctx.path("cases.ndjson")
    conf.model(ctx, st, "MC_Pow", out=cases)
    more = ctx.path("more.ndjson")
    conf.model(ctx, st, "MC_Pow", out=more, constants=dict(Workers=3, Nonces=2))
    if not ctx.quick:
        conf.model(ctx, st, "MC_Pow", constants=dict(Workers=3, Nonces=3))
        conf.model(ctx, st, "MC_Pow", constants=dict(Workers=4, Nonces=1))
    with open(cases, "a") as f:
        f.write(open(more).read())
    for b in range(ctx.scale(1, 12)):
        q = ctx.path("t.ndjson")
        ctx.harness("pow", seed=ctx.seed * 100 + b, n=ctx.scale(2500, 12000), out=q, **{"in": cases})
        c = conf.judge(ctx, st, "PowConform", q, sig=lambda rec, x: x)
        if st.mismatches:
            break
        conf.require(st, c, ["enumerated", "together", "zeros", "mine:never:nonce", "mine:during:nonce", "mine:during:error", "mine:during:hopeless:error", "mine:before:error", "mine:before:hopeless:error", "mine:never:impossible:error"])
    if not st.mismatches:
        conf.race(ctx, st, "pow", "mining", seed=ctx.seed, n=ctx.scale(300, 3000), out=ctx.path("race.ndjson"))
    ctx.stages.append(st)
    return "model_checking", ["the hash function is that of the library; prompt means within 30 s", "schedules of the real miner are those the Go scheduler happened to choose, under different numbers of processors"]


COPIED = ("AccountAddress AccountOutput AddressUnlockCondition Allotment AnchorAddress AnchorOutput BasicOutput BlockIssuanceCreditInput BlockIssuerFeature CommitmentInput DelegationOutput "
          "Ed25519Address Ed25519Signature ExpirationUnlockCondition FoundryOutput ImplicitAccountCreationAddress MetadataFeature MultiAddress MultiUnlock NFTAddress NFTOutput NativeTokenFeature "
          "ReferenceUnlock RestrictedAddress RewardInput SenderFeature SignatureUnlock SignedTransaction SimpleTokenScheme StakingFeature TagFeature TaggedData TimelockUnlockCondition Transaction UTXOInput").split()


@plan("B04", "TLA+ specification of signers, key derivation, key sets, address encodings and copies; its laws checked by TLC on small states which are replayed, and recorded random uses of the real code judged by it", "model_checking",
      "TLC enumerates every signer of two registrations and every history of four operations on a key set, all replayed; random signers, key managers, signatures over mutated contents, copies, comparisons and address bytes are judged record by record; random uses sample")
def b04(ctx):
    st = Stage("keys: enumerated and random uses")
    cases = ctx.path("cases.ndjson")
    conf.model(ctx, st, "MC_Keys", out=cases, constants=None if ctx.quick else dict(MaxOps=5, IKeys=4))
    for b in range(ctx.scale(1, 20)):
        q = ctx.path("t.ndjson")
        ctx.harness("keys", seed=ctx.seed * 100 + b, n=ctx.scale(6000, 24000), out=q, **({"in": cases} if b == 0 else {}))
        c = conf.judge(ctx, st, "KeysConform", q, sig=lambda rec, x: x)
        conf.require(st, c, ["account", "mnemonic", "mnemonic:invalid", "keybytes", "ikeys", "txsign:ok", "txsign:refused", "signer from keys", "signer:ed", "signer:imp", "signer:res", "signer:-1", "signer:-2", "signer:-3",
                             "derive:mnemonic", "derive:seed", "derive:random", "derive:seed not derivable"]
                     + ["%s:content%d,signature%d" % (w, i, j) for w in ("block", "attestation") for i in (0, 1) for j in (0, 1)] + ["attestation:content1,signature1,empty key", "block:content1,signature1,empty key"]
                     + ["bytes:%d:%s" % (k, y) for k in (0, 8, 16, 24, 32, 40, 48) for y in ("yes", "no")]
                     + ["copy:" + x for x in COPIED] + ["equal:%s:%d" % (x, y) for x in ("AccountOutput", "BasicOutput", "NFTOutput", "AnchorOutput", "DelegationOutput", "FoundryOutput", "MetadataFeature", "TagFeature") for y in (0, 1)])
        if st.mismatches:
            break
    ctx.stages.append(st)
    return "model_checking", [A_CRYPTO, "the derivation function of a path is that of the dependency (SLIP-10); equality of derived keys is judged, not their values"]

@plan("B01", "TLA+ specification of the transaction builder on top of the ledger's rules; its laws (the unlocks found are accepted, mana is conserved and bound mana stays) checked by TLC in small scope, whose cases and random ones are replayed on the real builder and judged by it", "model_checking",
      "every list of inputs and every sequence of mana operations up to the bound, over tables of outputs, owners and amounts, longer ones sampled by TLC's simulation; random transactions with random operations")
def b01(ctx):
    st = Stage("transaction builder: enumerated, simulated and random uses")
    ctx.build()
    seen = set()
    for b in range(ctx.scale(3, 24)):
        cases, q = ctx.path("c%d.ndjson" % b), ctx.path("b%d.ndjson" % b)
        arg = {}
        if b == 0:
            conf.model(ctx, st, "MC_TxBuilder", out=cases, constants=None if ctx.quick else dict(MaxIns=3, MaxOps=2))
            arg = {"in": cases}
        elif b % 2 == 1:
            conf.model(ctx, st, "MC_TxBuilder", out=cases, constants=dict(MaxIns=6, MaxOps=5, Whole="TRUE"), workers=4,
                       extra=["-simulate", "num=%d" % ctx.scale(40, 600), "-depth", "7", "-seed", str(ctx.seed * 100 + b)])
            arg = {"in": cases}
        ctx.harness("txbuild", seed=ctx.seed * 100 + b, n=ctx.scale(6000, 24000), out=q, **arg)
        c = conf.judge(ctx, st, "TxBuilderConform", q, sig=lambda rec, x: x,
                       what=lambda rec, x: "%s: %s after %s%s" % (rec["kind"], x, " ".join("%s(%s,%s,%s)" % (o["m"], o["acc"], o["mana"], o["idx"]) for o in rec["ops"]), " cloned at %d" % rec["clone"] if rec["clone"] >= 0 else ""))
        seen |= set(c)
        if st.mismatches:
            break
    conf.require(st, seen, ["op " + o for o in ("all", "bound", "store", "min", "cost", "left", "allot")] + ["op %s failed" % o for o in ("all", "store", "min")]
                 + ["unlock " + u for u in ("sig", "ref", "acc", "nft", "anc", "none")] + ["target " + t for t in ("ed", "imp", "multi", "restr", "acc", "nft", "anc")]
                 + ["builds", "build fails", "no available mana", "bound mana", "account just created", "implicit account", "cloned", "claimants"])
    ctx.stages.append(st)
    return "model_checking", [A_CRYPTO, "values handed to a builder are not altered afterwards; outputs have the conditions their kind needs"]


@plan("B02", "TLA+ specification of the builders of outputs and blocks; its laws checked by TLC on all short call sequences, which are replayed on the real builders with random longer ones, and what they built is judged by it", "model_checking",
      "every sequence of calls up to the bound with two values per setter, from a new, a plain and a full previous output; longer sequences with more values are sampled by TLC's simulation")
def b02(ctx):
    st = Stage("builders: enumerated and simulated call sequences")
    seen = set()
    for b in range(ctx.scale(2, 24)):
        cases, q = ctx.path("c%d.ndjson" % b), ctx.path("b%d.ndjson" % b)
        if b == 0:
            conf.model(ctx, st, "MC_Builder", out=cases, constants=None if ctx.quick else dict(MaxCalls=3))
        else:
            conf.model(ctx, st, "MC_Builder", out=cases, constants=dict(MaxCalls=12, Wide="TRUE"), workers=4,
                       extra=["-simulate", "num=%d" % ctx.scale(60, 1000), "-depth", "14", "-seed", str(ctx.seed * 100 + b)])
        ctx.harness("build", n=12, out=q, **{"in": cases})
        c = conf.judge(ctx, st, "BuilderConform", q, sig=lambda rec, x: x,
                       what=lambda rec, x: "%s after %s" % (x, " ".join("%s%s%s" % (y["p"], y["m"], y["a"]) for y in rec["calls"][:rec["n"]])))
        seen |= set(c)
        if st.mismatches:
            break
    conf.require(st, seen, ["basic:new", "basic:previous", "nft:previous", "account:previous", "account:previous:fails", "anchor:previous", "anchor:previous:fails", "foundry:previous", "delegation:previous",
                            "basicblock:new", "basicblock:new:fails", "validationblock:new", "validationblock:new:fails", "basicblock.Sign", "basicblock.CalculateAndSetMaxBurnedMana", "validationblock.Sign", "account.BIRemoveKey", "account.STEndEpoch", "account.RemoveFeature"])
    ctx.stages.append(st)
    return "model_checking", [A_CRYPTO, "handles of a transition are used before its builder is built; values passed to a builder are not altered afterwards"]


@plan("B06", "TLA+ specification of the node clients as coroutines of requests and replies (the whole HTTP surface, paging, lookups of outputs, block issuance); its laws checked by TLC over every short exchange with a node that replies anything, each exchange replayed on the real clients and judged by it", "model_checking",
      "every exchange of up to four replies from an alphabet of statuses, bodies, pages, outputs and proofs; longer ones are sampled by TLC's simulation; values inside well-formed bodies are sampled")
def b06(ctx):
    st = Stage("node clients against scripted nodes")
    seen = set()

    def sig(rec, x):
        l = rec["rs"][-1] if rec["rs"] else {}
        if x.endswith("panic") and rec["at"].endswith("serializer/v2/serix") and l.get("b") in ("null", "wrong"):
            return "serix:panics on JSON of another shape"
        if x.endswith("accepted what is no answer") and l.get("alt") == "index":
            return "proof moved to another index of its transaction"
        if x == "init: panic" and ("no api available for parameters with version 4" in rec["why"] or "could not find a protocol version for epoch 0" in rec["why"]) and ("a9" in l["items"] or "x" in "".join(l["items"])):
            return "init:announced versions that cannot be used crash New"
        return "%s:%s %s%s" % (x, l.get("st"), l.get("b"), l.get("alt") and " " + l["alt"] or "")

    def what(rec, x):
        return "%s after %s" % (x, " / ".join("%s %s%s%s" % (y["st"], y["b"], y["items"] or "", y["cursor"] and " ->" + y["cursor"]) for y in rec["rs"]))
    for b in range(ctx.scale(2, 12)):
        cases, q = ctx.path("c%d.ndjson" % b), ctx.path("b%d.ndjson" % b)
        if b == 0:
            conf.model(ctx, st, "MC_Client", out=cases)
        elif b == 1 and not ctx.quick:
            conf.model(ctx, st, "MC_Client", out=cases, constants=dict(MaxReplies=3, Wide="TRUE"))
        else:
            conf.model(ctx, st, "MC_Client", out=cases, constants=dict(MaxReplies=ctx.scale(8, 12), Wide="TRUE", Long="TRUE"), workers=4,
                       extra=["-simulate", "num=%d" % ctx.scale(100, 2500), "-depth", "14", "-seed", str(ctx.seed * 100 + b)])
        ctx.harness("client", n=1, out=q, **{"in": cases})
        seen |= set(conf.judge(ctx, st, "ClientConform", q, sig=sig, what=what))
        if conf.fresh(ctx, st):
            break
    conf.require(st, seen, ["Info ok", "Info error", "Congestion ok", "Validators ok", "Committee ok", "SubmitBlock ok", "AddPeer ok", "OutputByID ok", "OutputByID error", "OutputByID moved proof",
                            "TransactionByID ok", "validators ok", "validators error", "pages.basic ok", "pages.nft error", "single.account ok", "single.foundry error", "plugin.Indexer ok", "issue.payload ok", "issue.builder ok",
                            "issue.builder error", "init ok", "init error", "via both", "reply 503 html", "reply 204 empty", "reply 200 hang", "reply 200 dead"])
    ctx.stages.append(st)
    return "model_checking", [A_CRYPTO, "the node's replies arrive through net/http"]


@plan("B07", "TLA+ specification of event subscriptions (topics, routing, messages under way, consumers, end of the context); its laws checked by TLC over every short history, each history played to the real client through a scripted broker and judged by it", "model_checking",
      "every history of up to six (thorough: seven) operations on two events; longer ones on all events are sampled by TLC's simulation; contents of messages are fixed samples")
def b07(ctx):
    st = Stage("event subscriptions against a scripted broker")
    seen = set()

    def what(rec, x):
        return "%s in %s" % (x, " ".join("%s(%s)" % (o["op"], ",".join(str(o[k]) for k in ("m", "cond", "arg", "s", "cls", "ans") if o[k] not in ("", 0, "ok"))) for o in rec.get("h", [])))
    for b in range(ctx.scale(2, 6)):
        cases, q = ctx.path("c%d.ndjson" % b), ctx.path("b%d.ndjson" % b)
        if b == 0:
            conf.model(ctx, st, "MC_Events", out=cases, constants=dict(MaxOps=ctx.scale(6, 7)))
        else:
            conf.model(ctx, st, "MC_Events", out=cases, constants=dict(MaxOps=ctx.scale(16, 12 + 4 * b), Methods='"all"', Clumsy="TRUE"), workers=4,
                       extra=["-simulate", "num=%d" % ctx.scale(60, 500), "-depth", "40", "-seed", str(ctx.seed * 100 + b)])
        ctx.harness("events", n=1, out=q, **{"in": cases})
        seen |= set(conf.judge(ctx, st, "EventsConform", q, sig=lambda rec, x: x.split("|")[0], what=what))
        if conf.fresh(ctx, st):
            break
    conf.require(st, seen, ["broker", "sub:ok", "sub:err", "sub:inactive", "pub:ok", "pub:reported", "pub:nobody", "recv:msg", "recv:nothing", "close:ok", "close:err", "cancel:ok", "connect:err", "disconnect:ok",
                            "event:OutputsWithMetadataByUnlockConditionAndAddress", "event:BlocksBasicWithTaggedDataByTag", "event:OutputsWithMetadataByNFTID", "event:TransactionMetadataByTransactionID"])
    ctx.stages.append(st)
    return "model_checking", ["the broker and its transport (MQTT over websockets) are replaced by a scripted one; the reporting of lost connections is not specified"]


def run(ctx):
    p = ctx.prop
    if p in PLANS:
        return PLANS[p](ctx)
    if p in TX:
        tx.enumerated(ctx, FAMILIES[p].split(), ctx.scale(12000, 300000), ctx.scale(2, 3))
        if not any(st.mismatches for st in ctx.stages):
            tx.random_tx(ctx, TX[p], ctx.scale(12000, 300000))
        return "model_checking", [A_CRYPTO, A_LEDGER, A_BOUND]
    raise core.CheckError("no check for " + p)


def replay(ctx, case):
    if ctx.prop in TX or ctx.prop == "P07" and "tx" in case["case"]:
        ctx.build()
        q = ctx.path("r.ndjson")
        with open(q, "w") as f:
            f.write(json.dumps(case["case"]) + "\n")
        ctx.harness("exec", **{"in": q, "out": q})
        st = core.Stage("replay")
        tx.judge(ctx, st, [q])
        ctx.stages.append(st)


@plan("B08", "TLA+ specification of the messages of the node API (fields, byte form, JSON form, decoding); its laws checked by TLC over every message a few fields away from empty, each replayed through the real codecs and judged by it, and random messages", "model_checking",
      "35 message types; TLC enumerates messages with up to two (thorough: three) fields at extreme or unusual values, including the fields of nested messages, and checks that bytes decode back, shorter bytes do not and changes show in both forms; the real code encodes, decodes, shortens and leaves fields out of each; random contents sample; parts specified elsewhere (blocks, outputs, proofs, commitments, parameters) come from a pool")
def b08(ctx):
    st = Stage("messages: bytes and JSON")
    cases = ctx.path("cases.ndjson")
    conf.model(ctx, st, "MC_Messages", out=cases, constants=None if ctx.quick else dict(MaxDev=3))
    for b in range(ctx.scale(1, 8)):
        q = ctx.path("m.ndjson")
        kw = {"in": cases} if b == 0 else {}
        ctx.harness("msgs", seed=ctx.seed * 100 + b, n=ctx.scale(5000, 20000), out=q, **kw)
        c = conf.judge(ctx, st, "MessagesConform", q, sig=lambda rec, x: rec["t"] + ":" + x, what=lambda rec, x: "%s %s %s: %s" % (x, rec["t"], rec["err"], json.dumps(rec)[:1200]))
        conf.require(st, c, ["enumerated"] * (b == 0) + ["random", "left out", "InfoResponse", "OutputMetadata", "UTXOChangesFullResponse", "ValidatorsResponse", "IndexerResponse", "CongestionResponse"])
        if st.mismatches:
            break
    ctx.stages.append(st)
    return "model_checking", [A_BOUND]


@plan("S06", "TLA+ specification of copies, comparisons, typed lists, sort orders and identifiers; its laws checked by TLC over every history of an object and its copy and of a list up to a bound, each replayed on real objects of every kind and judged by it, with random orders and identifiers", "model_checking",
      "62 kinds of objects and lists of objects; TLC enumerates every history of 4 (thorough: 5) copies, edits and growths of an object and its copy, and every 2 (thorough: 3) list operations on lists of up to two entries; the contents of the objects, the parts edited, sort orders and identifiers are random")
def s06(ctx):
    st = Stage("copies, comparisons, lists and identifiers")
    cases = ctx.path("cases.ndjson")
    conf.model(ctx, st, "MC_Copies", out=cases, constants=None if ctx.quick else dict(MaxOps=5))
    for b in range(ctx.scale(1, 6)):
        q = ctx.path("co.ndjson")
        ctx.harness("copies", seed=ctx.seed * 100 + b, n=ctx.scale(40000, 60000), out=q, **{"in": cases})
        c = conf.judge(ctx, st, "CopiesConform", q, sig=lambda rec, x: rec["op"] + ":" + rec["kind"] + ":" + x, what=lambda rec, x: "%s of %s (%s): %s" % (x, rec["kind"], rec["op"], json.dumps(rec)[:1200]))
        conf.require(st, c, ["differ", "equal again", "out of order", "list features", "list conditions", "list keys", "order BlockID", "order Attestation", "order ContextInput", "ident OutputID", "ident CommitmentID", "ident AnchorID", "read hex", "read Address", "read Implicit", "read SlotIndex", "read", "unread",
                             "AccountOutput", "NFTOutput", "MultiAddress", "SignedTransaction", "FeaturesList", "UnlockConditionsList", "BlockIssuerKeys"])
        if st.mismatches:
            break
    if ctx.quick is False:
        conf.model(ctx, st, "MC_Copies", out=ctx.path("cases3.ndjson"), constants=dict(MaxOps=2, MaxList=3))
        q = ctx.path("co3.ndjson")
        ctx.harness("copies", seed=ctx.seed, n=0, out=q, **{"in": ctx.path("cases3.ndjson")})
        conf.judge(ctx, st, "CopiesConform", q, sig=lambda rec, x: rec["op"] + ":" + rec["kind"] + ":" + x, what=lambda rec, x: "%s of %s (%s): %s" % (x, rec["kind"], rec["op"], json.dumps(rec)[:1200]))
    ctx.stages.append(st)
    return "model_checking", [A_BOUND]
