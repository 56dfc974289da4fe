"""Transactions: generated, executed by the real code, judged by TxConform.tla."""
import collections, itertools, json, math, os, random

from .core import Stage, CheckError

# properties a rejection by the real code belongs to (by the error it names) if
# the specification sees no reason for it
ERR = {}


def _e(props, *names):
    for n in names:
        ERR[n] = set(props.split(","))


_e("V01", "InputOutputBaseTokenMismatch", "ReturnAmountNotFulFilled")
_e("V02", "NativeTokenSumExceedsUint256", "NativeTokenSumUnbalanced", "NativeTokenSetInvalid", "SimpleTokenSchemeMintedMeltedTokenDecrease",
   "SimpleTokenSchemeMintingInvalid", "SimpleTokenSchemeMeltingInvalid", "SimpleTokenSchemeMaximumSupplyChanged", "SimpleTokenSchemeGenesisInvalid", "SimpleTokenSchemeTransition")
_e("S01,V02", "NativeTokenAmountLessThanEqualZero", "FoundryIDNativeTokenIDMismatch", "SimpleTokenSchemeInvalidMaximumSupply", "SimpleTokenSchemeInvalidMintedMeltedTokens")
_e("V03", "InputOutputManaMismatch", "InputCreationAfterTxCreation", "ManaOverflow", "ManaDecayCreationIndexExceedsTargetIndex")
_e("S01,V03", "MaxManaExceeded")
_e("V04", "MultiAddressUnlockInvalid", "ReferentialUnlockInvalid", "DirectUnlockableAddressUnlockInvalid", "ChainAddressUnlockInvalid", "UnlockSignatureInvalid",
   "Ed25519PubKeyAndAddrMismatch", "Ed25519SignatureInvalid", "MultiAddressUnlockThresholdNotReached", "MultiAddressLengthUnlockLengthMismatch",
   "SignatureAndAddrIncompatible", "OwnerTransitionDependentOutputNonUTXOChainID", "SignatureUnlockHasNilSignature")
_e("V04,V06", "OwnerTransitionDependentOutputNextInvalid")
_e("V05", "TimelockNotExpired", "TimelockCommitmentInputMissing", "ExpirationCommitmentInputMissing", "ExpirationNotUnlockable")
_e("S01,V05", "ExpirationConditionZero", "TimelockConditionZero")
_e("V06", "ChainOutputImmutableFeaturesChanged", "NewChainOutputHasNonZeroedID", "AnchorInvalidStateTransition", "AnchorInvalidGovernanceTransition", "InvalidFeatureTransition", "ChainMissing", "AnchorMissing")
_e("S01,V06", "NonUniqueChainOutputs", "AnchorOutputNonEmptyState")
_e("V07", "AccountInvalidFoundryCounter", "FoundryTransitionWithoutAccount", "FoundrySerialInvalid")
_e("S01,V07", "AccountOutputNonEmptyState")
_e("V08", "BlockIssuerCommitmentInputMissing", "BlockIssuanceCreditInputMissing", "BlockIssuerNotExpired", "BlockIssuerExpiryTooEarly", "ManaMovedOffBlockIssuerAccount", "AccountLocked")
_e("V09", "StakingStartEpochInvalid", "StakingEndEpochTooEarly", "StakingFeatureRemovedBeforeUnbonding", "StakingFeatureModifiedBeforeUnbonding", "StakingRewardInputMissing", "StakingRewardClaimingInvalid", "StakingCommitmentInputMissing")
_e("S01,V09", "StakingBlockIssuerFeatureMissing", "AccountOutputAmountLessThanStakedAmount")
_e("V10", "DelegationCommitmentInputMissing", "DelegationRewardInputMissing", "DelegationRewardsClaimingInvalid", "DelegationOutputTransitionedTwice", "DelegationModified",
   "DelegationStartEpochInvalid", "DelegationAmountMismatch", "DelegationEndEpochNotZero", "DelegationEndEpochInvalid")
_e("S01,V10", "DelegationValidatorAddressEmpty")
_e("V11", "ImplicitAccountDestructionDisallowed", "MultipleImplicitAccountCreationAddresses")
_e("S04,V11", "ImplicitAccountCreationAddressInInvalidUnlockCondition", "ImplicitAccountCreationAddressInInvalidOutput")
_e("V12", "TxCapabilitiesNativeTokenBurningNotAllowed", "TxCapabilitiesManaBurningNotAllowed", "TxCapabilitiesAccountDestructionNotAllowed",
   "TxCapabilitiesAnchorDestructionNotAllowed", "TxCapabilitiesFoundryDestructionNotAllowed", "TxCapabilitiesNFTDestructionNotAllowed")
_e("V13", "SenderFeatureNotUnlocked", "IssuerFeatureNotUnlocked")
_e("S01", "InvalidAddressType", "InvalidRestrictedAddress", "InvalidNestedAddressType", "MultiAddressWeightInvalid", "MultiAddressThresholdInvalid", "BitmaskTrailingZeroBytes",
   "CommitmentInputMissing", "NonUniqueFeatures", "InvalidMetadataKey", "InvalidStateMetadataKey", "MetadataExceedsMaxSize", "RefUTXOIndexInvalid", "AmountMustBeGreaterThanZero",
   "AccountOutputCyclicAddress", "AnchorOutputCyclicAddress", "NFTOutputCyclicAddress", "TxTypeInvalid", "TxEssenceNetworkIDInvalid", "TxEssenceCapabilitiesInvalid",
   "InputUTXORefsNotUnique", "InputRewardIndexExceedsMaxInputsCount", "NonUniqueUnlockConditions", "UTXOInputInvalid", "ArrayValidationOrderViolatesLexicalOrder", "ArrayValidationViolatesUniqueness")
_e("S01,V01", "OutputsSumExceedsTotalSupply")
_e("S02", "SignatureUnlockNotUnique", "MultiUnlockNotUnique", "NestedMultiUnlock", "EmptyUnlockOutsideMultiUnlock", "InputUnlockCountMismatch")
_e("S04", "AddressCannotReceiveNativeTokens", "AddressCannotReceiveMana", "AddressCannotReceiveTimelockUnlockCondition", "AddressCannotReceiveExpirationUnlockCondition",
   "AddressCannotReceiveStorageDepositReturnUnlockCondition", "AddressCannotReceiveAccountOutput", "AddressCannotReceiveAnchorOutput", "AddressCannotReceiveNFTOutput",
   "AddressCannotReceiveDelegationOutput", "StorageDepositNotCovered", "StorageDepositLessThanMinReturnOutputStorageDeposit", "StorageDepositExceedsTargetOutputAmount")

DIRECT = {"size": {"S05"}, "outsize": {"S05"}, "roundtrip": {"S05"}, "score": {"S04"}, "work": {"P05"}, "reason": {"P07"}}


def rule_props(rules):
    out = set()
    for r in rules:
        out |= set(r.split(":")[0].split(","))
    return out


def attribute(rec, verdict):
    """Properties a disagreement is about; None: cannot tell."""
    out = set()
    res = rec["res"]
    for d in verdict["d"]:
        if d in DIRECT:
            out |= DIRECT[d]
        elif d in ("syn", "dec", "vm"):
            rules = verdict["vm"] if d == "vm" else verdict["syn"]
            if rules:                      # accepted although these rules are broken
                out |= rule_props(rules)
                if d != "vm":
                    out |= {"S02"} if all(x.startswith("S02") for x in rules) else {"S01"} if not any(x.startswith("S02") for x in rules) else set()
            else:                          # refused without reason
                e = res[d]
                if e in ERR:
                    out |= ERR[e]
                    if d != "vm" and not (ERR[e] & {"S01", "S02", "S04"}):
                        out.add("S01")
                elif d == "vm":
                    return None
                else:
                    out |= {"S01"}
        elif d == "panic":
            rules = verdict["syn"] or verdict["vm"]
            if not rules:
                return None
            out |= rule_props(rules)
        else:
            return None
    return out


def signature(rec, verdict):
    res = rec["res"]
    rules = verdict["syn"] or verdict["vm"]
    if verdict["d"] == ["reason"]:
        return "reason|%s|%s" % (";".join(sorted(rules)), res["reason"])
    return "%s|%s|%s/%s/%s" % ("+".join(sorted(verdict["d"])), ";".join(sorted(rules)), res["syn"], res["dec"], res["vm"])


def judge(ctx, stage, files, module="TxConform", jvms=4):
    """TLC over record files; disagreements of this property become mismatches."""
    results = ctx.tlc_par(module, files, workers=2, heap="3g")
    rules, alone = collections.Counter(), collections.Counter()
    valid = total = unbuilt = 0
    elsewhere = collections.Counter()
    for f, r in zip(files, results):
        r.require_ok()
        stage.add_tlc(r)
        recs = [json.loads(l) for l in open(f)]
        n = 0
        for v in r.lines("REC"):
            n += 1
            rec = recs[v["i"] - 1]
            if "unbuilt" in v["d"]:
                unbuilt += 1
                continue
            total += 1
            bad = v["syn"] or v["vm"]
            for x in bad:
                rules[x] += 1
            if len(bad) == 1:
                alone[bad[0]] += 1
            if not bad:
                valid += 1
            if len(stage.samples) < 1 and not v["d"]:
                stage.samples.append(dict(kind=rec["kind"], verdict=v["syn"] + v["vm"], real=rec["res"]["vm"], record=rec))
            if v["d"]:
                ps = attribute(rec, v)
                if ps is None or ctx.prop in ps:
                    stage.mismatch(signature(rec, v), "kind %s: rules broken per specification %s; implementation: encode=%s decode=%s ledger=%s, reason %s, %s"
                                   % (rec["kind"], bad, rec["res"]["syn"], rec["res"]["dec"], rec["res"]["vm"], rec["res"]["reason"], rec["res"]["err"]), rec)
                else:
                    elsewhere["%s:%s" % (",".join(sorted(ps)), "+".join(v["d"]))] += 1
        if n != len(recs):
            raise CheckError("TLC judged %d of %d records of %s" % (n, len(recs), f))
    stage.traces += total
    i = stage.info
    i["records"] = i.get("records", 0) + total
    i["accepted_by_specification"] = i.get("accepted_by_specification", 0) + valid
    i["not_constructible"] = i.get("not_constructible", 0) + unbuilt
    mine = {k: c for k, c in sorted(rules.items()) if ctx.prop in k.split(":")[0].split(",") or ctx.prop == "P07" and k[0] == "V"}
    i["rules_broken"] = {**i.get("rules_broken", {}), **{k: dict(records=c, only_this_rule=alone[k]) for k, c in mine.items()}}
    if elsewhere:
        i["disagreements_of_other_properties"] = dict(elsewhere)


def split(ctx, path, k):
    lines = open(path).readlines()
    if not lines:
        raise CheckError("no records in " + path)
    out = []
    step = (len(lines) + k - 1) // k
    for a in range(0, len(lines), step):
        p = "%s.%d" % (path, a)
        with open(p, "w") as f:
            f.writelines(lines[a:a + step])
        out.append(p)
    return out


def random_tx(ctx, focuses, n):
    """Random transactions around valid ones, by focus: list of (focus, share)."""
    st = Stage("random transactions")
    tot = sum(w for _, w in focuses)
    batch = 0
    left = n
    while left > 0:
        m = min(left, 40000)
        left -= m
        p = ctx.path("tx%d.ndjson" % batch)
        with open(p, "w") as out:
            for k, (f, w) in enumerate(focuses):
                q = ctx.path("g.ndjson")
                ctx.harness("gen", focus=f, seed=ctx.seed * 1000 + batch * 50 + k, n=max(1, m * w // tot), out=q)
                out.write(open(q).read())
        judge(ctx, st, split(ctx, p, 4))
        os.remove(p)
        batch += 1
        if st.mismatches:
            break
    ctx.stages.append(st)


def positions(ext, dev, cap, rng):
    """Choices from the tables of a family: its first tables in full, the others
    off their first entries in at most dev places; at most cap of them, those
    with fewer deviations first, a random part of the last kind that fits."""
    lens, modes = ext["lens"], ext["modes"]
    free = list(range(modes, len(lens)))
    heads = list(itertools.product(*[range(1, n + 1) for n in lens[:modes]]))
    out = []
    complete = -1
    for d in range(min(dev, len(free)) + 1):
        blocks = [(s, list(itertools.product(*[range(2, lens[i] + 1) for i in s]))) for s in itertools.combinations(free, d)]
        size = len(heads) * sum(len(b) for _, b in blocks)
        left = cap - len(out)
        if left <= 0:
            break

        def vec(h, s, b):
            v = list(h) + [1] * len(free)
            for i, x in zip(s, b):
                v[i] = x
            return v
        if size <= left:
            out += [vec(h, s, b) for s, bs in blocks for b in bs for h in heads]
            complete = d
        else:
            flat = [(s, b) for s, bs in blocks for b in bs]
            for x in rng.sample(range(size), left):
                h, (s, b) = heads[x % len(heads)], flat[x // len(heads)]
                out.append(vec(h, s, b))
    return out, complete == len(free), complete


def enumerated(ctx, fams, cap, dev):
    """Transactions of the families of CasesSyntax.tla, built by TLC."""
    ctx.build()
    st = Stage("transactions enumerated by the specification")
    r = ctx.tlc("CasesSyntax", env={"VERIF_IN": ""}, workers=1, heap="2g").require_ok()
    ext = {e["f"]: e for e in r.lines("FAM")}
    rng = random.Random(ctx.seed)
    budget = cap
    todo, info = [], {}
    # small families first: what they leave over goes to the others
    order = sorted(fams, key=lambda f: math.prod(ext[f]["lens"]))
    for k, f in enumerate(order):
        v, full, complete = positions(ext[f], dev, budget // (len(order) - k), rng)
        budget -= len(v)
        info[f] = dict(cases=len(v), of=math.prod(ext[f]["lens"]), whole_product=full, all_with_deviations_up_to=complete)
        todo += [dict(f=f, d=x) for x in v]
    rng.shuffle(todo)
    st.info["families"] = info
    skipped = 0
    for b in range(0, len(todo), 40000):
        part = todo[b:b + 40000]
        q = ctx.path("pos%d.ndjson" % b)
        with open(q, "w") as out:
            out.writelines(json.dumps(x) + "\n" for x in part)
        p = ctx.path("cases%d.ndjson" % b)
        with open(p, "w") as out:
            g = ctx.tlc("CasesSyntax", env={"VERIF_IN": q}).require_ok()
            st.add_tlc(g)
            skipped += g.txt.count('"SKIP"')
            out.writelines(json.dumps(c) + "\n" for c in g.lines("CASE"))
        q = ctx.path("done%d.ndjson" % b)
        ctx.harness("exec", focus="canon", **{"in": p}, out=q)
        judge(ctx, st, split(ctx, q, 4))
        os.remove(p)
        os.remove(q)
        if st.mismatches:
            break
    st.info["combinations_without_meaning"] = skipped
    ctx.stages.append(st)
