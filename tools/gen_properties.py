#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  One place to edit the property list."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})
EX=["vm.Execute return value of the nova VM on a transaction and its resolved inputs"]
UN=["vm.ValidateUnlocks return value of the nova VM"]

p("V01","Base tokens are conserved and storage deposits are returned",
 "A transaction that the ledger rules accept moves exactly as many base tokens into its outputs as its inputs hold: none are created, destroyed or lost to wrap-around. "
 "Whenever it spends an output that carries a storage-deposit return obligation and that output is not being reclaimed by the return address itself, plain basic outputs to that return address must give back at least the sum of all return amounts owed to it, each returned token counting only once. "
 "A transaction that satisfies both rules is not rejected because of them.",
 ["inputs","histories"],"every transaction over any set of inputs and outputs of all six output kinds, any mix of return obligations, and any sequence of such transactions on one ledger",
 "The VM tests use a few dozen hand-made transactions; conservation quantifies over all input/output multisets and over histories of the ledger, and the interplay of several return obligations with expiration is not sampled.",
 ["vm/vm.go","output.go"],[("ExecFuncBalancedBaseTokens","vm/vm.go"),("simple transfer test","output_basic.go: IsSimpleTransfer")],EX,
 [("ledger base token total","sum of amounts of all unspent outputs","vm.WorkingSet.UTXOInputs / Tx.Outputs")])

p("V02","Native-token supply always equals what its foundry has minted minus melted",
 "Native tokens change in quantity only through their own foundry: without that foundry being created, changed or destroyed in the transaction they can be moved, or burned if the transaction permits it, but never increased. "
 "A foundry's minted and melted counters only grow, its maximum supply never changes, the counters move by exactly the amount its token's circulating quantity changes and only in the one matching direction, circulating supply never exceeds the maximum, and a foundry can be destroyed only when the tokens it still accounts for are all gone. "
 "Hence over any history the circulating quantity of a token never exceeds its foundry's minted minus melted amount.",
 ["inputs","histories"],"every sequence of transactions that creates, mints, melts, burns, transfers or destroys, with any number of tokens and foundries per transaction and amounts up to 256 bits",
 "Tests check isolated foundry transitions; the supply equation is a history invariant over sums of inputs, outputs and scheme counters for all values, including extremes.",
 ["vm/vm.go","vm/nova/vm.go","token_scheme_simple.go","output.go"],[("ExecFuncBalancedNativeTokens","vm/vm.go"),("foundrySTVF and the three foundry transitions","vm/nova/vm.go"),("SimpleTokenScheme.StateTransition","token_scheme_simple.go")],EX,
 [("token supply","minted and melted counters of each foundry","SimpleTokenScheme")])

p("V03","Mana is never created and is burned only on request",
 "In an accepted transaction the mana it stores in outputs plus the mana it allots to accounts is at most the mana its inputs provide at its creation slot: their decayed stored mana, the mana generated since their creation by the amount above the minimum storage deposit, and the rewards it claims. "
 "Providing more mana than is used is accepted only if the transaction explicitly permits burning mana, no input may be newer than the transaction, and any overflow in these sums leads to rejection, never to a wrapped total.",
 ["inputs"],"every transaction: any inputs, creation slots in the same or many epochs apart, amounts, stored mana, rewards, allotments and capability flags, including values at numeric limits",
 "Tests sample a few mana balances with mostly zero generation; the inequality quantifies over slots, epochs, amounts, rewards and limits.",
 ["vm/vm.go","vm/nova/vm.go","output.go","mana_decay_provider.go"],[("ExecFuncBalancedMana","vm/vm.go"),("TotalManaIn/TotalManaOut","vm/vm.go"),("PotentialMana","output.go")],EX)

p("V04","Only the rightful owner can consume an output",
 "A transaction is accepted only if every input is unlocked by whoever controls it at that moment: a valid signature over this very transaction by the key behind the owning address, a reference to an earlier input that was unlocked by that same key or address, a reference to an earlier input of the account, anchor or NFT that owns it, or, for a shared address, enough distinct such proofs to reach its weight threshold. "
 "An account, anchor or NFT counts as acting only from the position where its own output was unlocked (an anchor only when its state controller advances its state), address restrictions do not change who the owner is, and one key's signature appears at most once, later uses referring back to it. "
 "Correct proofs in that form are accepted.",
 ["inputs"],"every arrangement of inputs, owners (plain, restricted, shared, implicit-account, account, anchor, NFT, nested chains of them), unlocks of all kinds, reference targets and signatures, valid or forged",
 "Tests enumerate some dozens of arrangements; authorization quantifies over all owner/unlock/reference graphs, in particular orders and reference targets no test uses.",
 ["vm/vm.go","vm/nova/vm.go","unlock.go","unlock_multi.go","address_ed25519.go"],[("ValidateUnlocks, unlockAddress","vm/vm.go"),("unlockedAddressesSet","vm/vm.go")],UN,
 [("unlocked addresses","address -> input position at which it was unlocked","vm.unlockedAddressesSet")])

p("V05","Timelocked and expiring outputs obey the committed time window",
 "An output with a timelock is never spent unless the transaction commits to a slot whose earliest possible successor slot has reached the timelock slot. "
 "An output with an expiration can be spent by its owner only while every slot at which the transaction could take effect lies before the expiration slot, and by the return address only once all of them have reached it; in between nobody can spend it, and without a commitment neither kind of output can be spent. "
 "Outside those restrictions the conditions do not block the entitled party.",
 ["inputs","configurations"],"every combination of commitment slot, timelock and expiration slot, owner and return address, output kind and committable-age parameters",
 "Tests probe one or two slots per condition; the guarantee is about every boundary under every configuration of minimum and maximum committable age.",
 ["vm/vm.go","output.go","unlock_cond.go"],[("ExecFuncTimelocks","vm/vm.go"),("checkExpiration","vm/vm.go"),("UnlockConditionSet.CheckExpirableUnlock","unlock_cond.go")],UN+EX)

p("V06","Accounts, anchors and NFTs keep their identity and follow their own rules",
 "Each account, anchor and NFT consumed by an accepted transaction continues as exactly one output with the same identifier or is destroyed, a new one starts with an unset identifier, and an output with an identifier appears only if its predecessor is consumed. "
 "Immutable features never change along a chain. "
 "An anchor either advances its state index by exactly one, keeping its controllers and general metadata, or keeps its state index, amount and state metadata while its governor changes the rest.",
 ["inputs","histories"],"every transition, creation, destruction and duplication of accounts, anchors and NFTs with any change to any of their fields, over any history",
 "Tests cover selected field changes of single transitions; continuity and uniqueness of chains is a history property and the set of field changes is unbounded.",
 ["vm/nova/vm.go","vm/vm.go","feat.go","output.go"],[("ExecFuncChainTransitions","vm/vm.go"),("accountSTVF, anchorSTVF, nftSTVF","vm/nova/vm.go"),("FeatureUnchanged","feat.go")],EX,
 [("chain set","identifier -> current output","vm.WorkingSet.InChains/OutChains")])

p("V07","Foundries are numbered gaplessly by their account and are controlled by it",
 "A foundry is created only in a transaction that also moves its controlling account forward; its serial number lies above the account's counter before and not above the counter after, and several foundries created together appear with strictly increasing serial numbers. "
 "The account's foundry counter never decreases and grows by exactly the number of foundries created under it in that transaction. "
 "No foundry identifier is therefore ever created twice.",
 ["inputs","histories"],"every account/foundry transition: any number of accounts and foundries, any serial numbers and order, any counter change, over any history",
 "Tests use one account with one or two foundries; numbering must be gapless for every set, order and history of creations.",
 ["vm/nova/vm.go","output.go"],[("accountFoundryCounterSTVF","vm/nova/vm.go"),("foundrySerialNumberValid","vm/nova/vm.go")],EX,
 [("foundry counter","number of foundries an account ever created","AccountOutput.FoundryCounter")])

p("V08","Block-issuer accounts cannot evade congestion accounting",
 "An account with a block-issuer feature is spent only with its block-issuance credit presented and not negative, the feature can be added or its expiry changed only to a slot beyond the reach of the commitment, and it can be removed, or the account destroyed, only after it expired. "
 "While it is in force, mana held by or generated on the account may leave it only as an allotment to the same account or into outputs that are locked to the account for longer than the maximum committable age. "
 "Transactions meeting these conditions are not rejected by them.",
 ["inputs","configurations"],"every account transition with or without the feature, for any credit, expiry slot, commitment slot, mana distribution over outputs and allotments, and committable-age parameters",
 "Tests fix one commitment slot and a few distributions; the bound on where mana may go quantifies over outputs, locks, allotments, generation and decay.",
 ["vm/nova/vm.go"],[("accountBlockIssuerSTVF","vm/nova/vm.go"),("accountBlockIssuanceCreditLocked","vm/nova/vm.go"),("accountDestructionValid","vm/nova/vm.go")],EX)

p("V09","Stake is locked for its term and rewards are claimed once, when it ends",
 "A staking feature starts in the epoch of the earliest slot the transaction can take effect in and lasts at least the unbonding period; until it has ended it can be neither removed nor changed, except that its end may be moved to any epoch that still respects the unbonding period. "
 "Once ended it may be removed, restarted under the rules for new stake, or left untouched. "
 "Rewards are claimed for an account exactly when its ended stake is removed, restarted or its account destroyed, never otherwise, and an account with stake in force cannot be destroyed.",
 ["inputs","configurations"],"every transition of an account with any staking fields before and after, any commitment slot and any protocol timing parameters, with and without a reward claim",
 "Tests pick a few epochs; lifecycle rules are about all epoch relations and all field changes with or without a claim.",
 ["vm/nova/vm.go"],[("accountStakingSTVF and its genesis/expired/non-expired validations","vm/nova/vm.go"),("accountDestructionValid","vm/nova/vm.go")],EX)

p("V10","A delegation follows its one-way lifecycle",
 "A delegation is created with an unset identifier, delegating exactly its own amount, with no end epoch and the start epoch that the committed slot and the validator registration deadline dictate. "
 "It can be transitioned exactly once, keeping its delegated amount, validator and start epoch, receiving its identifier and the end epoch dictated by the committed slot, and without claiming rewards. "
 "It is ended by being destroyed, which is possible only together with claiming its rewards and requires a commitment.",
 ["inputs","configurations"],"every delegation creation, transition and destruction with any field values, any commitment slot relative to epoch boundaries and the registration deadline, and any timing parameters",
 "Tests use a handful of slots in one configuration; the epoch choice depends on every slot of an epoch and on four parameters.",
 ["vm/nova/vm.go","timeprovider.go"],[("delegationSTVF","vm/nova/vm.go"),("registrationSlot","vm/nova/vm.go")],EX)

p("V11","An implicit account can only become a proper block-issuer account",
 "A basic output at an implicit-account-creation address can be consumed only by turning it into the one account derived from it, which has a block-issuer feature and satisfies the rules for such a new account; it cannot be spent otherwise, and at most one is consumed per transaction. "
 "The account's credit must be presented and not negative and its mana is bound to the account as for a block issuer. "
 "Validating any such transaction ends in a verdict, never in a crash.",
 ["inputs"],"every transaction consuming implicit accounts together with any other inputs and outputs, including foundries, stakes and mana locks",
 "Tests convert single implicit accounts in simple transactions; combinations with foundries, staking or several implicit accounts are not sampled.",
 ["vm/nova/vm.go","vm/vm.go","vm/types.go"],[("implicitAccountSTVF","vm/nova/vm.go"),("ExecFuncAtMostOneImplicitAccountCreationAddress","vm/vm.go")],EX)

p("V12","Value and identity are destroyed only with explicit permission",
 "An accepted transaction burns native tokens, burns mana, or destroys an account, anchor, foundry or NFT only if it carries the specific permission flag for that kind of destruction, and each flag permits that kind only. "
 "A transaction that destroys nothing is accepted whatever its flags.",
 ["inputs","configurations"],"all 64 flag combinations with every combination of destruction kinds",
 "Tests pair each destruction with its own flag only; that no other flag suffices quantifies over flag sets and destruction sets.",
 ["transaction_capabilities_bitmask.go","vm/vm.go","vm/nova/vm.go"],[("TransactionCapabilitiesBitMask","transaction_capabilities_bitmask.go"),("destruction checks","vm/nova/vm.go")],EX)

p("V13","Sender and issuer claims are authentic",
 "An accepted transaction carries a sender claim on an output only if the claimed address was unlocked by the transaction, and creates an account, anchor or NFT with an issuer claim only if the issuer was unlocked by it. "
 "For an anchor, only advancing its state, not governing it, counts as unlocking its address. "
 "Claims of unlocked addresses are accepted.",
 ["inputs"],"every claimed address kind (plain, restricted, shared, account, anchor, NFT) against every set of unlocked inputs",
 "Tests cover some address kinds; claims depend on the whole unlock graph.",
 ["vm/vm.go","vm/nova/vm.go"],[("ExecFuncSenderUnlocked","vm/vm.go"),("IsIssuerOnOutputUnlocked","vm/vm.go")],EX)

p("S01","Malformed transactions are rejected before execution",
 "Validating a transaction's encoding succeeds exactly if it is well formed: right network, between 1 and 128 distinct inputs and outputs, canonical order and uniqueness of context inputs and allotments, context inputs that refer to existing inputs and are accompanied by a commitment when needed, and sums of base tokens and mana within their limits. "
 "Each output must have the unlock conditions and features its kind allows, in canonical order and at most one of each, no zero slots or zero native tokens, metadata within its size limit, no two outputs may carry the same chain identifier, and no account, anchor or NFT may directly name itself as its owner. "
 "Outputs with staking, block-issuer or delegation content require a commitment in the transaction.",
 ["inputs"],"every transaction value, including all single deviations from a well-formed one and their combinations",
 "Tests check listed deviations one by one on one shape of transaction.",
 ["transaction.go","transaction_essence.go","output.go","syntax_validator.go","input_context.go","allotment.go"],[("Transaction.SyntacticallyValidate","transaction.go"),("OutputsSyntactical* validators","output.go"),("TransactionEssence.syntacticallyValidateEssence","transaction_essence.go")],["API.Encode/Decode with validation of a signed transaction"])

p("S02","Unlock lists are well formed and unambiguous",
 "A signed transaction is well formed only if it has one unlock per input, no plain signature repeats the public key of an earlier signature, references point to earlier positions of the right kind, a plain reference never to another reference, shared-address unlocks are unique, contain no empty or nested shared unlocks beyond the permitted placeholder and refer only to positions before them, and placeholders appear only inside shared-address unlocks. "
 "Every list that satisfies these rules is accepted.",
 ["inputs"],"every list of unlocks of all seven kinds up to the maximum length, with any reference targets and any sharing of signatures",
 "Tests enumerate some lists; the rule set is a language over lists of unlocks.",
 ["unlock.go","signed_transaction.go"],[("SignaturesUniqueAndReferenceUnlocksValidator","unlock.go")],["API.Encode/Decode with validation of a signed transaction"])

p("S03","Blocks are valid only within their commitment and parent rules",
 "A block decodes with validation exactly if its version and network match the rules it is decoded under, it fits the size limit, its strong, weak and shallow-like parents are canonical, within their counts and weak parents disjoint from the others, and its commitment lies between the maximum and minimum committable age before its slot (only commitments to the genesis are exempt from the minimum). "
 "A contained transaction must not be from the future of the block, and its own commitment must lie in the same window and not after the block's. "
 "A validation block must announce a supported protocol version not below its own.",
 ["inputs","configurations"],"every block: any parents, commitment slot, issuing time, payload and protocol parameters",
 "Tests check single slots per rule with a fixed configuration.",
 ["block.go"],[("Block.syntacticallyValidate","block.go"),("BasicBlockBody.syntacticallyValidate","block.go"),("ValidationBlockBody.syntacticallyValidate","block.go")],["Block decoding/encoding with validation"])

p("S04","Outputs respect address restrictions and the storage deposit",
 "No transaction is well formed that sends to a restricted address, in any role in which that address could come to own the output, an output with a content kind (native token, mana, timelock, expiration, deposit return, account, anchor, NFT, delegation) the address does not allow, or that puts an implicit-account-creation address anywhere but the owner of a basic output. "
 "Every output holds at least the storage deposit its storage score requires, a deposit return obliges no less than the deposit of the plain output needed to fulfil it, and the amounts respect the total supply. "
 "Outputs within these limits are accepted.",
 ["inputs","configurations"],"all 512 capability sets times output kinds, contents and address roles; all amounts around the required deposit under any storage parameters",
 "Tests cover each restriction in one role; combinations of capability sets, roles and contents are not enumerated.",
 ["output.go","address_capabilities_bitmask.go","storagescore.go"],[("OutputsSyntacticalAddressRestrictions","output.go"),("OutputsSyntacticalDepositAmount","output.go"),("StorageScoreStructure","storagescore.go")],["API.Encode/Decode with validation","StorageScoreStructure.MinDeposit"])

p("S05","Encoding is canonical and sizes are exact",
 "Every well-formed output, transaction, block, attestation and commitment survives a binary and a JSON round trip unchanged, its reported size equals the length of its encoding, and its identifier depends only on that encoding. Any byte string is either refused or decodes to an object whose encoding is exactly the bytes consumed; decoding never crashes or reads past its input. "
 "Identifiers carry the slot they belong to and distinct encodings have distinct identifiers.",
 ["inputs"],"every well-formed object and every byte string",
 "Round-trip tests use sampled objects, do not compare sizes for all shapes and never decode bytes that are not an encoding.",
 ["api_v3.go","transaction.go","output.go","block.go"],[("serix registrations","api_v3.go"),("Size methods","output_*.go, feat_*.go, unlock*.go, block.go")],["API.Encode, API.Decode, Size, ID"])

p("P01","Slots, epochs and wall-clock time map to each other consistently",
 "Slots partition time after genesis into equal consecutive intervals and epochs partition slots: a time belongs to the slot whose interval contains it, times before genesis belong to the genesis slot, a slot belongs to the epoch whose first and last slot enclose it, the epochs are contiguous and of equal length after genesis, and the mappings are monotone and mutually inverse at interval ends. "
 "Distances to the start and end of an epoch agree with these boundaries.",
 ["inputs","configurations"],"every slot, epoch and time under any genesis slot, genesis time, slot duration and epoch length",
 "Tests use three configurations and a few slots.",
 ["timeprovider.go"],[("TimeProvider","timeprovider.go")],["TimeProvider methods"])

p("P02","Mana decay and generation follow the protocol's fixed-point arithmetic",
 "Decaying or generating mana between two slots yields exactly the value of the protocol's integer fixed-point formula for the configured factors, is refused if the target precedes the origin, is the identity or zero within equal slots and epochs respectively, and reports overflow instead of wrapping. "
 "Decay never increases mana, waiting longer never leaves more, generation is monotone in amount and time, and rewards are decayed from their claiming epochs as the protocol defines.",
 ["inputs","configurations"],"every amount up to the numeric limit, every pair of slots within and across epochs and beyond the length of the factor table, and any configured parameters",
 "Tests compare a few points; exactness and monotonicity quantify over all slots, amounts and tables.",
 ["mana_decay_provider.go","mana.go"],[("ManaDecayProvider","mana_decay_provider.go")],["ManaDecayProvider methods"])

p("P03","Every slot and version resolves to the one protocol version in force",
 "After any sequence of announced versions, the rules returned for an epoch, slot or time are those of the highest version whose start epoch is not later, the latest rules are those of the highest version whose parameters are known, and the committed rules are those in force at the highest slot reported so far and never go back. "
 "An announced version without known parameters yields an error rather than other rules, and the hash of the announced versions depends only on their content. "
 "All this holds under concurrent use.",
 ["histories","schedules"],"every interleaving and sequence of adding versions, adding future versions, advancing the committed slot and querying",
 "The tests are a few fixed call sequences on one goroutine.",
 ["api_epoch_based_provider.go","api_protocol_epoch_versions.go"],[("EpochBasedProvider","api_epoch_based_provider.go"),("ProtocolEpochVersions","api_protocol_epoch_versions.go")],["EpochBasedProvider methods"],
 [("versions","version -> start epoch and parameters","EpochBasedProvider")])

p("P04","Membership proofs are complete and sound",
 "A proof produced for any element of any list verifies against that list's root and only for that element: changing the element, any sibling hash, the structure or the root makes it fail. "
 "The root is determined by the list and its order by the prefix-separated hash tree that splits at the largest power of two below the length. "
 "The proof an output carries yields exactly the identifier its transaction gives that output, and an altered output, commitment or index cannot pass for it.",
 ["inputs"],"every list length and position, and every alteration of a proof",
 "Tests check one or two lists and a few tampered proofs.",
 ["merklehasher/merkle_hasher.go","merklehasher/merkle_proof.go","output_id_proof.go"],[("Hasher","merklehasher/merkle_hasher.go"),("Proof.Hash","merklehasher/merkle_proof.go"),("OutputIDProof","output_id_proof.go")],["Hasher.HashValues, ComputeProof, Proof.Hash, OutputIDProof.OutputID"])

p("P05","Work score and mana cost are the exact sum of a block's parts",
 "A block's work score is the sum over its contents of the configured cost of each part: data bytes, block base, inputs, context inputs, outputs, native tokens, staking, block-issuer, allotments and signatures, each counted as often as it occurs (shared signatures once per occurrence, validation blocks nothing), and its mana cost is that score times the reference cost. "
 "Overflow is reported as an error, and no valid block has more work than the announced maximum.",
 ["inputs","configurations"],"every block content and all parameter values, including those that overflow",
 "Tests check two or three compositions.",
 ["workscore.go","block.go","transaction.go","mana.go"],[("WorkScore methods","all object types"),("ManaCost","mana.go")],["Block.WorkScore, Block.ManaCost"])

p("P06","Protocol parameters are identified by their content, set as asked and sane",
 "Two sets of protocol parameters are equal exactly when every field of them is, and exactly then their encodings and hashes are equal; bytes and JSON decode to the same parameters, the bytes follow the documented layout, the accessors give the fields, and the network ID is that of the network's name, also when goroutines share the parameters. "
 "Parameters derived for a network carry what its options say, the last of several of a kind, and are refused exactly when a rule is violated: liveness bounds in order and before a slot can be committed, committable ages, nearing threshold and epoch length in order, congestion thresholds in order and within a slot's capacity, and token supply, mana supply, rewards and decay sums within their bits. "
 "The derived values are those the rules define: a table of decay factors for up to a year that multiply consistently, their sum, the length of the bootstrapping phase, and target rewards that fall from the initial to the final rate without a jump.",
 ["configurations","schedules"],"all values of all fields, all sequences of options with annual decay factors of 1 to 99 percent, any goroutines sharing parameters",
 "Tests encode a few parameter sets and check two refusals; 60 fields, their combinations, numbers next to the rules' bounds and shared use are not covered.",
 ["api_v3_protocol_parameters.go","api_protocol_parameters.go","mana.go","rmc.go","storagescore.go","workscore.go"],[("Equals of every parameter structure","api_protocol_parameters.go, mana.go, rmc.go, storagescore.go, workscore.go"),("Bytes, Hash, NetworkID","api_v3_protocol_parameters.go"),("sanity checks and derivations of NewV3SnapshotProtocolParameters","api_v3_protocol_parameters.go"),("RewardsParameters.TargetReward","mana.go")],["NewV3SnapshotProtocolParameters, V3ProtocolParameters.Equals, Bytes, Hash, NetworkID, RewardsParameters.TargetReward"])

p("P07","The reason reported for a failed transaction is why it failed",
 "When the ledger rules refuse a transaction, the failure reason determined for it is that of a rule the transaction breaks. "
 "Of an error that wraps others, the reason is that of the most detailed error that has one: context put in front of a cause never hides its reason, context explains a cause without one, errors without a reason change nothing, and the same holds for an error that wraps none; an error never becomes 'no failure', and an error without any known part is reported as failed semantic validation. "
 "Every reason has its own number. States of blocks and transactions and failure reasons survive their byte form, states survive their text form, and texts or values that name no state are refused.",
 ["inputs"],"all transactions and contexts the ledger rules refuse, all trees of wrapped errors, all byte values and texts",
 "Tests check the reason of a few wrapped errors and of the transactions of the ledger tests; which of several nested errors wins, bare errors, and refusals outside the samples are not covered.",
 ["api/core.go","vm/vm.go","vm/nova/vm.go"],[("DetermineTransactionFailureReason, unwrapErrors, txErrorsFailureReasonMap","api/core.go"),("errors of the ledger rules","vm/vm.go, vm/nova/vm.go"),("BlockState, TransactionState and TransactionFailureReason codecs","api/core.go")],["api.DetermineTransactionFailureReason, BlockState and TransactionState EncodeJSON/DecodeJSON, TransactionStateFromBytes, TransactionFailureReasonFromBytes, VirtualMachine.Execute"])

p("B01","What the transaction builder builds is accepted, balanced and correctly allotted",
 "For inputs to be unlocked by keys the signer has, or by chains earlier inputs consume (also ones just created), the transaction builder produces a transaction whose unlocks satisfy the ledger's ownership rules, with each key signing once and later uses referring to it, and whose context inputs, inputs, outputs and allotments are those requested in canonical form (an anchor counts as opening what it owns once it is consumed, whatever changes about it). "
 "The mana it stores and allots automatically equals the mana available from the inputs: nothing is lost or invented, mana of accounts (existing, just created or implicit) goes back to those accounts, and the allotment chosen for the block issuer covers the cost of the block that will carry it. "
 "When this is impossible or a sum overflows, Build returns an error rather than an invalid transaction. Asking for costs or remaining mana, building, and working on a clone leave the builder as it was.",
 ["programs","inputs"],"every sequence of builder calls with any inputs, outputs, owners, account-bound mana and allotment strategy",
 "Builder tests run a dozen call sequences and mostly check that building succeeds.",
 ["builder/transaction_builder.go"],[("TransactionBuilder.build","builder/transaction_builder.go"),("AllotMinRequiredManaAndStoreRemainingManaInOutput and siblings","builder/transaction_builder.go")],["SignedTransaction returned by the builder, judged by the ledger rules"])

p("B02","Output and block builders apply exactly what they are asked",
 "Building an output from a previous one keeps every field not asked to change and applies every requested change exactly once, with conditions and features in canonical order and without altering the previous output. It fails if immutable features changed or if an anchor would change both its state and its governance. "
 "Transition helpers apply only their own kind of change (block issuer or staking of an account), adding the feature they speak of when absent; the state index of an anchor is one more than before exactly for a state change, however often Build is called. "
 "A block built has exactly the fields last set, its parents sorted and without duplicates, and a signature that verifies if nothing was changed since signing; a failed signing makes Build fail.",
 ["programs"],"every sequence of builder calls on every kind of output and block, new or from a previous one",
 "Tests run one sequence per builder.",
 ["builder/output_builder_account.go","builder/output_builder_anchor.go","builder/output_builder_basic.go","builder/output_builder_delegation.go","builder/output_builder_foundry.go","builder/output_builder_nft.go","builder/block_builder.go"],[("output builders","builder/output_builder_*.go"),("block builders","builder/block_builder.go")],["outputs and blocks returned by Build"])

p("B03","Proof-of-work returns a valid nonce or stops when told",
 "With any number of parallel workers, mining returns without error only a nonce whose hash has at least the demanded number of trailing zeros for the given data. "
 "It ends with an error, promptly and leaving nothing running, when it is cancelled before a nonce is found or the demand is impossible, and it is safe to use one miner concurrently.",
 ["schedules","inputs"],"every interleaving of workers, discovery and cancellation, for any data and target",
 "The test mines one target and cancels once.",
 ["blockissuer/pow/worker.go","blockissuer/pow/pow.go"],[("Worker.Mine","blockissuer/pow/worker.go"),("TrailingZeros","blockissuer/pow/pow.go")],["Worker.Mine"])

p("B04","Keys, signers and addresses belong together",
 "A signer given keys for a set of addresses signs for exactly those addresses, including restricted forms of them, with the key that belongs to the address, reports missing keys as an error, and identifies the same key identically under every form of its address. "
 "A key manager derives the same key for the same seed, path and index every time, different keys for different (31-bit) indexes, the addresses and signer it hands out match those keys, and its mnemonic restores it. Copies (of keys, addresses, outputs, features and transactions) are equal to the original and share nothing that can change with it; two of them compare equal exactly if their encodings are the same. "
 "Signatures over blocks, attestations and transactions verify exactly for the signed content and key.",
 ["programs","inputs"],"every combination of seeds, indexes, address kinds and signed contents",
 "Tests check a fixed mnemonic and a few signatures; copies are tested for equality of single objects only.",
 ["address_signer.go","wallet/keymanager.go","block.go","attestation.go","signature_ed25519.go","address_multi.go","feat_blockissuer.go","block_issuer_key.go","output_delegation.go"],[("InMemoryAddressSigner","address_signer.go"),("KeyManager","wallet/keymanager.go"),("VerifySignature","block.go, attestation.go")],["AddressSigner, KeyManager, VerifySignature"])

p("B05","Textual addresses identify exactly one address and reject corruption",
 "Every address encodes to a text that decodes back to the same address and network prefix (a shared address to its reference, keeping restrictions). "
 "A text is accepted exactly if it follows the encoding rules: one case, allowed characters, a separator, a correct checksum, canonical padding and a known address kind of exact length. "
 "Replacing up to four characters of the data part by others of the alphabet never yields another accepted text.",
 ["inputs"],"every address, prefix and every text near an encoded address",
 "Tests use the reference vectors only.",
 ["bech32/bech32.go","bech32/checksum.go","address.go"],[("bech32.Encode/Decode","bech32/bech32.go"),("ParseBech32","address.go")],["bech32.Encode, bech32.Decode, ParseBech32, Address.Bech32"])

p("B06","Node clients return what the node said and nothing else",
 "A result set over a paged query visits every page exactly once in order and ends at the last one or at an error, and single-result queries return that result or a not-found error. "
 "An output fetched by identifier is returned only if the node's proof ties its content to that identifier, error statuses become the corresponding errors, and the client resolves protocol versions from what the node announced. "
 "Payloads sent to a block issuer carry a nonce satisfying its current demand and are otherwise unaltered.",
 ["histories","fault_sequences"],"every sequence of node responses, including wrong, partial and failing ones",
 "Tests mock single successful responses.",
 ["nodeclient/http.go","nodeclient/http_api_client.go","nodeclient/indexer_client.go","nodeclient/blockissuer_client.go"],[("IndexerResultSet.Next","nodeclient/indexer_client.go"),("Client.OutputByID","nodeclient/http_api_client.go"),("interpretBody","nodeclient/http.go")],["client method results against a scripted HTTP server"])

p("B07","Event subscriptions deliver what the node publishes",
 "Subscribing to an event asks the node, under exactly-once delivery, for the one topic of that event and of the object, address or tag it speaks of. Every message published under it that decodes to the event's kind of object reaches the consumer exactly once and unaltered, however slowly other subscriptions are read; one that does not decode is reported as an error and disturbs nothing else. "
 "A refused subscription returns the error and no channel, and subscribing without a live context and connection is refused as documented. Closing a subscription ends that topic only, a later subscription to the same topic takes it over, and nothing stays behind once the context has ended.",
 ["histories","schedules"],"every history of subscriptions, messages (also undecodable ones), consumers, refusals, disconnections and the end of the context",
 "The test subscribes once and receives one block.",
 ["nodeclient/event_api_client.go","api/endpoints.go"],[("subscribeToTopic","nodeclient/event_api_client.go"),("EventAPITopic constants","api/endpoints.go")],["channels of EventAPIClient against a scripted broker"])
p("B08","Messages of the node API keep their byte and JSON forms",
 "Every message a node and its clients exchange (info, issuance, block and transaction metadata, outputs, UTXO changes, congestion, validators, rewards, committee, indexer, management) has exactly one byte form and one JSON form: the fields in their order and widths, lengths in front of texts, lists and optional parts, 64-bit numbers, times and identifiers as texts in JSON, states by their names, and what is empty left out only where that is allowed. "
 "Reading either form back gives the message that was written, whatever its contents; bytes that end early are refused; JSON without a mandatory field is refused, and without an optional one gives the message with that part empty.",
 ["inputs"],"all 35 message types with all contents of their fields, all early ends of their bytes, and all ways to leave out one field of their JSON",
 "Tests encode one or two samples of each message to JSON; extreme numbers, empty and full lists, texts beyond ASCII, absent parts, the byte form and damaged messages are not covered.",
 ["api/core.go","api/management.go","api/indexer.go","api/root.go","api/blockissuer.go"],[("response and request types with their encoding tags","api/core.go, api/management.go, api/indexer.go"),("BlockState and TransactionState JSON","api/core.go"),("identifiers and numbers in JSON","identifier.gen.go, slot_identifier.gen.go, block_id.gen.go, mana.go, api_v3.go")],["API.Encode/Decode/JSONEncode/JSONDecode of the types of package api"])

p("S06","Copies and comparisons of objects are exact, lists keep their order",
 "A clone of an address, output, unlock condition, feature, input, unlock, payload, transaction or list of them equals its original and shares nothing with it: whatever is changed or added in one, the other stays as it was. Two objects are equal, asked from either side, exactly when all their contents are, and never across kinds. "
 "Feature and unlock condition lists replace, remove and look up by type and report duplicates; lists of keys, parents, inputs, allotments and identifiers sort into one total order, lose duplicates but nothing else. Identifiers give the same value back from their text and bytes, reveal their slot and index, carry an alias only while it is registered, refuse shorter forms and plain texts of any other length, and like addresses and indices read from a longer sequence take their own bytes only.",
 ["inputs","histories"],"every kind of object with all contents, and every history of copying, changing and extending original and copy; all lists and orders of operations on them; all identifiers, and all bytes or texts given for one",
 "Tests clone one sample of a few objects and compare; aliasing after an edit, equality that ignores a field, orders of equal entries and identifiers with extreme bytes are not covered.",
 ["output.go","address.go","feat.go","unlock_cond.go","block_issuer_key.go","transaction.go","identifier.gen.go","output_id.go"],[("Clone and Equal of the objects","output_*.go, address_*.go, feat_*.go, unlock_cond_*.go, unlock_*.go, transaction*.go"),("Features, UnlockConditions, BlockIssuerKeys","feat.go, unlock_cond.go, block_issuer_key.go"),("Compare, Sort, RemoveDupsAndSort, FromHexString, FromBytes of identifiers","*.gen.go, output_id.go")],["Clone/Equal of objects, list operations, Compare/Sort and conversions of identifiers"])


out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
except ImportError: pass
print(len(P),"properties")
