From 867ebe53d2d910cf2aa77c0bf349eedb4e3f10c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 01/42] fix: count only slots within the epoch for mana
 generation when the genesis slot is not zero

---
 mana_decay_provider.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/mana_decay_provider.go b/mana_decay_provider.go
index ea66b3a..46bd566 100644
--- a/mana_decay_provider.go
+++ b/mana_decay_provider.go
@@ -162,6 +162,26 @@ func (p *ManaDecayProvider) generateMana(value BaseToken, slotDiff SlotIndex) (M
 	return Mana(result), nil
 }
 
+// slotsBeforeNextEpoch returns the number of slots from the given slot to the start of the next epoch.
+// The result is independent of the genesis slot, because only slots within an epoch generate mana.
+func (p *ManaDecayProvider) slotsBeforeNextEpoch(slot SlotIndex) SlotIndex {
+	if slot < p.timeProvider.GenesisSlot() {
+		return 0
+	}
+
+	return p.timeProvider.EpochStart(p.timeProvider.EpochFromSlot(slot)+1) - slot
+}
+
+// slotsSinceEpochStart returns the number of slots from the start of the epoch of the given slot to that slot.
+// The result is independent of the genesis slot, because only slots within an epoch generate mana.
+func (p *ManaDecayProvider) slotsSinceEpochStart(slot SlotIndex) SlotIndex {
+	if slot < p.timeProvider.GenesisSlot() {
+		return 0
+	}
+
+	return slot - p.timeProvider.EpochStart(p.timeProvider.EpochFromSlot(slot))
+}
+
 // DecayManaBySlots applies the decay between the epochs corresponding to the creation and target slots to the given mana.
 func (p *ManaDecayProvider) DecayManaBySlots(mana Mana, creationSlot SlotIndex, targetSlot SlotIndex) (Mana, error) {
 	creationEpoch := p.timeProvider.EpochFromSlot(creationSlot)
@@ -203,7 +223,7 @@ func (p *ManaDecayProvider) GenerateManaAndDecayBySlots(amount BaseToken, creati
 	// case 1 means that the creationSlot and targetSlot belong to subsequent epochs.
 	// In that case, we generate the mana for the slots belonging to the first epoch and decay it, later we add it to the undecayed mana of the second epoch
 	case 1:
-		manaGeneratedFirstEpoch, err := p.generateMana(amount, p.timeProvider.SlotsBeforeNextEpoch(creationSlot))
+		manaGeneratedFirstEpoch, err := p.generateMana(amount, p.slotsBeforeNextEpoch(creationSlot))
 		if err != nil {
 			return 0, ierrors.Wrap(err, "failed to calculate generated mana in the first epoch")
 		}
@@ -213,7 +233,7 @@ func (p *ManaDecayProvider) GenerateManaAndDecayBySlots(amount BaseToken, creati
 			return 0, ierrors.Wrap(err, "failed to decay generated mana in the first epoch")
 		}
 
-		manaGeneratedSecondEpoch, err := p.generateMana(amount, p.timeProvider.SlotsSinceEpochStart(targetSlot))
+		manaGeneratedSecondEpoch, err := p.generateMana(amount, p.slotsSinceEpochStart(targetSlot))
 		if err != nil {
 			return 0, ierrors.Wrap(err, "failed to calculate generated mana in the second epoch")
 		}
@@ -228,7 +248,7 @@ func (p *ManaDecayProvider) GenerateManaAndDecayBySlots(amount BaseToken, creati
 	// the default case means that the creationSlot and targetSlot belong to separated epochs.
 	// Parts of the generated mana are decayed by epochDiff epochs, other parts by epochDiff-1, and other parts are not decayed at all
 	default:
-		manaGeneratedFirstEpoch, err := p.generateMana(amount, p.timeProvider.SlotsBeforeNextEpoch(creationSlot))
+		manaGeneratedFirstEpoch, err := p.generateMana(amount, p.slotsBeforeNextEpoch(creationSlot))
 		if err != nil {
 			return 0, ierrors.Wrap(err, "failed to calculate generated mana in the first epoch")
 		}
@@ -254,7 +274,7 @@ func (p *ManaDecayProvider) GenerateManaAndDecayBySlots(amount BaseToken, creati
 			return 0, ierrors.Wrap(err, "failed to decay generated mana in the intermediate epochs")
 		}
 
-		manaGeneratedLastEpoch, err := p.generateMana(amount, p.timeProvider.SlotsSinceEpochStart(targetSlot))
+		manaGeneratedLastEpoch, err := p.generateMana(amount, p.slotsSinceEpochStart(targetSlot))
 		if err != nil {
 			return 0, ierrors.Wrap(err, "failed to calculate generated mana in the last epoch")
 		}
-- 
2.43.0


From a84f1e40283fd402370a0dd46f2b0e2d779cda56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:17 +0000
Subject: [PATCH 02/42] fix: reject instead of panic when a foundry is created
 while its account is converted from an implicit account

---
 vm/nova/vm.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vm/nova/vm.go b/vm/nova/vm.go
index 9f41510..b96f128 100644
--- a/vm/nova/vm.go
+++ b/vm/nova/vm.go
@@ -808,8 +808,16 @@ func foundryGenesisValid(vmParams *vm.Params, current *iotago.FoundryOutput, thi
 		)
 	}
 
+	// the input can also be an implicit account, which cannot be the owner of a foundry.
+	inAccountOutput, ok := inAccount.Output.(*iotago.AccountOutput)
+	if !ok {
+		return ierrors.WithMessagef(iotago.ErrFoundryTransitionWithoutAccount,
+			"input with account ID %s for new foundry output %s is not an account output", accountID, thisFoundryID.ToHex(),
+		)
+	}
+
 	//nolint:forcetypeassert // we can safely assume that this is an AccountOutput
-	return foundrySerialNumberValid(vmParams, current, inAccount.Output.(*iotago.AccountOutput), outAccount.(*iotago.AccountOutput), thisFoundryID)
+	return foundrySerialNumberValid(vmParams, current, inAccountOutput, outAccount.(*iotago.AccountOutput), thisFoundryID)
 }
 
 func foundrySerialNumberValid(vmParams *vm.Params, current *iotago.FoundryOutput, inAccount *iotago.AccountOutput, outAccount *iotago.AccountOutput, thisFoundryID iotago.FoundryID) error {
-- 
2.43.0


From 9e98c173172590a0d8576349a915a30ec87319bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 03/42] fix: require a zero foundry counter when converting an
 implicit account

---
 vm/nova/vm.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vm/nova/vm.go b/vm/nova/vm.go
index b96f128..6aebc56 100644
--- a/vm/nova/vm.go
+++ b/vm/nova/vm.go
@@ -225,6 +225,13 @@ func implicitAccountSTVF(vmParams *vm.Params, implicitAccount *vm.ImplicitAccoun
 		return err
 	}
 
+	// An implicit account has not created any foundries and none can be created while it is converted.
+	if next.FoundryCounter != 0 {
+		return ierrors.WithMessagef(iotago.ErrAccountInvalidFoundryCounter,
+			"foundry counter of account converted from an implicit account must be zero, but is %d", next.FoundryCounter,
+		)
+	}
+
 	implicitAccountBlockIssuerFeature := &iotago.BlockIssuerFeature{
 		BlockIssuerKeys: iotago.NewBlockIssuerKeys(),
 		// Setting MaxSlotIndex means one cannot remove the block issuer feature in the transition, but it does allow for setting
-- 
2.43.0


From 75686286a1f58253d54c7d0b5dbb04d687f236eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 04/42] fix: count the payload length prefix in the size of a
 transaction that has a payload

---
 transaction_essence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction_essence.go b/transaction_essence.go
index d8dbc80..657a552 100644
--- a/transaction_essence.go
+++ b/transaction_essence.go
@@ -69,7 +69,7 @@ func (u *TransactionEssence) Clone() *TransactionEssence {
 func (u *TransactionEssence) Size() int {
 	payloadSize := serializer.PayloadLengthByteSize
 	if u.Payload != nil {
-		payloadSize = u.Payload.Size()
+		payloadSize += u.Payload.Size()
 	}
 
 	// NetworkID
-- 
2.43.0


From 2ebbf3a08dfd8668f4d2460a44aa1091d1bced9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:19 +0000
Subject: [PATCH 05/42] fix: assign times more than 292 years after the genesis
 to their slot

---
 timeprovider.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/timeprovider.go b/timeprovider.go
index f460b48..2914e5e 100644
--- a/timeprovider.go
+++ b/timeprovider.go
@@ -91,12 +91,15 @@ func (t *TimeProvider) SlotsPerEpochExponent() uint8 {
 // Note: The + 1 is required because slots are counted starting from 1 with 0 being reserved for times before the genesis,
 // which has to be addressable as its own slot.
 func (t *TimeProvider) SlotFromTime(targetTime time.Time) SlotIndex {
-	elapsed := targetTime.Sub(t.genesisTime)
-	if elapsed < 0 {
+	if targetTime.Before(t.genesisTime) {
 		return t.genesisSlot
 	}
 
-	return t.genesisSlot + SlotIndex(int64(elapsed/time.Second)/t.slotDurationSeconds) + 1
+	// the genesis is at a full second, so the difference of the Unix times is the number of full seconds elapsed.
+	// A time.Duration could only represent the first 292 years after the genesis.
+	elapsedSeconds := targetTime.Unix() - t.genesisUnixTime
+
+	return t.genesisSlot + SlotIndex(elapsedSeconds/t.slotDurationSeconds) + 1
 }
 
 // CurrentSlot calculates the current slot based on the current time.
-- 
2.43.0


From 6fe83785da6c6d252de5483d3bbdf3256b3ef57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:40 +0000
Subject: [PATCH 06/42] fix: report an overflow of generated mana instead of
 wrapping around

---
 mana_decay_provider.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mana_decay_provider.go b/mana_decay_provider.go
index 46bd566..a4ce69f 100644
--- a/mana_decay_provider.go
+++ b/mana_decay_provider.go
@@ -1,6 +1,8 @@
 package iotago
 
 import (
+	"math/bits"
+
 	"github.com/iotaledger/hive.go/core/safemath"
 	"github.com/iotaledger/hive.go/ierrors"
 	"github.com/iotaledger/hive.go/lo"
@@ -43,20 +45,18 @@ func fixedPointMultiplication32Splitted(valueHi uint64, valueLo uint64, factor u
 }
 
 // fixedPointMultiplication32 does a fixed point multiplication.
+// It returns an error if the result does not fit into 64 bits.
 func fixedPointMultiplication32(value uint64, factor uint64, scale uint64) (uint64, error) {
-	var remainingScale uint64
-	if scale > 32 {
-		remainingScale = scale - 32
-		scale = 32
+	productHi, productLo := bits.Mul64(value, factor)
+	if scale >= 64 {
+		return productHi >> (scale - 64), nil
 	}
-	valueHi, valueLo := splitUint64(value)
 
-	resultHi, resultLo, err := fixedPointMultiplication32Splitted(valueHi, valueLo, factor, scale)
-	if err != nil {
-		return 0, err
+	if productHi>>scale != 0 {
+		return 0, ierrors.WithMessagef(safemath.ErrIntegerOverflow, "fixed point multiplication of %d and %d with a scaling factor of %d", value, factor, scale)
 	}
 
-	return mergeUint64(resultHi, resultLo) >> remainingScale, nil
+	return productHi<<(64-scale) | productLo>>scale, nil
 }
 
 // ManaDecayProvider calculates the mana decay and mana generation
-- 
2.43.0


From 726dfbf5c2e6cb63808eac5d6e1a98efd2845a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:19 +0000
Subject: [PATCH 07/42] fix: read the protocol versions under the lock of the
 provider

---
 api_epoch_based_provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api_epoch_based_provider.go b/api_epoch_based_provider.go
index 356f7ba..892ec7f 100644
--- a/api_epoch_based_provider.go
+++ b/api_epoch_based_provider.go
@@ -217,6 +217,9 @@ func (e *EpochBasedProvider) ProtocolParametersHash(version Version) Identifier
 }
 
 func (e *EpochBasedProvider) ProtocolEpochVersions() []ProtocolEpochVersion {
+	e.mutex.RLock()
+	defer e.mutex.RUnlock()
+
 	return e.protocolVersions.Slice()
 }
 
-- 
2.43.0


From 4a46a90de9d072a9a97627d7f20daecb48897e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:21 +0000
Subject: [PATCH 08/42] fix: reject blocks committing to slots near the end of
 the slot range instead of overflowing

---
 block.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/block.go b/block.go
index b98835c..310c7fa 100644
--- a/block.go
+++ b/block.go
@@ -313,12 +313,12 @@ func (b *Block) syntacticallyValidate() error {
 
 	// check that commitment is not too recent.
 	if commitmentSlot > genesisSlot && // Don't filter commitments to genesis based on being too recent.
-		blockSlot < commitmentSlot+minCommittableAge {
+		uint64(blockSlot) < uint64(commitmentSlot)+uint64(minCommittableAge) {
 		return ierrors.WithMessagef(ErrCommitmentTooRecent, "block at slot %d committing to slot %d, min committable age %d", blockSlot, b.Header.SlotCommitmentID.Slot(), minCommittableAge)
 	}
 
 	// Check that commitment is not too old.
-	if blockSlot > commitmentSlot+maxCommittableAge {
+	if uint64(blockSlot) > uint64(commitmentSlot)+uint64(maxCommittableAge) {
 		return ierrors.WithMessagef(ErrCommitmentTooOld, "block at slot %d committing to slot %d, max committable age %d", blockSlot, b.Header.SlotCommitmentID.Slot(), maxCommittableAge)
 	}
 
@@ -427,11 +427,11 @@ func (b *BasicBlockBody) syntacticallyValidate(block *Block) error {
 			cInputSlot := cInput.CommitmentID.Slot()
 			// check that commitment input is not too recent.
 			if cInputSlot > 0 && // Don't filter commitments to genesis based on being too recent.
-				blockSlot < cInputSlot+minCommittableAge { // filter commitments to future slots.
+				uint64(blockSlot) < uint64(cInputSlot)+uint64(minCommittableAge) { // filter commitments to future slots.
 				return ierrors.WithMessagef(ErrCommitmentInputTooRecent, "block at slot %d with commitment input to slot %d, min committable age %d", blockSlot, cInput.CommitmentID.Slot(), minCommittableAge)
 			}
 			// Check that commitment input is not too old.
-			if blockSlot > cInputSlot+maxCommittableAge {
+			if uint64(blockSlot) > uint64(cInputSlot)+uint64(maxCommittableAge) {
 				return ierrors.WithMessagef(ErrCommitmentInputTooOld, "block at slot %d with commitment input to slot %d, max committable age %d", blockSlot, cInput.CommitmentID.Slot(), maxCommittableAge)
 			}
 
-- 
2.43.0


From 16cf3fe09afc85d61d7fd9865d4670fe3afc4d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 09/42] fix: accept commitment inputs to the genesis as not too
 recent when the genesis slot is not zero

---
 block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block.go b/block.go
index 310c7fa..7b21fa7 100644
--- a/block.go
+++ b/block.go
@@ -426,7 +426,7 @@ func (b *BasicBlockBody) syntacticallyValidate(block *Block) error {
 		if cInput := signedTransaction.Transaction.CommitmentInput(); cInput != nil {
 			cInputSlot := cInput.CommitmentID.Slot()
 			// check that commitment input is not too recent.
-			if cInputSlot > 0 && // Don't filter commitments to genesis based on being too recent.
+			if cInputSlot > block.API.ProtocolParameters().GenesisSlot() && // Don't filter commitments to genesis based on being too recent.
 				uint64(blockSlot) < uint64(cInputSlot)+uint64(minCommittableAge) { // filter commitments to future slots.
 				return ierrors.WithMessagef(ErrCommitmentInputTooRecent, "block at slot %d with commitment input to slot %d, min committable age %d", blockSlot, cInput.CommitmentID.Slot(), minCommittableAge)
 			}
-- 
2.43.0


From 2be07f78bd65892b5a7c4147545a670a9e3cc79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:47 +0000
Subject: [PATCH 10/42] fix: count token scheme and native token feature of
 foundries in the maximum block work

---
 workscore.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/workscore.go b/workscore.go
index e800728..0812cee 100644
--- a/workscore.go
+++ b/workscore.go
@@ -107,8 +107,8 @@ func (w WorkScoreParameters) MaxBlockWork() (WorkScore, error) {
 	// outputs factor for max number of outputs
 	addWorkScore(w.Output, MaxOutputsCount)
 
-	// native tokens factor for max number of outputs
-	addWorkScore(w.NativeToken, MaxOutputsCount)
+	// native tokens factor for max number of outputs, each a foundry (token scheme) with a native token feature
+	addWorkScore(w.NativeToken, MaxOutputsCount*2)
 
 	// staking factor for max number of outputs each with a staking feature
 	addWorkScore(w.Staking, MaxOutputsCount)
-- 
2.43.0


From 6aa5465b9ef3e921a402fc11af2ee7e0792c060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:45 +0000
Subject: [PATCH 11/42] fix: reject truncated Ed25519 signatures instead of
 panicking or reading past the input

---
 signature_ed25519.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signature_ed25519.go b/signature_ed25519.go
index 6c2e492..ca2753a 100644
--- a/signature_ed25519.go
+++ b/signature_ed25519.go
@@ -38,6 +38,10 @@ func (e *Ed25519Signature) Clone() Signature {
 }
 
 func (e *Ed25519Signature) Decode(b []byte) (int, error) {
+	if len(b) < Ed25519SignatureSerializedBytesSize-1 {
+		return 0, ierrors.Wrapf(serializer.ErrDeserializationNotEnoughData, "Ed25519 signature needs %d bytes but only %d are left", Ed25519SignatureSerializedBytesSize-1, len(b))
+	}
+
 	copy(e.PublicKey[:], b[:ed25519.PublicKeySize])
 	copy(e.Signature[:], b[ed25519.PublicKeySize:])
 
-- 
2.43.0


From 53d532c1af91eaa70d01e974c405b403a6f20011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:47 +0000
Subject: [PATCH 12/42] fix: parsing a textual address accepts exactly the
 payload of one valid address

---
 address.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/address.go b/address.go
index 49e8c3f..6e2422a 100644
--- a/address.go
+++ b/address.go
@@ -221,11 +221,15 @@ func ParseBech32(s string) (NetworkPrefix, Address, error) {
 	//nolint:exhaustive
 	switch addrType {
 	case AddressMulti:
-		multiAddrRef, _, err := MultiAddressReferenceFromBytes(addrData)
+		multiAddrRef, consumed, err := MultiAddressReferenceFromBytes(addrData)
 		if err != nil {
 			return "", nil, ierrors.Wrap(err, "invalid multi address")
 		}
 
+		if consumed != len(addrData) {
+			return "", nil, serializer.ErrDeserializationNotAllConsumed
+		}
+
 		return NetworkPrefix(hrp), multiAddrRef, nil
 
 	case AddressRestricted:
@@ -240,11 +244,19 @@ func ParseBech32(s string) (NetworkPrefix, Address, error) {
 			}
 
 			// get the address capabilities from the remaining bytes
-			capabilities, _, err := AddressCapabilitiesBitMaskFromBytes(addrData[1+consumed:])
+			capabilities, consumedCapabilities, err := AddressCapabilitiesBitMaskFromBytes(addrData[1+consumed:])
 			if err != nil {
 				return "", nil, ierrors.Wrap(err, "invalid restricted address capabilities")
 			}
 
+			if 1+consumed+consumedCapabilities != len(addrData) {
+				return "", nil, serializer.ErrDeserializationNotAllConsumed
+			}
+
+			if err := BitMaskNonTrailingZeroBytesValidatorFunc(capabilities); err != nil {
+				return "", nil, ierrors.Wrap(err, "invalid restricted address capabilities")
+			}
+
 			return NetworkPrefix(hrp), &RestrictedAddress{
 				Address:             multiAddrRef,
 				AllowedCapabilities: capabilities,
@@ -258,7 +270,7 @@ func ParseBech32(s string) (NetworkPrefix, Address, error) {
 	}
 
 	serixAPI := CommonSerixAPI()
-	n, err := serixAPI.Decode(context.TODO(), addrData, addr)
+	n, err := serixAPI.Decode(context.TODO(), addrData, addr, serix.WithValidation())
 	if err != nil {
 		return "", nil, err
 	}
-- 
2.43.0


From 54b609543fc65b7c83d6d9900cd72bd43f872bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:47 +0000
Subject: [PATCH 13/42] fix: bech32 decoding refuses non-ASCII letters that
 lower to ASCII ones

---
 bech32/bech32.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bech32/bech32.go b/bech32/bech32.go
index c6faca6..181f70f 100644
--- a/bech32/bech32.go
+++ b/bech32/bech32.go
@@ -3,6 +3,7 @@ package bech32
 
 import (
 	"strings"
+	"unicode/utf8"
 
 	"github.com/iotaledger/hive.go/ierrors"
 	"github.com/iotaledger/iota.go/v4/bech32/internal/base32"
@@ -87,6 +88,13 @@ func Decode(s string) (string, []byte, error) {
 		return "", nil, err
 	}
 
+	// the data part must only contain US-ASCII characters, as other characters could become valid ones when converted to lower
+	for i := hrpLen + 1; i < len(s); i++ {
+		if s[i] >= utf8.RuneSelf {
+			return "", nil, &SyntaxError{ierrors.WithMessage(ErrInvalidCharacter, "non-charset character in data part"), i}
+		}
+	}
+
 	// convert everything to lower
 	s = strings.ToLower(s)
 	hrp := s[:hrpLen]
-- 
2.43.0


From e4d458bfcedcee41f15b8bd05968cb3022291ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 14/42] fix: register the keys of restricted addresses under
 the underlying address in the in-memory signer

---
 address_signer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/address_signer.go b/address_signer.go
index 6dbcb7e..2396ea6 100644
--- a/address_signer.go
+++ b/address_signer.go
@@ -70,7 +70,13 @@ func NewInMemoryAddressSigner(addrKeys ...AddressKeys) AddressSigner {
 		addrKeys: map[string]interface{}{},
 	}
 	for _, c := range addrKeys {
-		ss.addrKeys[c.Address.Key()] = c.Keys
+		addr := c.Address
+		// the keys of a restricted address are looked up by its underlying address
+		if restrictedAddr, isRestricted := addr.(*RestrictedAddress); isRestricted {
+			addr = restrictedAddr.Address
+		}
+
+		ss.addrKeys[addr.Key()] = c.Keys
 	}
 
 	return ss
-- 
2.43.0


From 6c3a29541ac58ff44458999b15f2cee013e5fa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 15/42] fix: cloning a multi address panicked

---
 address_multi.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/address_multi.go b/address_multi.go
index 9a9a3d1..013781b 100644
--- a/address_multi.go
+++ b/address_multi.go
@@ -65,11 +65,11 @@ func (addr *MultiAddress) Clone() Address {
 		Threshold: addr.Threshold,
 	}
 
-	for i, address := range addr.Addresses {
-		cpy.Addresses[i] = &AddressWithWeight{
+	for _, address := range addr.Addresses {
+		cpy.Addresses = append(cpy.Addresses, &AddressWithWeight{
 			Address: address.Address.Clone(),
 			Weight:  address.Weight,
-		}
+		})
 	}
 
 	return cpy
-- 
2.43.0


From f1ff3b9b260084b87d5f56757519dfdc22398806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 16/42] fix: a cloned block issuer feature shared its keys with
 the original

---
 feat_blockissuer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feat_blockissuer.go b/feat_blockissuer.go
index 400d315..ad0f898 100644
--- a/feat_blockissuer.go
+++ b/feat_blockissuer.go
@@ -40,7 +40,7 @@ type BlockIssuerFeature struct {
 func (s *BlockIssuerFeature) Clone() Feature {
 	return &BlockIssuerFeature{
 		ExpirySlot:      s.ExpirySlot,
-		BlockIssuerKeys: s.BlockIssuerKeys,
+		BlockIssuerKeys: s.BlockIssuerKeys.Clone(),
 	}
 }
 
-- 
2.43.0


From b42882ba73deb672e7dbaa255d724735258e8854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 17/42] fix: a cloned delegation output shared its validator
 address with the original

---
 output_delegation.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/output_delegation.go b/output_delegation.go
index 3d85146..9ba71ae 100644
--- a/output_delegation.go
+++ b/output_delegation.go
@@ -113,10 +113,11 @@ type DelegationOutput struct {
 
 func (d *DelegationOutput) Clone() Output {
 	return &DelegationOutput{
-		Amount:           d.Amount,
-		DelegatedAmount:  d.DelegatedAmount,
-		DelegationID:     d.DelegationID,
-		ValidatorAddress: d.ValidatorAddress,
+		Amount:          d.Amount,
+		DelegatedAmount: d.DelegatedAmount,
+		DelegationID:    d.DelegationID,
+		//nolint:forcetypeassert // we can safely assume that this is an AccountAddress
+		ValidatorAddress: d.ValidatorAddress.Clone().(*AccountAddress),
 		StartEpoch:       d.StartEpoch,
 		EndEpoch:         d.EndEpoch,
 		UnlockConditions: d.UnlockConditions.Clone(),
-- 
2.43.0


From 72498c68af80b12ead067803b29c033a97c017f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 18/42] fix: attestations signed for the empty public key
 verified

---
 attestation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/attestation.go b/attestation.go
index bf194e5..5d3c5fc 100644
--- a/attestation.go
+++ b/attestation.go
@@ -3,6 +3,7 @@ package iotago
 import (
 	"bytes"
 	"context"
+	"crypto/ed25519"
 
 	hiveEd25519 "github.com/iotaledger/hive.go/crypto/ed25519"
 	"github.com/iotaledger/hive.go/ierrors"
@@ -111,6 +112,10 @@ func (a *Attestation) VerifySignature() (valid bool, err error) {
 		return false, ierrors.Errorf("only ed2519 signatures supported, got %s", a.Signature.Type())
 	}
 
+	if edSig.PublicKey == [ed25519.PublicKeySize]byte{} {
+		return false, ierrors.New("ed25519 public key must not be empty")
+	}
+
 	return hiveEd25519.Verify(edSig.PublicKey[:], signingMessage, edSig.Signature[:]), nil
 }
 
-- 
2.43.0


From 5e4096f8d4c860c81d81cfd83c6cc6502e410324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 19/42] fix: BlockIssuerKeyFromBytes could not decode any key

---
 block_issuer_key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block_issuer_key.go b/block_issuer_key.go
index 7f6a39e..45cfad5 100644
--- a/block_issuer_key.go
+++ b/block_issuer_key.go
@@ -177,7 +177,7 @@ func BlockIssuerKeyFromReader(reader io.ReadSeeker) (BlockIssuerKey, error) {
 func BlockIssuerKeyFromBytes(bytes []byte) (BlockIssuerKey, int, error) {
 	var blockIssuerKey BlockIssuerKey
 
-	n, err := CommonSerixAPI().Decode(context.TODO(), bytes, blockIssuerKey)
+	n, err := CommonSerixAPI().Decode(context.TODO(), bytes, &blockIssuerKey)
 	if err != nil {
 		return nil, 0, ierrors.Wrap(err, "unable to decode block issuer key")
 	}
-- 
2.43.0


From e54591d7a51c1b6f0c4000c9ea02e4a2abeb9b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 20/42] fix: KeyManager.Path handed out its internal path

---
 wallet/keymanager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wallet/keymanager.go b/wallet/keymanager.go
index 856615c..6e65293 100644
--- a/wallet/keymanager.go
+++ b/wallet/keymanager.go
@@ -80,8 +80,8 @@ func (k *KeyManager) KeyPair(index ...uint32) (ed25519.PrivateKey, ed25519.Publi
 
 func (k *KeyManager) Path(index ...uint32) bip32path.Path {
 	if len(index) == 0 {
-		// no additional index given, use the internal path
-		return k.path
+		// no additional index given, use a copy of the internal path
+		return lo.CopySlice(k.path)
 	}
 
 	// new index given, check if the internal path contains the index part
-- 
2.43.0


From 6f200321c08eaa5868563f1d71509031f08a6851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 21/42] fix: KeyManager.Mnemonic panicked for managers made
 from a mnemonic

---
 wallet/keymanager.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/wallet/keymanager.go b/wallet/keymanager.go
index 6e65293..9708997 100644
--- a/wallet/keymanager.go
+++ b/wallet/keymanager.go
@@ -24,6 +24,8 @@ const (
 type KeyManager struct {
 	seed []byte
 	path bip32path.Path
+	// the mnemonic the seed was derived from, if there is one.
+	mnemonic bip39.Mnemonic
 }
 
 // NewKeyManagerFromRandom creates a new key manager from random entropy.
@@ -49,7 +51,13 @@ func NewKeyManagerFromMnemonic(mnemonic string, path string) (*KeyManager, error
 		return nil, ierrors.Wrap(err, "failed to convert mnemonic to seed")
 	}
 
-	return NewKeyManager(seed, path)
+	keyManager, err := NewKeyManager(seed, path)
+	if err != nil {
+		return nil, err
+	}
+	keyManager.mnemonic = mnemonicSentence
+
+	return keyManager, nil
 }
 
 // NewKeyManager creates a new key manager.
@@ -100,6 +108,10 @@ func (k *KeyManager) Path(index ...uint32) bip32path.Path {
 
 // Mnemonic returns the mnemonic of the key manager.
 func (k *KeyManager) Mnemonic() bip39.Mnemonic {
+	if k.mnemonic != nil {
+		return lo.CopySlice(k.mnemonic)
+	}
+
 	mnemonic, err := bip39.EntropyToMnemonic(k.seed)
 	if err != nil {
 		panic(ierrors.Wrap(err, "failed to convert seed to mnemonic"))
-- 
2.43.0


From d36be1182e104886e6585bf2f895540bd5d7c61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 22/42] fix: BlockIssuerTransition and StakingTransition lost a
 feature the output did not have before

---
 builder/output_builder_account.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/output_builder_account.go b/builder/output_builder_account.go
index 37a659e..fdb9b1c 100644
--- a/builder/output_builder_account.go
+++ b/builder/output_builder_account.go
@@ -169,6 +169,7 @@ func (builder *AccountOutputBuilder) BlockIssuerTransition() *BlockIssuerTransit
 			BlockIssuerKeys: iotago.NewBlockIssuerKeys(),
 			ExpirySlot:      0,
 		}
+		builder.output.Features.Upsert(blockIssuerFeature)
 	}
 
 	return &BlockIssuerTransition{
@@ -188,6 +189,7 @@ func (builder *AccountOutputBuilder) StakingTransition() *StakingTransition {
 			StartEpoch:   0,
 			EndEpoch:     0,
 		}
+		builder.output.Features.Upsert(stakingFeature)
 	}
 
 	return &StakingTransition{
-- 
2.43.0


From 16bf889b4b858bd15aba130bb21b89a240c4b60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 23/42] fix: AnchorOutputBuilder.Build raised the state index
 again every time it was called

---
 builder/output_builder_anchor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/output_builder_anchor.go b/builder/output_builder_anchor.go
index d875d24..6de4e75 100644
--- a/builder/output_builder_anchor.go
+++ b/builder/output_builder_anchor.go
@@ -117,7 +117,7 @@ func (builder *AnchorOutputBuilder) Build() (*iotago.AnchorOutput, error) {
 
 	if builder.prev != nil {
 		if builder.stateCtrlReq {
-			builder.output.StateIndex++
+			builder.output.StateIndex = builder.prev.StateIndex + 1
 		}
 		if !builder.prev.ImmutableFeatures.Equal(builder.output.ImmutableFeatures) {
 			return nil, ierrors.New("immutable features are not allowed to be changed")
-- 
2.43.0


From bbbfa0580d554351c785ee7caad3b178262064c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 24/42] fix: transaction builder did not find chains unlocked
 by the input that created them

---
 builder/transaction_builder.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/builder/transaction_builder.go b/builder/transaction_builder.go
index 1584b8e..f06d64f 100644
--- a/builder/transaction_builder.go
+++ b/builder/transaction_builder.go
@@ -732,7 +732,7 @@ func (b *TransactionBuilder) build(signEssence bool) (*iotago.SignedTransaction,
 
 			// always mark the chain as unlocked in case the output is a chain output.
 			// e.g. "an NFT owns an NFT".
-			unlockedSet.addChainAsUnlocked(inputs[inputIndex], inputIndex)
+			unlockedSet.addChainAsUnlocked(inputIDs[inputIndex], inputs[inputIndex], inputIndex)
 
 			// skip the rest of the input processing because we don't need to sign chain inputs
 			continue
@@ -777,7 +777,7 @@ func (b *TransactionBuilder) build(signEssence bool) (*iotago.SignedTransaction,
 
 		// always mark the chain as unlocked in case the output is a chain output
 		// e.g. "an NFT owned by an ed25519 address".
-		unlockedSet.addChainAsUnlocked(inputs[inputIndex], inputIndex)
+		unlockedSet.addChainAsUnlocked(inputIDs[inputIndex], inputs[inputIndex], inputIndex)
 	}
 
 	sigTxPayload := &iotago.SignedTransaction{
@@ -826,9 +826,16 @@ func (u *txBuilderUnlockedSet) addSignerUID(signerUID iotago.Identifier, unlocke
 // addChainAsUnlocked marks the underlying chain address as unlocked at "unlockedAtIndex".
 // This is only done if the output is a chain output and the chain ID is addressable,
 // which is only valid for AccountOutput, AnchorOutput and NFTOutput.
-func (u *txBuilderUnlockedSet) addChainAsUnlocked(input iotago.Output, unlockedAtIndex int) {
+// If the chain was created by the given input, the chain ID is derived from its output ID.
+func (u *txBuilderUnlockedSet) addChainAsUnlocked(inputID iotago.OutputID, input iotago.Output, unlockedAtIndex int) {
 	if chainInput, is := input.(iotago.ChainOutput); is && chainInput.ChainID().Addressable() {
-		u.unlockedChains[chainInput.ChainID().ToAddress().Key()] = unlockedAtIndex
+		chainID := chainInput.ChainID()
+		if chainID.Empty() {
+			if utxoIDChainID, is := chainID.(iotago.UTXOIDChainID); is {
+				chainID = utxoIDChainID.FromOutputID(inputID)
+			}
+		}
+		u.unlockedChains[chainID.ToAddress().Key()] = unlockedAtIndex
 	}
 }
 
-- 
2.43.0


From 0c5b52fd0e1a89e772f5ed817c01491f5a6aa532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 25/42] fix: transaction builder treated the mana of new and
 implicit accounts as free

---
 builder/transaction_builder.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/builder/transaction_builder.go b/builder/transaction_builder.go
index f06d64f..78b969b 100644
--- a/builder/transaction_builder.go
+++ b/builder/transaction_builder.go
@@ -574,6 +574,27 @@ func (a *AvailableManaResult) AddAccountBoundMana(accountID iotago.AccountID, va
 	return nil
 }
 
+// accountIDForAccountBoundMana returns the ID of the account the mana of the given input is bound to.
+// Mana is bound to an account if the input is an account or an implicit account.
+// The account ID is derived from the input ID if the account was created by the input.
+func accountIDForAccountBoundMana(inputID iotago.OutputID, input iotago.Output) (iotago.AccountID, bool) {
+	switch output := input.(type) {
+	case *iotago.AccountOutput:
+		if output.AccountID.Empty() {
+			return iotago.AccountIDFromOutputID(inputID), true
+		}
+
+		return output.AccountID, true
+
+	case *iotago.BasicOutput:
+		if addressUnlock := output.UnlockConditionSet().Address(); addressUnlock != nil && addressUnlock.Address.Type() == iotago.AddressImplicitAccountCreation {
+			return iotago.AccountIDFromOutputID(inputID), true
+		}
+	}
+
+	return iotago.EmptyAccountID, false
+}
+
 // CalculateAvailableManaInputs calculates the available mana on the input side
 // including mana generation and decay and the rewards.
 func (b *TransactionBuilder) CalculateAvailableManaInputs(targetSlot iotago.SlotIndex) (*AvailableManaResult, error) {
@@ -604,13 +625,13 @@ func (b *TransactionBuilder) CalculateAvailableManaInputs(targetSlot iotago.Slot
 			return nil, err
 		}
 
-		if accountOutput, isAccountOutput := input.(*iotago.AccountOutput); isAccountOutput {
+		if accountID, isAccountBound := accountIDForAccountBoundMana(inputID, input); isAccountBound {
 			inputTotalMana, err := safemath.SafeAdd(inputPotentialMana, inputStoredMana)
 			if err != nil {
 				return nil, ierrors.Wrap(err, "failed to add input mana")
 			}
 
-			if err := result.AddAccountBoundMana(accountOutput.AccountID, inputTotalMana); err != nil {
+			if err := result.AddAccountBoundMana(accountID, inputTotalMana); err != nil {
 				return nil, err
 			}
 		} else {
-- 
2.43.0


From 62d75942f1ff0e9bac05da19c13a96cf96ff7984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 26/42] fix: transaction builder let sums of rewards,
 allotments and stored mana wrap around

---
 builder/transaction_builder.go | 36 ++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/builder/transaction_builder.go b/builder/transaction_builder.go
index 78b969b..54f5d22 100644
--- a/builder/transaction_builder.go
+++ b/builder/transaction_builder.go
@@ -100,7 +100,12 @@ func (b *TransactionBuilder) AddBlockIssuanceCreditInput(blockIssuanceCreditInpu
 // AddRewardInput adds the given reward input to the builder.
 func (b *TransactionBuilder) AddRewardInput(rewardInput *iotago.RewardInput, mana iotago.Mana) *TransactionBuilder {
 	b.transaction.TransactionEssence.ContextInputs = append(b.transaction.TransactionEssence.ContextInputs, rewardInput)
-	b.rewards += mana
+
+	rewards, err := safemath.SafeAdd(b.rewards, mana)
+	if err != nil {
+		return b.setBuildError(ierrors.Wrap(err, "failed to add the rewards"))
+	}
+	b.rewards = rewards
 
 	return b
 }
@@ -114,7 +119,12 @@ func (b *TransactionBuilder) IncreaseAllotment(accountID iotago.AccountID, value
 	// check if the allotment already exists and add the value on top
 	for _, allotment := range b.transaction.Allotments {
 		if allotment.AccountID == accountID {
-			allotment.Mana += value
+			allottedMana, err := safemath.SafeAdd(allotment.Mana, value)
+			if err != nil {
+				return b.setBuildError(ierrors.Wrapf(err, "failed to increase the allotment of account %s", accountID.ToHex()))
+			}
+			allotment.Mana = allottedMana
+
 			return b
 		}
 	}
@@ -275,20 +285,28 @@ func (b *TransactionBuilder) storeRemainingManaInOutput(targetSlot iotago.SlotIn
 	// check if there is account bound mana that is bound to the same account as the stored mana output
 	if !storedManaOutputAccountID.Empty() {
 		if accountBoundMana, exists := remainingMana.AccountBoundMana[storedManaOutputAccountID]; exists {
-			remainingManaBalance += accountBoundMana
+			remainingManaBalance, err = safemath.SafeAdd(remainingManaBalance, accountBoundMana)
+			if err != nil {
+				return ierrors.Wrap(err, "failed to add the account bound mana to the remaining mana")
+			}
 		}
 	}
 
+	storedMana, err := safemath.SafeAdd(b.transaction.Outputs[storedManaOutputIndex].StoredMana(), remainingManaBalance)
+	if err != nil {
+		return ierrors.Wrap(err, "failed to add the remaining mana to the stored mana of the output")
+	}
+
 	// move the remaining mana to stored mana on the specified output index
 	switch output := b.transaction.Outputs[storedManaOutputIndex].(type) {
 	case *iotago.BasicOutput:
-		output.Mana += remainingManaBalance
+		output.Mana = storedMana
 	case *iotago.AccountOutput:
-		output.Mana += remainingManaBalance
+		output.Mana = storedMana
 	case *iotago.AnchorOutput:
-		output.Mana += remainingManaBalance
+		output.Mana = storedMana
 	case *iotago.NFTOutput:
-		output.Mana += remainingManaBalance
+		output.Mana = storedMana
 	}
 
 	return nil
@@ -665,7 +683,9 @@ func (b *TransactionBuilder) MinRequiredAllottedMana(rmc iotago.Mana, blockIssue
 	}()
 
 	// add a dummy allotment to account for the later added allotment for the block issuer in case it does not exist yet
-	b.IncreaseAllotment(blockIssuerAccountID, 1074)
+	if b.transaction.Allotments.Get(blockIssuerAccountID) == 0 {
+		b.IncreaseAllotment(blockIssuerAccountID, 1074)
+	}
 
 	// the transaction is "signed" with empty signatures to get the correct workscore.
 	// later the transaction needs to be signed with the correct signer, after the allotted mana was set correctly.
-- 
2.43.0


From d91d883d4baa1f0479c5fe01b84c0630244f6b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 27/42] fix: node client lost the HTTP status error if the
 error body was not JSON

---
 nodeclient/http.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/nodeclient/http.go b/nodeclient/http.go
index 48bf16e..77538fd 100644
--- a/nodeclient/http.go
+++ b/nodeclient/http.go
@@ -85,18 +85,18 @@ func interpretBody(ctx context.Context, serixAPI *serix.API, res *http.Response,
 		return err
 	}
 
-	errRes := &HTTPErrorResponseEnvelope{}
-	if len(resBody) > 0 {
-		if err := json.Unmarshal(resBody, errRes); err != nil {
-			return ierrors.Wrap(err, "unable to read error from response body")
-		}
-	}
-
 	err, ok := httpCodeToErr[res.StatusCode]
 	if !ok {
 		err = ErrHTTPUnknownError
 	}
 
+	errRes := &HTTPErrorResponseEnvelope{}
+	if len(resBody) > 0 {
+		if jsonErr := json.Unmarshal(resBody, errRes); jsonErr != nil {
+			return ierrors.WithMessagef(err, "url %s, unable to read error from response body: %s", res.Request.URL.String(), jsonErr)
+		}
+	}
+
 	return ierrors.WithMessagef(err, "url %s, error message: %s", res.Request.URL.String(), errRes.Error.Message)
 }
 
-- 
2.43.0


From f797baeae239b638afa3d657d1438c3280c93e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 28/42] fix: node client took a reply without content for a
 decoded response

---
 nodeclient/http.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nodeclient/http.go b/nodeclient/http.go
index 77538fd..65f4a3c 100644
--- a/nodeclient/http.go
+++ b/nodeclient/http.go
@@ -57,6 +57,10 @@ func interpretBody(ctx context.Context, serixAPI *serix.API, res *http.Response,
 	defer res.Body.Close()
 
 	if res.StatusCode == http.StatusNoContent {
+		if decodeTo != nil {
+			return ierrors.Errorf("url %s, the response has no content", res.Request.URL.String())
+		}
+
 		return nil
 	}
 
-- 
2.43.0


From cdd93ead4fc1c2ac443ce7940da0c83b55be565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 29/42] fix: indexer client panicked if the node returned an
 output of another type

---
 nodeclient/indexer_client.go | 40 +++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/nodeclient/indexer_client.go b/nodeclient/indexer_client.go
index 7f86996..ed94562 100644
--- a/nodeclient/indexer_client.go
+++ b/nodeclient/indexer_client.go
@@ -178,8 +178,12 @@ func (client *indexerClient) Account(ctx context.Context, accountAddress *iotago
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an AccountOutput
-	return outputID, output.(*iotago.AccountOutput), ledgerIndex, nil
+	accountOutput, ok := output.(*iotago.AccountOutput)
+	if !ok {
+		return nil, nil, ledgerIndex, ierrors.Errorf("output %s is of type %s, expected an AccountOutput", outputID.ToHex(), output.Type())
+	}
+
+	return outputID, accountOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) Anchor(ctx context.Context, anchorAddress *iotago.AnchorAddress) (*iotago.OutputID, *iotago.AnchorOutput, iotago.SlotIndex, error) {
@@ -188,8 +192,12 @@ func (client *indexerClient) Anchor(ctx context.Context, anchorAddress *iotago.A
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an AnchorOutput
-	return outputID, output.(*iotago.AnchorOutput), ledgerIndex, nil
+	anchorOutput, ok := output.(*iotago.AnchorOutput)
+	if !ok {
+		return nil, nil, ledgerIndex, ierrors.Errorf("output %s is of type %s, expected an AnchorOutput", outputID.ToHex(), output.Type())
+	}
+
+	return outputID, anchorOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) Foundry(ctx context.Context, foundryID iotago.FoundryID) (*iotago.OutputID, *iotago.FoundryOutput, iotago.SlotIndex, error) {
@@ -198,8 +206,12 @@ func (client *indexerClient) Foundry(ctx context.Context, foundryID iotago.Found
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an FoundryOutput
-	return outputID, output.(*iotago.FoundryOutput), ledgerIndex, nil
+	foundryOutput, ok := output.(*iotago.FoundryOutput)
+	if !ok {
+		return nil, nil, ledgerIndex, ierrors.Errorf("output %s is of type %s, expected a FoundryOutput", outputID.ToHex(), output.Type())
+	}
+
+	return outputID, foundryOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) NFT(ctx context.Context, nftAddress *iotago.NFTAddress) (*iotago.OutputID, *iotago.NFTOutput, iotago.SlotIndex, error) {
@@ -208,8 +220,12 @@ func (client *indexerClient) NFT(ctx context.Context, nftAddress *iotago.NFTAddr
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an NFTOutput
-	return outputID, output.(*iotago.NFTOutput), ledgerIndex, nil
+	nftOutput, ok := output.(*iotago.NFTOutput)
+	if !ok {
+		return nil, nil, ledgerIndex, ierrors.Errorf("output %s is of type %s, expected an NFTOutput", outputID.ToHex(), output.Type())
+	}
+
+	return outputID, nftOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) Delegation(ctx context.Context, delegationID iotago.DelegationID) (*iotago.OutputID, *iotago.DelegationOutput, iotago.SlotIndex, error) {
@@ -218,6 +234,10 @@ func (client *indexerClient) Delegation(ctx context.Context, delegationID iotago
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is a DelegationOutput
-	return outputID, output.(*iotago.DelegationOutput), ledgerIndex, nil
+	delegationOutput, ok := output.(*iotago.DelegationOutput)
+	if !ok {
+		return nil, nil, ledgerIndex, ierrors.Errorf("output %s is of type %s, expected a DelegationOutput", outputID.ToHex(), output.Type())
+	}
+
+	return outputID, delegationOutput, ledgerIndex, nil
 }
-- 
2.43.0


From 283f916163f73164c703ae0bf9ebbae995e4ad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 30/42] fix: indexer client panicked on or padded malformed
 output IDs

---
 nodeclient/indexer_client.go | 13 +++++++++++--
 output_id.go                 |  4 ++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/nodeclient/indexer_client.go b/nodeclient/indexer_client.go
index ed94562..c9e843e 100644
--- a/nodeclient/indexer_client.go
+++ b/nodeclient/indexer_client.go
@@ -81,7 +81,11 @@ func (resultSet *IndexerResultSet) Next() bool {
 
 // Outputs collects/fetches the outputs result from the query.
 func (resultSet *IndexerResultSet) Outputs(ctx context.Context) (iotago.Outputs[iotago.Output], error) {
-	outputIDs := resultSet.Response.Items.MustOutputIDs()
+	outputIDs, err := resultSet.Response.Items.OutputIDs()
+	if err != nil {
+		return nil, ierrors.Wrap(err, "unable to read the output IDs of the response")
+	}
+
 	outputs := make(iotago.Outputs[iotago.Output], len(outputIDs))
 	for i, outputID := range outputIDs {
 		output, err := resultSet.client.OutputByID(ctx, outputID)
@@ -163,7 +167,12 @@ func (client *indexerClient) singleOutputQuery(ctx context.Context, route string
 		return nil, nil, res.CommittedSlot, ierrors.WithMessagef(ErrIndexerNotFound, "route %s", route)
 	}
 
-	outputID := res.Items.MustOutputIDs()[0]
+	outputIDs, err := res.Items.OutputIDs()
+	if err != nil {
+		return nil, nil, res.CommittedSlot, ierrors.Wrap(err, "unable to read the output IDs of the response")
+	}
+
+	outputID := outputIDs[0]
 	output, err := client.core.OutputByID(ctx, outputID)
 	if err != nil {
 		return nil, nil, res.CommittedSlot, err
diff --git a/output_id.go b/output_id.go
index 2677f9d..4220ee4 100644
--- a/output_id.go
+++ b/output_id.go
@@ -3,6 +3,7 @@ package iotago
 import (
 	"encoding/binary"
 
+	"github.com/iotaledger/hive.go/ierrors"
 	"github.com/iotaledger/hive.go/serializer/v2"
 	"github.com/iotaledger/iota.go/v4/hexutil"
 )
@@ -139,6 +140,9 @@ func (ids HexOutputIDs) OutputIDs() (OutputIDs, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(val) != OutputIDLength {
+			return nil, ierrors.Errorf("invalid output ID length: expected %d bytes, got %d", OutputIDLength, len(val))
+		}
 		copy(vals[i][:], val)
 	}
 
-- 
2.43.0


From 224881b3632a3e910a613820d4b638acb39e0e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 31/42] fix: indexer result set ended at an empty page although
 there were more pages

---
 nodeclient/indexer_client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nodeclient/indexer_client.go b/nodeclient/indexer_client.go
index c9e843e..468e11a 100644
--- a/nodeclient/indexer_client.go
+++ b/nodeclient/indexer_client.go
@@ -76,7 +76,8 @@ func (resultSet *IndexerResultSet) Next() bool {
 	resultSet.query.SetOffset(&resultSet.Response.Cursor)
 	resultSet.firstQueryDone = true
 
-	return len(resultSet.Response.Items) > 0
+	// a page can be empty although the node has more of them
+	return len(resultSet.Response.Items) > 0 || resultSet.Response.Cursor != ""
 }
 
 // Outputs collects/fetches the outputs result from the query.
-- 
2.43.0


From 81db9a75a6e11d7b36ad5f30df2ae59f4978c72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 32/42] fix: node client was made without protocol parameters
 if the node announced none

---
 nodeclient/http_api_client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nodeclient/http_api_client.go b/nodeclient/http_api_client.go
index 262e74d..3dbd325 100644
--- a/nodeclient/http_api_client.go
+++ b/nodeclient/http_api_client.go
@@ -113,6 +113,10 @@ func New(baseURL string, opts ...ClientOption) (*Client, error) {
 		client.apiProvider.AddProtocolParametersAtEpoch(params.Parameters, params.StartEpoch)
 	}
 
+	if client.apiProvider.CommittedAPI() == nil {
+		return nil, ierrors.New("the node did not announce any protocol parameters")
+	}
+
 	return client, nil
 }
 
-- 
2.43.0


From 1c2261c468b2b07bff90369f4e6b5482fa5bd163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 33/42] fix: validating a block overwrote the memory behind its
 strong parents

---
 block.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/block.go b/block.go
index 7b21fa7..a7f64bf 100644
--- a/block.go
+++ b/block.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/ed25519"
 	"fmt"
+	"slices"
 	"time"
 
 	"golang.org/x/crypto/blake2b"
@@ -293,7 +294,7 @@ func (b *Block) syntacticallyValidate() error {
 	block := b.Body
 	if len(block.WeakParentIDs()) > 0 {
 		// weak parents must be disjunct to the rest of the parents
-		nonWeakParents := lo.KeyOnlyBy(append(block.StrongParentIDs(), block.ShallowLikeParentIDs()...), func(v BlockID) BlockID {
+		nonWeakParents := lo.KeyOnlyBy(slices.Concat(block.StrongParentIDs(), block.ShallowLikeParentIDs()), func(v BlockID) BlockID {
 			return v
 		})
 
-- 
2.43.0


From aa9267ccc5781a080b5eaae0c74a8e411df1e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:23 +0000
Subject: [PATCH 34/42] fix: Bytes() of shared protocol parameters raced with
 other goroutines encoding or hashing them

---
 api_v3_protocol_parameters.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index 281bcff..9fef59f 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -147,19 +147,16 @@ func (p *V3ProtocolParameters) ChainSwitchingThreshold() uint8 {
 }
 
 func (p *V3ProtocolParameters) Bytes() ([]byte, error) {
-	if len(p.bytes) > 0 {
-		return p.bytes, nil
-	}
-
 	p.bytesMutex.Lock()
 	defer p.bytesMutex.Unlock()
 
-	// Check if some other goroutine cached the bytes while waiting for the lock.
+	// Check if some other goroutine already cached the bytes.
 	if len(p.bytes) > 0 {
 		return p.bytes, nil
 	}
 
-	bytes, err := CommonSerixAPI().Encode(context.TODO(), p)
+	// Encoding copies the whole struct, so use one without the cached values that other goroutines might be computing.
+	bytes, err := CommonSerixAPI().Encode(context.TODO(), &V3ProtocolParameters{basicProtocolParameters: p.basicProtocolParameters})
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c9b8f0e0a5e92e2c658977e378847dfd987f69e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:23 +0000
Subject: [PATCH 35/42] fix: sanity checks of protocol parameters wrapped
 around on large values

---
 api_v3_protocol_parameters.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index 9fef59f..01baaf0 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -353,7 +353,7 @@ func timeSanityCheck(protocolParams *V3ProtocolParameters) {
 	if protocolParams.LivenessThresholdLowerBoundInSeconds > protocolParams.LivenessThresholdUpperBoundInSeconds {
 		panic("LivenessThresholdLowerBoundInSeconds must be less than or equal to LivenessThresholdUpperBoundInSeconds")
 	}
-	if SlotIndex(protocolParams.LivenessThresholdUpperBoundInSeconds) >= protocolParams.MinCommittableAge()*SlotIndex(protocolParams.SlotDurationInSeconds()) {
+	if uint64(protocolParams.LivenessThresholdUpperBoundInSeconds) >= uint64(protocolParams.MinCommittableAge())*uint64(protocolParams.SlotDurationInSeconds()) {
 		panic("LivenessThresholdUpperBoundInSeconds must be strictly less than MinCommittableAge * SlotDurationInSeconds")
 	}
 	if protocolParams.MinCommittableAge() >= protocolParams.MaxCommittableAge() {
@@ -369,11 +369,13 @@ func timeSanityCheck(protocolParams *V3ProtocolParameters) {
 }
 
 func congestionControlSanityCheck(protocolParams *V3ProtocolParameters) {
-	if protocolParams.CongestionControlParameters().IncreaseThreshold > WorkScore(protocolParams.SlotDurationInSeconds())*protocolParams.CongestionControlParameters().SchedulerRate {
+	// the product can exceed the range of the WorkScore type
+	slotCapacity := uint64(protocolParams.SlotDurationInSeconds()) * uint64(protocolParams.CongestionControlParameters().SchedulerRate)
+	if uint64(protocolParams.CongestionControlParameters().IncreaseThreshold) > slotCapacity {
 		fmt.Printf("IncreaseThreshold: %d, SchedulerRate: %d, SlotDurationSeconds: %d\n", protocolParams.CongestionControlParameters().IncreaseThreshold, protocolParams.CongestionControlParameters().SchedulerRate, protocolParams.SlotDurationInSeconds())
 		panic("IncreaseThreshold must be less than or equal to SchedulerRate*SlotDurationInSeconds")
 	}
-	if protocolParams.CongestionControlParameters().DecreaseThreshold > WorkScore(protocolParams.SlotDurationInSeconds())*protocolParams.CongestionControlParameters().SchedulerRate {
+	if uint64(protocolParams.CongestionControlParameters().DecreaseThreshold) > slotCapacity {
 		panic("DecreaseThreshold must be less than or equal to SchedulerRate*SlotDurationInSeconds")
 	}
 	if protocolParams.CongestionControlParameters().DecreaseThreshold > protocolParams.CongestionControlParameters().IncreaseThreshold {
-- 
2.43.0


From ad375af73b4d8f13a01fcdfb49686bdd1d26169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:23 +0000
Subject: [PATCH 36/42] fix: token supplies next to a power of two were counted
 with a bit too many

---
 api_v3_protocol_parameters.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index 01baaf0..7216a08 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"math"
+	"math/bits"
 	"sync"
 	"time"
 
@@ -384,7 +385,7 @@ func congestionControlSanityCheck(protocolParams *V3ProtocolParameters) {
 }
 
 func stakingSanityCheck(protocolParams *V3ProtocolParameters) {
-	tokenSupplyBitsCount := uint8(math.Log2(float64(protocolParams.TokenSupply()))) + 1
+	tokenSupplyBitsCount := uint8(bits.Len64(uint64(protocolParams.TokenSupply())))
 	poolCoefficientExponent := protocolParams.RewardsParameters().PoolCoefficientExponent
 	if poolCoefficientExponent > 64 || tokenSupplyBitsCount+poolCoefficientExponent > 64 {
 		message := fmt.Sprintf("Token supply bits count (%d) + PoolCoefficientExponent (%d) must be less than or equal to 64\n", tokenSupplyBitsCount, protocolParams.RewardsParameters().PoolCoefficientExponent)
-- 
2.43.0


From 6b5fc45912cd1cc417961e76a05f34ad3861e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:23 +0000
Subject: [PATCH 37/42] fix: the failure reason of an error that wraps no other
 was lost

---
 api/core.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/core.go b/api/core.go
index 364111c..7c9eef0 100644
--- a/api/core.go
+++ b/api/core.go
@@ -445,6 +445,8 @@ func unwrapErrors(err error, errList []error) []error {
 func DetermineTransactionFailureReason(err error) TransactionFailureReason {
 	errorList := make([]error, 0)
 	errorList = unwrapErrors(err, errorList)
+	// The error itself is the least detailed one (and the only one if it does not wrap another).
+	errorList = append(errorList, err)
 
 	// Map the error to the transaction failure reason.
 	// The strategy is to map the first failure reason that exists in order of most-detailed to least-detailed error.
-- 
2.43.0


From 5f114669db8cc9d0518ef53bfad04c8a396ac7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:23 +0000
Subject: [PATCH 38/42] fix: burning native tokens without the capability was
 reported as an unbalanced sum

---
 vm/vm.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vm/vm.go b/vm/vm.go
index 47fa9ac..dccce61 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -841,9 +841,12 @@ func ExecFuncBalancedNativeTokens() ExecFunc {
 
 			outSum := vmParams.WorkingSet.OutNativeTokens[nativeTokenID]
 
-			if vmParams.WorkingSet.Tx.Capabilities.CannotBurnNativeTokens() && (outSum == nil || inSum.Cmp(outSum) != 0) {
+			if vmParams.WorkingSet.Tx.Capabilities.CannotBurnNativeTokens() && (outSum == nil || inSum.Cmp(outSum) == 1) {
 				// if burning is not allowed, the input sum must be equal to the output sum
-				return ierrors.WithMessagef(iotago.ErrTxCapabilitiesNativeTokenBurningNotAllowed, "%w: native token %s is less on output (%d) than input (%d) side but burning is not allowed in the transaction and the foundry is absent for melting", iotago.ErrNativeTokenSumUnbalanced, nativeTokenID, outSum, inSum)
+				return ierrors.Chain(
+					iotago.ErrNativeTokenSumUnbalanced,
+					ierrors.WithMessagef(iotago.ErrTxCapabilitiesNativeTokenBurningNotAllowed, "native token %s is less on output (%d) than input (%d) side but burning is not allowed in the transaction and the foundry is absent for melting", nativeTokenID, outSum, inSum),
+				)
 			} else if (outSum != nil) && (inSum.Cmp(outSum) == -1) {
 				// input sum must be greater equal the output sum (burning allows it to be greater)
 				return ierrors.WithMessagef(iotago.ErrNativeTokenSumUnbalanced, "native token %s is less on input (%d) than output (%d) side but the foundry is absent for minting", nativeTokenID, inSum, outSum)
-- 
2.43.0


From ddb93f03340c1faaf89c1694f69b0eb50af40fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 39/42] fix: refuse protocol parameters whose initial target
 reward exceeds 64 bits

---
 api_v3_protocol_parameters.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index 7216a08..6ded0d8 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -333,6 +333,9 @@ func deriveTargetRewardsRates(protoParams ProtocolParameters) (Mana, Mana) {
 	decayBalancingConstant := 1 / math.Pow(annualDecayFactor, bootstrappingDurationInYears)
 
 	initialTargetRewardsRate := float64(finalTargetRewardsRate) * decayBalancingConstant
+	if initialTargetRewardsRate >= math.Pow(2.0, 64.0) {
+		panic("failed to calculate target reward due to overflow of the initial target rewards rate")
+	}
 
 	return Mana(initialTargetRewardsRate), Mana(finalTargetRewardsRate)
 }
-- 
2.43.0


From 7978403196b3cf92c7435cd450cc16e71e831b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 40/42] fix: refuse texts of another length when unmarshalling
 identifiers

---
 block_id.gen.go              | 4 ++++
 commitment_id.gen.go         | 4 ++++
 gen/identifier.tmpl          | 4 ++++
 gen/slot_identifier.tmpl     | 4 ++++
 identifier.gen.go            | 4 ++++
 identifier_account.gen.go    | 4 ++++
 identifier_anchor.gen.go     | 4 ++++
 output_id.gen.go             | 4 ++++
 signed_transaction_id.gen.go | 4 ++++
 transaction_id.gen.go        | 4 ++++
 10 files changed, 40 insertions(+)

diff --git a/block_id.gen.go b/block_id.gen.go
index e98d820..24784b1 100644
--- a/block_id.gen.go
+++ b/block_id.gen.go
@@ -92,6 +92,10 @@ func (b BlockID) MarshalText() (text []byte, err error) {
 }
 
 func (b *BlockID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(len(b)) {
+		return ierrors.Errorf("invalid BlockID text length: expected %d characters, got %d", hex.EncodedLen(len(b)), len(text))
+	}
+
 	_, err := hex.Decode(b[:], text)
 
 	return err
diff --git a/commitment_id.gen.go b/commitment_id.gen.go
index 1ea2a0f..a63a265 100644
--- a/commitment_id.gen.go
+++ b/commitment_id.gen.go
@@ -92,6 +92,10 @@ func (c CommitmentID) MarshalText() (text []byte, err error) {
 }
 
 func (c *CommitmentID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(len(c)) {
+		return ierrors.Errorf("invalid CommitmentID text length: expected %d characters, got %d", hex.EncodedLen(len(c)), len(text))
+	}
+
 	_, err := hex.Decode(c[:], text)
 
 	return err
diff --git a/gen/identifier.tmpl b/gen/identifier.tmpl
index 114670f..172c9c9 100644
--- a/gen/identifier.tmpl
+++ b/gen/identifier.tmpl
@@ -84,6 +84,10 @@ func ({{.Receiver}} {{.Name}}) MarshalText() (text []byte, err error) {
 }
 
 func ({{.Receiver}} *{{.Name}}) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(len({{.Receiver}})) {
+		return ierrors.Errorf("invalid {{.Name}} text length: expected %d characters, got %d", hex.EncodedLen(len({{.Receiver}})), len(text))
+	}
+
 	_, err := hex.Decode({{.Receiver}}[:], text)
 
 	return err
diff --git a/gen/slot_identifier.tmpl b/gen/slot_identifier.tmpl
index 4ee3a39..542c8e8 100644
--- a/gen/slot_identifier.tmpl
+++ b/gen/slot_identifier.tmpl
@@ -108,6 +108,10 @@ func ({{.Receiver}} {{.Name}}) MarshalText() (text []byte, err error) {
 }
 
 func ({{.Receiver}} *{{.Name}}) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(len({{.Receiver}})) {
+		return ierrors.Errorf("invalid {{.Name}} text length: expected %d characters, got %d", hex.EncodedLen(len({{.Receiver}})), len(text))
+	}
+
 	_, err := hex.Decode({{.Receiver}}[:], text)
 
 	return err
diff --git a/identifier.gen.go b/identifier.gen.go
index 9039988..8840ea7 100644
--- a/identifier.gen.go
+++ b/identifier.gen.go
@@ -84,6 +84,10 @@ func (i Identifier) MarshalText() (text []byte, err error) {
 }
 
 func (i *Identifier) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(len(i)) {
+		return ierrors.Errorf("invalid Identifier text length: expected %d characters, got %d", hex.EncodedLen(len(i)), len(text))
+	}
+
 	_, err := hex.Decode(i[:], text)
 
 	return err
diff --git a/identifier_account.gen.go b/identifier_account.gen.go
index 155f55d..f7568ae 100644
--- a/identifier_account.gen.go
+++ b/identifier_account.gen.go
@@ -84,6 +84,10 @@ func (a AccountID) MarshalText() (text []byte, err error) {
 }
 
 func (a *AccountID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(len(a)) {
+		return ierrors.Errorf("invalid AccountID text length: expected %d characters, got %d", hex.EncodedLen(len(a)), len(text))
+	}
+
 	_, err := hex.Decode(a[:], text)
 
 	return err
diff --git a/identifier_anchor.gen.go b/identifier_anchor.gen.go
index 32f009d..95055be 100644
--- a/identifier_anchor.gen.go
+++ b/identifier_anchor.gen.go
@@ -84,6 +84,10 @@ func (a AnchorID) MarshalText() (text []byte, err error) {
 }
 
 func (a *AnchorID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(len(a)) {
+		return ierrors.Errorf("invalid AnchorID text length: expected %d characters, got %d", hex.EncodedLen(len(a)), len(text))
+	}
+
 	_, err := hex.Decode(a[:], text)
 
 	return err
diff --git a/output_id.gen.go b/output_id.gen.go
index 77af5e6..b9d8e5d 100644
--- a/output_id.gen.go
+++ b/output_id.gen.go
@@ -82,6 +82,10 @@ func (o OutputID) MarshalText() (text []byte, err error) {
 }
 
 func (o *OutputID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(len(o)) {
+		return ierrors.Errorf("invalid OutputID text length: expected %d characters, got %d", hex.EncodedLen(len(o)), len(text))
+	}
+
 	_, err := hex.Decode(o[:], text)
 
 	return err
diff --git a/signed_transaction_id.gen.go b/signed_transaction_id.gen.go
index 8ecf09f..e6b7828 100644
--- a/signed_transaction_id.gen.go
+++ b/signed_transaction_id.gen.go
@@ -92,6 +92,10 @@ func (t SignedTransactionID) MarshalText() (text []byte, err error) {
 }
 
 func (t *SignedTransactionID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(len(t)) {
+		return ierrors.Errorf("invalid SignedTransactionID text length: expected %d characters, got %d", hex.EncodedLen(len(t)), len(text))
+	}
+
 	_, err := hex.Decode(t[:], text)
 
 	return err
diff --git a/transaction_id.gen.go b/transaction_id.gen.go
index 85b702b..6ba4a99 100644
--- a/transaction_id.gen.go
+++ b/transaction_id.gen.go
@@ -92,6 +92,10 @@ func (t TransactionID) MarshalText() (text []byte, err error) {
 }
 
 func (t *TransactionID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(len(t)) {
+		return ierrors.Errorf("invalid TransactionID text length: expected %d characters, got %d", hex.EncodedLen(len(t)), len(text))
+	}
+
 	_, err := hex.Decode(t[:], text)
 
 	return err
-- 
2.43.0


From c33dc48facca1738b88478caa6de3be50f04ba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 41/42] fix: report the bytes an identifier consumed, not all
 that were given

---
 gen/identifier.tmpl       | 2 +-
 identifier.gen.go         | 2 +-
 identifier_account.gen.go | 2 +-
 identifier_anchor.gen.go  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gen/identifier.tmpl b/gen/identifier.tmpl
index 172c9c9..8b9dab0 100644
--- a/gen/identifier.tmpl
+++ b/gen/identifier.tmpl
@@ -69,7 +69,7 @@ func {{.Name}}FromBytes(bytes []byte) ({{.Name}}, int, error) {
 	}
 	copy({{.Receiver}}[:], bytes)
 
-	return {{.Receiver}}, len(bytes), nil
+	return {{.Receiver}}, {{.Name}}Length, nil
 }
 
 func ({{.Receiver}} {{.Name}}) Bytes() ([]byte, error) {
diff --git a/identifier.gen.go b/identifier.gen.go
index 8840ea7..963f3d6 100644
--- a/identifier.gen.go
+++ b/identifier.gen.go
@@ -69,7 +69,7 @@ func IdentifierFromBytes(bytes []byte) (Identifier, int, error) {
 	}
 	copy(i[:], bytes)
 
-	return i, len(bytes), nil
+	return i, IdentifierLength, nil
 }
 
 func (i Identifier) Bytes() ([]byte, error) {
diff --git a/identifier_account.gen.go b/identifier_account.gen.go
index f7568ae..705de17 100644
--- a/identifier_account.gen.go
+++ b/identifier_account.gen.go
@@ -69,7 +69,7 @@ func AccountIDFromBytes(bytes []byte) (AccountID, int, error) {
 	}
 	copy(a[:], bytes)
 
-	return a, len(bytes), nil
+	return a, AccountIDLength, nil
 }
 
 func (a AccountID) Bytes() ([]byte, error) {
diff --git a/identifier_anchor.gen.go b/identifier_anchor.gen.go
index 95055be..be094f0 100644
--- a/identifier_anchor.gen.go
+++ b/identifier_anchor.gen.go
@@ -69,7 +69,7 @@ func AnchorIDFromBytes(bytes []byte) (AnchorID, int, error) {
 	}
 	copy(a[:], bytes)
 
-	return a, len(bytes), nil
+	return a, AnchorIDLength, nil
 }
 
 func (a AnchorID) Bytes() ([]byte, error) {
-- 
2.43.0


From b4b1feacc610fb044dfdb7037050283335300d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 42/42] fix: refuse output ID texts of another length instead
 of crashing on short ones

---
 output_id.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/output_id.go b/output_id.go
index 4220ee4..73dcb5a 100644
--- a/output_id.go
+++ b/output_id.go
@@ -86,6 +86,10 @@ func (oih OutputIDHex) SplitParts() (*TransactionID, uint16, error) {
 	if err != nil {
 		return nil, 0, err
 	}
+	if err := IsValidOutputID(outputIDBytes); err != nil {
+		return nil, 0, err
+	}
+
 	var txID TransactionID
 	copy(txID[:], outputIDBytes[:TransactionIDLength])
 	outputIndex := binary.LittleEndian.Uint16(outputIDBytes[TransactionIDLength : TransactionIDLength+serializer.UInt16ByteSize])
-- 
2.43.0

