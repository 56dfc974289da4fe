package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/binary"
	"fmt"
	"math"
	"sort"

	"golang.org/x/crypto/blake2b"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
)

// ---- independent derivations (not through the library under test) ----

func hash32(parts ...[]byte) (h [32]byte) {
	d, _ := blake2b.New256(nil)
	for _, p := range parts {
		d.Write(p)
	}
	copy(h[:], d.Sum(nil))
	return
}

const maxKeys = 200

var privKeys [maxKeys + 1]ed25519.PrivateKey
var keyRank [maxKeys + 1]int

func initKeys() {
	type kr struct {
		n int
		h [32]byte
	}
	var ks []kr
	for i := 0; i <= maxKeys; i++ {
		seed := hash32([]byte(fmt.Sprintf("verif key %d", i)))
		privKeys[i] = ed25519.NewKeyFromSeed(seed[:])
		{
			ks = append(ks, kr{i, keyHash(i)})
		}
	}
	sort.Slice(ks, func(a, b int) bool { return bytes.Compare(ks[a].h[:], ks[b].h[:]) < 0 })
	for r, k := range ks {
		keyRank[k.n] = r + 1
	}
}

func pubKey(n int) ed25519.PublicKey { return privKeys[n].Public().(ed25519.PublicKey) }
func keyHash(n int) [32]byte         { return hash32(pubKey(n)) }

// outputID bytes: 32 byte hash, slot, index
func oid(in *In) (id iotago.OutputID) {
	h := hash32([]byte(fmt.Sprintf("verif tx %d", in.Tx)))
	copy(id[:32], h[:])
	binary.LittleEndian.PutUint32(id[32:], uint32(in.Slot))
	binary.LittleEndian.PutUint16(id[36:], uint16(in.Idx))
	return
}

type binder struct {
	rec *Rec
	ps  *PSet
	own map[int][32]byte // chain symbols bound to output IDs
}

func newBinder(r *Rec) *binder {
	b := &binder{rec: r, ps: psets[r.P], own: map[int][32]byte{}}
	for i := range r.Ins {
		if r.Ins[i].Own != 0 {
			id := oid(&r.Ins[i])
			b.own[r.Ins[i].Own] = hash32(id[:])
		}
	}
	return b
}

func (b *binder) chain(n int) [32]byte {
	if n == 0 {
		return [32]byte{}
	}
	if h, ok := b.own[n]; ok {
		return h
	}
	return hash32([]byte(fmt.Sprintf("verif chain %d", n)))
}

func tick(v int) uint32 {
	if v == maxTick {
		return math.MaxUint32
	}
	return uint32(v)
}

func bitmask(x []int) []byte {
	if len(x) == 0 {
		return nil
	}
	out := make([]byte, len(x))
	for i, v := range x {
		out[i] = byte(v)
	}
	return out
}

func (b *binder) addr(a Addr) iotago.Address {
	switch a.K {
	case "ed":
		h := iotago.Ed25519Address(keyHash(a.N))
		return &h
	case "imp":
		h := iotago.ImplicitAccountCreationAddress(keyHash(a.N))
		return &h
	case "acc":
		h := iotago.AccountAddress(b.chain(a.N))
		return &h
	case "anc":
		h := iotago.AnchorAddress(b.chain(a.N))
		return &h
	case "nft":
		h := iotago.NFTAddress(b.chain(a.N))
		return &h
	case "restr":
		return &iotago.RestrictedAddress{Address: b.addr(*a.In), AllowedCapabilities: bitmask(a.Bm)}
	case "multi":
		m := &iotago.MultiAddress{Threshold: uint16(a.Thr)}
		for _, s := range a.Subs {
			m.Addresses = append(m.Addresses, &iotago.AddressWithWeight{Address: b.addr(s.A), Weight: byte(s.W)})
		}
		return m
	}
	panic("address kind " + a.K)
}

// addrID is the identity of an address by which shared addresses are ordered.
func (b *binder) addrID(a Addr) []byte {
	h32 := func(t byte, h [32]byte) []byte { return append([]byte{t}, h[:]...) }
	switch a.K {
	case "ed":
		return h32(0, keyHash(a.N))
	case "acc":
		return h32(8, b.chain(a.N))
	case "nft":
		return h32(16, b.chain(a.N))
	case "anc":
		return h32(24, b.chain(a.N))
	case "imp":
		return h32(32, keyHash(a.N))
	case "restr":
		id := append([]byte{48}, b.addrID(*a.In)...)
		if len(a.Bm) == 0 {
			return append(id, 0)
		}
		id = append(id, byte(len(a.Bm)))
		return append(id, bitmask(a.Bm)...)
	case "multi":
		return h32(40, hash32([]byte(fmt.Sprintf("%v", a))))
	}
	panic("address kind " + a.K)
}

// rank fills in the ranks the specification needs to judge canonical order.
func (b *binder) rankAddr(a *Addr) {
	if a.K == "restr" {
		b.rankAddr(a.In)
	}
	if a.K != "multi" {
		return
	}
	ids := make([][]byte, len(a.Subs))
	for i := range a.Subs {
		b.rankAddr(&a.Subs[i].A)
		ids[i] = b.addrID(a.Subs[i].A)
	}
	for i := range a.Subs {
		r := 1
		for j := range ids {
			if bytes.Compare(ids[j], ids[i]) < 0 {
				r++
			}
		}
		a.Subs[i].R = r
	}
}

func (b *binder) sortMulti(a *Addr) {
	if a.K == "restr" {
		b.sortMulti(a.In)
	}
	if a.K == "multi" {
		sort.SliceStable(a.Subs, func(i, j int) bool { return bytes.Compare(b.addrID(a.Subs[i].A), b.addrID(a.Subs[j].A)) < 0 })
	}
}

func eachAddr(r *Rec, f func(*Addr)) {
	outF := func(o *Out) {
		for i := range o.UC {
			if o.UC[i].K != 2 {
				f(&o.UC[i].A)
			}
		}
		for i := range o.Ft {
			if o.Ft[i].K <= 1 {
				f(&o.Ft[i].A)
			}
		}
		for i := range o.Imf {
			if o.Imf[i].K <= 1 {
				f(&o.Imf[i].A)
			}
		}
	}
	for i := range r.Ins {
		outF(&r.Ins[i].Out)
	}
	for i := range r.Tx.Outs {
		outF(&r.Tx.Outs[i])
	}
}

func (b *binder) rankAll() {
	r := b.rec
	eachAddr(r, b.rankAddr)
	rankBy := func(ids [][32]byte) []int {
		out := make([]int, len(ids))
		for i := range ids {
			out[i] = 1
			for j := range ids {
				if bytes.Compare(ids[j][:], ids[i][:]) < 0 {
					out[i]++
				}
			}
		}
		return out
	}
	var ids [][32]byte
	for _, a := range r.Tx.Allot {
		ids = append(ids, b.chain(a.Acc))
	}
	for i, v := range rankBy(ids) {
		r.Tx.Allot[i].R = v
	}
	ids = nil
	for _, c := range r.Tx.Ctx {
		ids = append(ids, b.chain(c.Acc))
	}
	for i, v := range rankBy(ids) {
		r.Tx.Ctx[i].R = v
	}
	eachFt(r, func(f *Ft) {
		for i := range f.Keys {
			f.Keys[i].R = keyRank[f.Keys[i].N]
		}
	})
}

func eachFt(r *Rec, g func(*Ft)) {
	do := func(o *Out) {
		for i := range o.Ft {
			g(&o.Ft[i])
		}
		for i := range o.Imf {
			g(&o.Imf[i])
		}
	}
	for i := range r.Ins {
		do(&r.Ins[i].Out)
	}
	for i := range r.Tx.Outs {
		do(&r.Tx.Outs[i])
	}
}

// canon puts ids-ordered lists of a record into canonical order.
func (b *binder) canon() {
	r := b.rec
	eachAddr(r, b.sortMulti)
	sort.SliceStable(r.Tx.Allot, func(i, j int) bool {
		x, y := b.chain(r.Tx.Allot[i].Acc), b.chain(r.Tx.Allot[j].Acc)
		return bytes.Compare(x[:], y[:]) < 0
	})
	cl := map[string]int{"cmt": 0, "bic": 1, "rew": 2}
	sort.SliceStable(r.Tx.Ctx, func(i, j int) bool {
		x, y := r.Tx.Ctx[i], r.Tx.Ctx[j]
		if x.K != y.K {
			return cl[x.K] < cl[y.K]
		}
		if x.K == "rew" {
			return x.Idx < y.Idx
		}
		p, q := b.chain(x.Acc), b.chain(y.Acc)
		return bytes.Compare(p[:], q[:]) < 0
	})
	eachFt(r, func(f *Ft) {
		sort.SliceStable(f.Keys, func(i, j int) bool { return keyRank[f.Keys[i].N] < keyRank[f.Keys[j].N] })
	})
}

func content(kind string, id, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = kind[0]
	}
	if n > 0 {
		out[0] = byte(33 + id)
	}
	return out
}

// entKey: distinct (key,kl,bad) have distinct keys
func entKey(e Ent) string {
	k := make([]byte, e.KL)
	for i := range k {
		k[i] = 'x'
	}
	if len(k) > 0 {
		k[0] = byte(33 + e.Key)
	}
	if len(k) > 0 && e.Bad == 1 {
		k[len(k)-1] = 0x20
	}
	if len(k) > 0 && e.Bad == 2 {
		k[len(k)-1] = 0x7f
	}
	return string(k)
}

func (b *binder) fid(f FID) (id iotago.FoundryID) {
	id[0] = 8
	h := b.chain(f.Acc)
	copy(id[1:33], h[:])
	binary.LittleEndian.PutUint32(id[33:37], uint32(f.Sn))
	id[37] = byte(f.Sch)
	return
}

func (b *binder) feature(f Ft) iotago.Feature {
	switch f.K {
	case 0:
		return &iotago.SenderFeature{Address: b.addr(f.A)}
	case 1:
		return &iotago.IssuerFeature{Address: b.addr(f.A)}
	case 2:
		m := iotago.MetadataFeatureEntries{}
		for _, e := range f.Ents {
			m[iotago.MetadataFeatureEntriesKey(entKey(e))] = content("v", e.V, e.VL)
		}
		return &iotago.MetadataFeature{Entries: m}
	case 3:
		m := iotago.StateMetadataFeatureEntries{}
		for _, e := range f.Ents {
			m[iotago.StateMetadataFeatureEntriesKey(entKey(e))] = content("v", e.V, e.VL)
		}
		return &iotago.StateMetadataFeature{Entries: m}
	case 4:
		return &iotago.TagFeature{Tag: content("t", f.Tag, f.Len)}
	case 5:
		return &iotago.NativeTokenFeature{ID: b.fid(f.ID), Amount: f.Amt.big()}
	case 6:
		keys := iotago.BlockIssuerKeys{}
		for _, k := range f.Keys {
			keys = append(keys, &iotago.Ed25519PublicKeyHashBlockIssuerKey{PublicKeyHash: keyHash(k.N)})
		}
		return &iotago.BlockIssuerFeature{ExpirySlot: iotago.SlotIndex(tick(f.Exp)), BlockIssuerKeys: keys}
	case 7:
		return &iotago.StakingFeature{StakedAmount: iotago.BaseToken(f.Amt.U64()), FixedCost: iotago.Mana(f.Cost.U64()), StartEpoch: iotago.EpochIndex(tick(f.Start)), EndEpoch: iotago.EpochIndex(tick(f.End))}
	}
	panic("feature kind")
}

func (b *binder) cond(u UC) iotago.UnlockCondition {
	switch u.K {
	case 0:
		return &iotago.AddressUnlockCondition{Address: b.addr(u.A)}
	case 1:
		return &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: b.addr(u.A), Amount: iotago.BaseToken(u.Amt.U64())}
	case 2:
		return &iotago.TimelockUnlockCondition{Slot: iotago.SlotIndex(tick(u.Slot))}
	case 3:
		return &iotago.ExpirationUnlockCondition{ReturnAddress: b.addr(u.A), Slot: iotago.SlotIndex(tick(u.Slot))}
	case 4:
		return &iotago.StateControllerAddressUnlockCondition{Address: b.addr(u.A)}
	case 5:
		return &iotago.GovernorAddressUnlockCondition{Address: b.addr(u.A)}
	case 6:
		return &iotago.ImmutableAccountUnlockCondition{Address: b.addr(u.A).(*iotago.AccountAddress)}
	}
	panic("unlock condition kind")
}

func conds[T iotago.UnlockCondition](b *binder, us []UC) (out iotago.UnlockConditions[T]) {
	for _, u := range us {
		out = append(out, b.cond(u).(T))
	}
	return
}
func feats[T iotago.Feature](b *binder, fs []Ft) (out iotago.Features[T]) {
	for _, f := range fs {
		out = append(out, b.feature(f).(T))
	}
	return
}

func (b *binder) output(o Out) iotago.TxEssenceOutput {
	amt, mana := iotago.BaseToken(o.Amt.U64()), iotago.Mana(o.Mana.U64())
	switch o.T {
	case "basic":
		return &iotago.BasicOutput{Amount: amt, Mana: mana, UnlockConditions: conds[iotago.BasicOutputUnlockCondition](b, o.UC), Features: feats[iotago.BasicOutputFeature](b, o.Ft)}
	case "account":
		return &iotago.AccountOutput{Amount: amt, Mana: mana, AccountID: b.chain(o.ID), FoundryCounter: tick(o.Fc), UnlockConditions: conds[iotago.AccountOutputUnlockCondition](b, o.UC), Features: feats[iotago.AccountOutputFeature](b, o.Ft), ImmutableFeatures: feats[iotago.AccountOutputImmFeature](b, o.Imf)}
	case "anchor":
		return &iotago.AnchorOutput{Amount: amt, Mana: mana, AnchorID: b.chain(o.ID), StateIndex: tick(o.Si), UnlockConditions: conds[iotago.AnchorOutputUnlockCondition](b, o.UC), Features: feats[iotago.AnchorOutputFeature](b, o.Ft), ImmutableFeatures: feats[iotago.AnchorOutputImmFeature](b, o.Imf)}
	case "nft":
		return &iotago.NFTOutput{Amount: amt, Mana: mana, NFTID: b.chain(o.ID), UnlockConditions: conds[iotago.NFTOutputUnlockCondition](b, o.UC), Features: feats[iotago.NFTOutputFeature](b, o.Ft), ImmutableFeatures: feats[iotago.NFTOutputImmFeature](b, o.Imf)}
	case "foundry":
		return &iotago.FoundryOutput{Amount: amt, SerialNumber: tick(o.Sn), TokenScheme: &iotago.SimpleTokenScheme{MintedTokens: o.Minted.big(), MeltedTokens: o.Melted.big(), MaximumSupply: o.Max.big()}, UnlockConditions: conds[iotago.FoundryOutputUnlockCondition](b, o.UC), Features: feats[iotago.FoundryOutputFeature](b, o.Ft), ImmutableFeatures: feats[iotago.FoundryOutputImmFeature](b, o.Imf)}
	case "deleg":
		val := iotago.AccountAddress(b.chain(o.Val))
		return &iotago.DelegationOutput{Amount: amt, DelegatedAmount: iotago.BaseToken(o.DAmt.U64()), DelegationID: b.chain(o.ID), ValidatorAddress: &val, StartEpoch: iotago.EpochIndex(tick(o.Start)), EndEpoch: iotago.EpochIndex(tick(o.End)), UnlockConditions: conds[iotago.DelegationOutputUnlockCondition](b, o.UC)}
	}
	panic("output kind " + o.T)
}

func (b *binder) commitment() *iotago.Commitment {
	if b.rec.Cmt < 0 {
		return nil
	}
	return &iotago.Commitment{ProtocolVersion: b.ps.Params.Version(), Slot: iotago.SlotIndex(b.rec.Cmt), ReferenceManaCost: 1, RootsID: iotago.Identifier(hash32([]byte("roots")))}
}

func (b *binder) tx() *iotago.Transaction {
	t := b.rec.Tx
	ess := &iotago.TransactionEssence{CreationSlot: iotago.SlotIndex(tick(t.Slot)), Capabilities: bitmask(t.Caps)}
	ess.NetworkID = b.ps.Params.NetworkID()
	if t.Net != 1 {
		ess.NetworkID ^= 1
	}
	for _, c := range t.Ctx {
		switch c.K {
		case "cmt":
			id := iotago.CommitmentID{}
			if cm := b.commitment(); cm != nil {
				id = cm.MustID()
			}
			ess.ContextInputs = append(ess.ContextInputs, &iotago.CommitmentInput{CommitmentID: id})
		case "bic":
			ess.ContextInputs = append(ess.ContextInputs, &iotago.BlockIssuanceCreditInput{AccountID: b.chain(c.Acc)})
		case "rew":
			ess.ContextInputs = append(ess.ContextInputs, &iotago.RewardInput{Index: uint16(c.Idx)})
		}
	}
	for i := range b.rec.Ins {
		id := oid(&b.rec.Ins[i])
		u := &iotago.UTXOInput{TransactionOutputIndex: uint16(b.rec.Ins[i].Idx)}
		copy(u.TransactionID[:], id[:36])
		ess.Inputs = append(ess.Inputs, u)
	}
	for _, a := range t.Allot {
		ess.Allotments = append(ess.Allotments, &iotago.Allotment{AccountID: b.chain(a.Acc), Mana: iotago.Mana(a.Mana.U64())})
	}
	if t.PTag >= 0 {
		ess.Payload = &iotago.TaggedData{Tag: content("t", 1, t.PTag), Data: content("d", 1, t.PData)}
	}
	tx := &iotago.Transaction{API: b.ps.API, TransactionEssence: ess}
	for _, o := range t.Outs {
		tx.Outputs = append(tx.Outputs, b.output(o))
	}
	return tx
}

func (b *binder) unlock(u Unl, msg []byte) iotago.Unlock {
	switch u.K {
	case "sig":
		sig := &iotago.Ed25519Signature{}
		copy(sig.PublicKey[:], pubKey(u.Key))
		m, k := msg, u.Key
		switch u.Bad {
		case 1:
			h := hash32(msg, []byte{1})
			m = h[:]
		case 3:
			k = 0
		}
		copy(sig.Signature[:], ed25519.Sign(privKeys[k], m))
		if u.Bad == 2 {
			sig.Signature[5] ^= 4
		}
		return &iotago.SignatureUnlock{Signature: sig}
	case "ref":
		return &iotago.ReferenceUnlock{Reference: uint16(u.I)}
	case "acc":
		return &iotago.AccountUnlock{Reference: uint16(u.I)}
	case "anc":
		return &iotago.AnchorUnlock{Reference: uint16(u.I)}
	case "nft":
		return &iotago.NFTUnlock{Reference: uint16(u.I)}
	case "empty":
		return &iotago.EmptyUnlock{}
	case "multi":
		m := &iotago.MultiUnlock{}
		for _, s := range u.Subs {
			m.Unlocks = append(m.Unlocks, b.unlock(s, msg))
		}
		return m
	}
	panic("unlock kind " + u.K)
}

// signingMessage is computed independently of Transaction.SigningMessage.
func signingMessage(tx *iotago.Transaction) ([]byte, error) {
	bts, err := tx.API.Encode(tx)
	if err != nil {
		return nil, err
	}
	h := hash32(bts)
	return h[:], nil
}

func (b *binder) signed() (st *iotago.SignedTransaction, err error) {
	tx := b.tx()
	msg, err := signingMessage(tx)
	if err != nil {
		return nil, err
	}
	st = &iotago.SignedTransaction{API: b.ps.API, Transaction: tx}
	for _, u := range b.rec.Unl {
		st.Unlocks = append(st.Unlocks, b.unlock(u, msg))
	}
	return st, nil
}

func (b *binder) resolved() vm.ResolvedInputs {
	ri := vm.ResolvedInputs{InputSet: vm.InputSet{}}
	for i := range b.rec.Ins {
		ri.InputSet[oid(&b.rec.Ins[i])] = b.output(b.rec.Ins[i].Out)
	}
	if cm := b.commitment(); cm != nil {
		ri.CommitmentInput = cm
	}
	if len(b.rec.Bic) > 0 {
		ri.BlockIssuanceCreditInputSet = vm.BlockIssuanceCreditInputSet{}
		for _, x := range b.rec.Bic {
			ri.BlockIssuanceCreditInputSet[b.chain(x.Acc)] = iotago.BlockIssuanceCredits(x.V)
		}
	}
	if b.rec.HasRw == 1 {
		ri.RewardsInputSet = vm.RewardsInputSet{}
		for _, x := range b.rec.Rew {
			in := b.rec.Ins[x.I-1]
			id := in.Out.ID
			if id == 0 {
				id = in.Own
			}
			h := b.chain(id)
			if in.Out.T == "deleg" {
				ri.RewardsInputSet[iotago.DelegationID(h)] = iotago.Mana(x.Mana.U64())
			} else {
				ri.RewardsInputSet[iotago.AccountID(h)] = iotago.Mana(x.Mana.U64())
			}
		}
	}
	return ri
}
