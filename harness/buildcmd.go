package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/builder"
)

// Builders of outputs and blocks driven by call sequences of MC_Builder.tla.

func init() { commands["build"] = buildCmd }

type bCall struct {
	P string `json:"p"`
	M string `json:"m"`
	A []int  `json:"a"`
}
type bPair struct {
	T int   `json:"t"`
	V []int `json:"v"`
}
type bOut struct {
	S map[string][]int `json:"s"`
	C []bPair          `json:"c"`
	F []bPair          `json:"f"`
	I []bPair          `json:"i"`
}
type bCase struct {
	Kind  string  `json:"kind"`
	Prev  int     `json:"prev"`
	Start bOut    `json:"start"`
	Calls []bCall `json:"calls"`
}
type bRec struct {
	bCase
	N        int  `json:"n"`
	Fails    int  `json:"fails"`
	O        bOut `json:"o"`
	Kept     int  `json:"kept"`
	Verifies int  `json:"verifies"`
	Panic    int  `json:"panic"`
}

// ---- values: integers to objects and back ----

const bValues = 16

var bHashes = sync.OnceValue(func() (hs [][32]byte) {
	for i := 1; i <= bValues; i++ {
		hs = append(hs, keyHash(i))
	}
	sort.Slice(hs, func(a, b int) bool { return bytes.Compare(hs[a][:], hs[b][:]) < 0 })
	return
})

func bID(k int) (id [32]byte) {
	if k > 0 {
		id = bHashes()[k-1]
	}
	return
}
func bAddr(k int) iotago.Address {
	h := bID(k)
	ed, acc, nft := iotago.Ed25519Address(h), iotago.AccountAddress(h), iotago.NFTAddress(h)
	switch k % 5 {
	case 0:
		return &ed
	case 1:
		return &acc
	case 2:
		return &nft
	case 3:
		return &iotago.RestrictedAddress{Address: &ed, AllowedCapabilities: iotago.AddressCapabilitiesBitMask{1}}
	}
	o := iotago.Ed25519Address(bID(k + 1))
	return iotago.NewMultiAddress(iotago.AddressesWithWeight{{Address: &ed, Weight: 1}, {Address: &o, Weight: 2}}, 2)
}
func bMeta(k int) iotago.MetadataFeatureEntries {
	return iotago.MetadataFeatureEntries{"k": []byte{byte(k)}, "second": []byte{9, byte(k)}}
}
func bStateMeta(k int) iotago.StateMetadataFeatureEntries {
	return iotago.StateMetadataFeatureEntries{"k": []byte{byte(k)}, "second": []byte{9, byte(k)}}
}
func bScheme(a []int) iotago.TokenScheme {
	return &iotago.SimpleTokenScheme{MintedTokens: big.NewInt(int64(a[0])), MeltedTokens: big.NewInt(int64(a[1])), MaximumSupply: big.NewInt(int64(a[2]))}
}
func bToken(a []int) *iotago.NativeTokenFeature {
	id := iotago.NativeTokenID{}
	h := bID(a[0])
	copy(id[:], h[:])
	return &iotago.NativeTokenFeature{ID: id, Amount: big.NewInt(int64(a[1]))}
}
func bKey(k int) iotago.BlockIssuerKey {
	return &iotago.Ed25519PublicKeyHashBlockIssuerKey{PublicKeyHash: bID(k)}
}
func bKeys(ks []int) iotago.BlockIssuerKeys {
	var x []iotago.BlockIssuerKey
	for _, k := range ks {
		x = append(x, bKey(k))
	}
	return iotago.NewBlockIssuerKeys(x...)
}
func bEpoch(k int) iotago.EpochIndex {
	if k < 0 {
		return iotago.MaxEpochIndex
	}
	return iotago.EpochIndex(k)
}

var bTime0 = time.Unix(1700000000, 0).UTC()

func bCommitment(k int) (id iotago.CommitmentID) {
	h := bID(k)
	copy(id[:], h[:])
	return
}
func bParent(k int) (id iotago.BlockID) {
	h := bID(k)
	copy(id[:], h[:])
	return
}
func bPayload(k int) iotago.ApplicationPayload {
	return &iotago.TaggedData{Tag: []byte{byte(k)}, Data: bytes.Repeat([]byte{7}, 4+k)}
}

// lookup of the value of which x is the object; 900 if there is none
func look[T any](x T, of func(int) T, eq func(a, b T) bool) int {
	for k := 0; k <= bValues; k++ {
		if eq(x, of(k)) {
			return k
		}
	}
	return 900
}
func deep[T any](a, b T) bool { return reflect.DeepEqual(a, b) }

const hugeRMC = 9

// what a block with payload p (0: none) costs at a reference cost of r is 100 + 20r + p
func burned(api iotago.API, v uint64) int {
	w := api.ProtocolParameters().WorkScoreParameters()
	for r := uint64(1); r < 4; r++ {
		for p := uint64(0); p < 4; p++ {
			work := uint64(w.Block)
			if p > 0 {
				work += uint64(w.DataByte) * uint64(bPayload(int(p)).Size())
			}
			if r*work == v {
				return int(100 + 20*r + p)
			}
		}
	}
	return small(v)
}
func lookAddr(a iotago.Address) int {
	return look(a, bAddr, func(a, b iotago.Address) bool { return a.Equal(b) })
}
func lookID(h [32]byte) int { return look(h, bID, deep[[32]byte]) }
func small(x uint64) int {
	if x > 1<<30 {
		return 900
	}
	return int(x)
}
func epoch(x iotago.EpochIndex) int {
	if x == iotago.MaxEpochIndex {
		return -1
	}
	return small(uint64(x))
}

func condPair(c iotago.UnlockCondition) bPair {
	p := bPair{T: int(c.Type())}
	switch x := c.(type) {
	case *iotago.AddressUnlockCondition:
		p.V = []int{lookAddr(x.Address)}
	case *iotago.StorageDepositReturnUnlockCondition:
		p.V = []int{lookAddr(x.ReturnAddress), small(uint64(x.Amount))}
	case *iotago.TimelockUnlockCondition:
		p.V = []int{small(uint64(x.Slot))}
	case *iotago.ExpirationUnlockCondition:
		p.V = []int{lookAddr(x.ReturnAddress), small(uint64(x.Slot))}
	case *iotago.StateControllerAddressUnlockCondition:
		p.V = []int{lookAddr(x.Address)}
	case *iotago.GovernorAddressUnlockCondition:
		p.V = []int{lookAddr(x.Address)}
	case *iotago.ImmutableAccountUnlockCondition:
		p.V = []int{lookID(*x.Address)}
	}
	return p
}
func mkCond(t int, v []int) iotago.UnlockCondition {
	switch t {
	case 0:
		return &iotago.AddressUnlockCondition{Address: bAddr(v[0])}
	case 1:
		return &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: bAddr(v[0]), Amount: iotago.BaseToken(v[1])}
	case 2:
		return &iotago.TimelockUnlockCondition{Slot: iotago.SlotIndex(v[0])}
	case 3:
		return &iotago.ExpirationUnlockCondition{ReturnAddress: bAddr(v[0]), Slot: iotago.SlotIndex(v[1])}
	case 4:
		return &iotago.StateControllerAddressUnlockCondition{Address: bAddr(v[0])}
	case 5:
		return &iotago.GovernorAddressUnlockCondition{Address: bAddr(v[0])}
	}
	a := iotago.AccountAddress(bID(v[0]))
	return &iotago.ImmutableAccountUnlockCondition{Address: &a}
}
func featPair(f iotago.Feature) bPair {
	p := bPair{T: int(f.Type())}
	switch x := f.(type) {
	case *iotago.SenderFeature:
		p.V = []int{lookAddr(x.Address)}
	case *iotago.IssuerFeature:
		p.V = []int{lookAddr(x.Address)}
	case *iotago.MetadataFeature:
		p.V = []int{look(x.Entries, bMeta, deep[iotago.MetadataFeatureEntries])}
	case *iotago.StateMetadataFeature:
		p.V = []int{look(x.Entries, bStateMeta, deep[iotago.StateMetadataFeatureEntries])}
	case *iotago.TagFeature:
		p.V = []int{look(x.Tag, func(k int) []byte { return []byte{byte(k)} }, bytes.Equal)}
	case *iotago.NativeTokenFeature:
		p.V = []int{look(x.ID, func(k int) iotago.NativeTokenID { return bToken([]int{k, 0}).ID }, deep[iotago.NativeTokenID]), int(x.Amount.Int64())}
	case *iotago.BlockIssuerFeature:
		p.V = []int{small(uint64(x.ExpirySlot))}
		for _, k := range x.BlockIssuerKeys {
			p.V = append(p.V, lookID(k.(*iotago.Ed25519PublicKeyHashBlockIssuerKey).PublicKeyHash))
		}
	case *iotago.StakingFeature:
		p.V = []int{small(uint64(x.StakedAmount)), small(uint64(x.FixedCost)), epoch(x.StartEpoch), epoch(x.EndEpoch)}
	}
	return p
}
func mkFeat(t int, v []int) iotago.Feature {
	switch t {
	case 0:
		return &iotago.SenderFeature{Address: bAddr(v[0])}
	case 1:
		return &iotago.IssuerFeature{Address: bAddr(v[0])}
	case 2:
		return &iotago.MetadataFeature{Entries: bMeta(v[0])}
	case 3:
		return &iotago.StateMetadataFeature{Entries: bStateMeta(v[0])}
	case 4:
		return &iotago.TagFeature{Tag: []byte{byte(v[0])}}
	case 5:
		return bToken(v)
	case 6:
		return &iotago.BlockIssuerFeature{ExpirySlot: iotago.SlotIndex(v[0]), BlockIssuerKeys: bKeys(v[1:])}
	}
	return &iotago.StakingFeature{StakedAmount: iotago.BaseToken(v[0]), FixedCost: iotago.Mana(v[1]), StartEpoch: bEpoch(v[2]), EndEpoch: bEpoch(v[3])}
}

func condsOf[T iotago.UnlockCondition](ps []bPair) (out iotago.UnlockConditions[T]) {
	for _, p := range ps {
		out = append(out, any(mkCond(p.T, p.V)).(T))
	}
	return
}
func featsOf[T iotago.Feature](ps []bPair) (out iotago.Features[T]) {
	for _, p := range ps {
		out = append(out, any(mkFeat(p.T, p.V)).(T))
	}
	return
}
func condPairs[T iotago.UnlockCondition](cs iotago.UnlockConditions[T]) []bPair {
	out := []bPair{}
	for _, c := range cs {
		out = append(out, condPair(c))
	}
	return out
}
func featPairs[T iotago.Feature](fs iotago.Features[T]) []bPair {
	out := []bPair{}
	for _, f := range fs {
		out = append(out, featPair(f))
	}
	return out
}

func mkOutput(kind string, o bOut) iotago.Output {
	s := func(n string) int { return o.S[n][0] }
	switch kind {
	case "basic":
		return &iotago.BasicOutput{Amount: iotago.BaseToken(s("Amount")), Mana: iotago.Mana(s("Mana")), UnlockConditions: condsOf[iotago.BasicOutputUnlockCondition](o.C), Features: featsOf[iotago.BasicOutputFeature](o.F)}
	case "account":
		return &iotago.AccountOutput{Amount: iotago.BaseToken(s("Amount")), Mana: iotago.Mana(s("Mana")), AccountID: bID(s("AccountID")), FoundryCounter: uint32(s("Counter")),
			UnlockConditions: condsOf[iotago.AccountOutputUnlockCondition](o.C), Features: featsOf[iotago.AccountOutputFeature](o.F), ImmutableFeatures: featsOf[iotago.AccountOutputImmFeature](o.I)}
	case "anchor":
		return &iotago.AnchorOutput{Amount: iotago.BaseToken(s("Amount")), Mana: iotago.Mana(s("Mana")), AnchorID: bID(s("AnchorID")), StateIndex: uint32(s("StateIndex")),
			UnlockConditions: condsOf[iotago.AnchorOutputUnlockCondition](o.C), Features: featsOf[iotago.AnchorOutputFeature](o.F), ImmutableFeatures: featsOf[iotago.AnchorOutputImmFeature](o.I)}
	case "foundry":
		return &iotago.FoundryOutput{Amount: iotago.BaseToken(s("Amount")), SerialNumber: uint32(s("Serial")), TokenScheme: bScheme(o.S["TokenScheme"]),
			UnlockConditions: condsOf[iotago.FoundryOutputUnlockCondition](o.C), Features: featsOf[iotago.FoundryOutputFeature](o.F), ImmutableFeatures: featsOf[iotago.FoundryOutputImmFeature](o.I)}
	case "nft":
		return &iotago.NFTOutput{Amount: iotago.BaseToken(s("Amount")), Mana: iotago.Mana(s("Mana")), NFTID: bID(s("NFTID")),
			UnlockConditions: condsOf[iotago.NFTOutputUnlockCondition](o.C), Features: featsOf[iotago.NFTOutputFeature](o.F), ImmutableFeatures: featsOf[iotago.NFTOutputImmFeature](o.I)}
	}
	v := iotago.AccountAddress(bID(s("ValidatorAddress")))
	return &iotago.DelegationOutput{Amount: iotago.BaseToken(s("Amount")), DelegatedAmount: iotago.BaseToken(s("DelegatedAmount")), DelegationID: bID(s("DelegationID")), ValidatorAddress: &v,
		StartEpoch: bEpoch(s("StartEpoch")), EndEpoch: bEpoch(s("EndEpoch")), UnlockConditions: condsOf[iotago.DelegationOutputUnlockCondition](o.C)}
}

func absOutput(o any) bOut {
	n := func(x uint64) []int { return []int{small(x)} }
	out := bOut{C: []bPair{}, F: []bPair{}, I: []bPair{}}
	switch x := o.(type) {
	case *iotago.BasicOutput:
		out.S = map[string][]int{"Amount": n(uint64(x.Amount)), "Mana": n(uint64(x.Mana))}
		out.C, out.F = condPairs(x.UnlockConditions), featPairs(x.Features)
	case *iotago.AccountOutput:
		out.S = map[string][]int{"Amount": n(uint64(x.Amount)), "Mana": n(uint64(x.Mana)), "AccountID": {lookID(x.AccountID)}, "Counter": n(uint64(x.FoundryCounter))}
		out.C, out.F, out.I = condPairs(x.UnlockConditions), featPairs(x.Features), featPairs(x.ImmutableFeatures)
	case *iotago.AnchorOutput:
		out.S = map[string][]int{"Amount": n(uint64(x.Amount)), "Mana": n(uint64(x.Mana)), "AnchorID": {lookID(x.AnchorID)}, "StateIndex": n(uint64(x.StateIndex))}
		out.C, out.F, out.I = condPairs(x.UnlockConditions), featPairs(x.Features), featPairs(x.ImmutableFeatures)
	case *iotago.FoundryOutput:
		t := x.TokenScheme.(*iotago.SimpleTokenScheme)
		out.S = map[string][]int{"Amount": n(uint64(x.Amount)), "Serial": n(uint64(x.SerialNumber)), "TokenScheme": {int(t.MintedTokens.Int64()), int(t.MeltedTokens.Int64()), int(t.MaximumSupply.Int64())}}
		out.C, out.F, out.I = condPairs(x.UnlockConditions), featPairs(x.Features), featPairs(x.ImmutableFeatures)
	case *iotago.NFTOutput:
		out.S = map[string][]int{"Amount": n(uint64(x.Amount)), "Mana": n(uint64(x.Mana)), "NFTID": {lookID(x.NFTID)}}
		out.C, out.F, out.I = condPairs(x.UnlockConditions), featPairs(x.Features), featPairs(x.ImmutableFeatures)
	case *iotago.DelegationOutput:
		out.S = map[string][]int{"Amount": n(uint64(x.Amount)), "DelegatedAmount": n(uint64(x.DelegatedAmount)), "DelegationID": {lookID(x.DelegationID)}, "ValidatorAddress": {lookID(*x.ValidatorAddress)},
			"StartEpoch": {epoch(x.StartEpoch)}, "EndEpoch": {epoch(x.EndEpoch)}}
		out.C = condPairs(x.UnlockConditions)
	case *iotago.Block:
		parents := func(ids iotago.BlockIDs) []int {
			out := []int{}
			for _, id := range ids {
				out = append(out, look(id, bParent, deep[iotago.BlockID]))
			}
			return out
		}
		out.S = map[string][]int{"Issuer": {lookID(x.Header.IssuerID)}, "LatestFinalizedSlot": n(uint64(x.Header.LatestFinalizedSlot)), "ProtocolVersion": {int(x.Header.ProtocolVersion) - 100},
			"IssuingTime": {int(x.Header.IssuingTime.Sub(bTime0) / time.Second)}, "SlotCommitmentID": {-1}, "Signature": {0}}
		if x.Header.ProtocolVersion < 100 {
			out.S["ProtocolVersion"][0] = -1
		}
		if t := out.S["IssuingTime"][0]; t > bValues || t < 0 {
			out.S["IssuingTime"][0] = -1
		}
		if id := x.Header.SlotCommitmentID; id != iotago.EmptyCommitmentID && id != iotago.NewEmptyCommitment(x.API).MustID() {
			out.S["SlotCommitmentID"][0] = look(id, bCommitment, deep[iotago.CommitmentID])
		}
		if es := x.Signature.(*iotago.Ed25519Signature); *es != (iotago.Ed25519Signature{}) {
			out.S["Signature"][0] = keyOfPub(es.PublicKey[:])
		}
		switch b := x.Body.(type) {
		case *iotago.BasicBlockBody:
			out.S["MaxBurnedMana"], out.S["Payload"] = []int{burned(x.API, uint64(b.MaxBurnedMana))}, []int{0}
			if b.Payload != nil {
				out.S["Payload"][0] = look(b.Payload, bPayload, deep[iotago.ApplicationPayload])
			}
			out.S["StrongParents"], out.S["WeakParents"], out.S["ShallowLikeParents"] = parents(b.StrongParents), parents(b.WeakParents), parents(b.ShallowLikeParents)
		case *iotago.ValidationBlockBody:
			out.S["HighestSupportedVersion"], out.S["ProtocolParametersHash"] = n(uint64(b.HighestSupportedVersion)), []int{lookID(b.ProtocolParametersHash)}
			out.S["StrongParents"], out.S["WeakParents"], out.S["ShallowLikeParents"] = parents(b.StrongParents), parents(b.WeakParents), parents(b.ShallowLikeParents)
		}
	}
	return out
}

func newBuilder(kind string, o bOut, api iotago.API) any {
	s := func(n string) int { return o.S[n][0] }
	c := func(t int) iotago.Address {
		for _, p := range o.C {
			if p.T == t {
				return bAddr(p.V[0])
			}
		}
		panic("no address")
	}
	switch kind {
	case "basic":
		return builder.NewBasicOutputBuilder(c(0), iotago.BaseToken(s("Amount")))
	case "account":
		return builder.NewAccountOutputBuilder(c(0), iotago.BaseToken(s("Amount")))
	case "anchor":
		return builder.NewAnchorOutputBuilder(c(4), c(5), iotago.BaseToken(s("Amount")))
	case "foundry":
		a := iotago.AccountAddress(bID(o.C[0].V[0]))
		return builder.NewFoundryOutputBuilder(&a, iotago.BaseToken(s("Amount")), uint32(s("Serial")), bScheme(o.S["TokenScheme"]))
	case "nft":
		return builder.NewNFTOutputBuilder(c(0), iotago.BaseToken(s("Amount")))
	case "delegation":
		v := iotago.AccountAddress(bID(s("ValidatorAddress")))
		return builder.NewDelegationOutputBuilder(&v, c(0), iotago.BaseToken(s("Amount")))
	case "basicblock":
		return builder.NewBasicBlockBuilder(api)
	}
	return builder.NewValidationBlockBuilder(api)
}

func fromPrevious(o iotago.Output) any {
	switch x := o.(type) {
	case *iotago.BasicOutput:
		return builder.NewBasicOutputBuilderFromPrevious(x)
	case *iotago.AccountOutput:
		return builder.NewAccountOutputBuilderFromPrevious(x)
	case *iotago.AnchorOutput:
		return builder.NewAnchorOutputBuilderFromPrevious(x)
	case *iotago.FoundryOutput:
		return builder.NewFoundryOutputBuilderFromPrevious(x)
	case *iotago.NFTOutput:
		return builder.NewNFTOutputBuilderFromPrevious(x)
	}
	return builder.NewDelegationOutputBuilderFromPrevious(o.(*iotago.DelegationOutput))
}

// value of the parameter type made of the arguments from the j-th on
func bArg(t reflect.Type, a []int, j *int) reflect.Value {
	next := func() int { *j++; return a[*j-1] }
	var x any
	switch t.String() {
	case "iotago.Address":
		return reflect.ValueOf(bAddr(next()))
	case "*iotago.AccountAddress":
		v := iotago.AccountAddress(bID(next()))
		x = &v
	case "iotago.EpochIndex":
		x = bEpoch(next())
	case "iotago.MetadataFeatureEntries":
		x = bMeta(next())
	case "iotago.StateMetadataFeatureEntries":
		x = bStateMeta(next())
	case "[]uint8":
		x = []byte{byte(next())}
	case "*iotago.NativeTokenFeature":
		x = bToken([]int{next(), next()})
	case "iotago.TokenScheme":
		return reflect.ValueOf(bScheme([]int{next(), next(), next()}))
	case "iotago.BlockIssuerKey":
		return reflect.ValueOf(bKey(next()))
	case "iotago.BlockIssuerKeys":
		x = bKeys(a[*j:])
	case "iotago.Version":
		x = iotago.Version(next())
	case "time.Time":
		x = bTime0.Add(time.Duration(next()) * time.Second)
	case "iotago.CommitmentID":
		x = bCommitment(next())
	case "iotago.BlockIDs":
		ids := iotago.BlockIDs{}
		for _, k := range a[*j:] {
			ids = append(ids, bParent(k))
		}
		x = ids
	case "iotago.ApplicationPayload":
		return reflect.ValueOf(bPayload(next()))
	default:
		v := next()
		if t.Kind() == reflect.Array {
			h := bID(v)
			return reflect.ValueOf(h).Convert(t)
		}
		return reflect.ValueOf(v).Convert(t)
	}
	return reflect.ValueOf(x)
}

func bInvoke(b reflect.Value, name string, a []int) reflect.Value {
	m := b.MethodByName(name)
	if !m.IsValid() {
		panic(fmt.Sprintf("no method %s of %s", name, b.Type()))
	}
	if name == "BlockIssuer" {
		return m.Call([]reflect.Value{reflect.ValueOf(bKeys(a[1:])), reflect.ValueOf(iotago.SlotIndex(a[0]))})[0]
	}
	if name == "ProtocolVersion" {
		a = []int{a[0] + 100}
	}
	if name == "CalculateAndSetMaxBurnedMana" && a[0] == hugeRMC {
		return m.Call([]reflect.Value{reflect.ValueOf(^iotago.Mana(0))})[0]
	}
	var in []reflect.Value
	j := 0
	for k := 0; k < m.Type().NumIn(); k++ {
		t := m.Type().In(k)
		if m.Type().IsVariadic() && k == m.Type().NumIn()-1 {
			for j < len(a) {
				in = append(in, bArg(t.Elem(), a, &j))
			}
			break
		}
		in = append(in, bArg(t, a, &j))
	}
	return m.Call(in)[0]
}

func bRun(c bCase, n int, route int) *bRec {
	rec := &bRec{bCase: c, N: n, Kept: 1, O: bOut{S: map[string][]int{}, C: []bPair{}, F: []bPair{}, I: []bPair{}}, Verifies: -1}
	api := psets[0].API
	_, p := guard(func() error {
		var prev iotago.Output
		var b reflect.Value
		var raw []byte
		if c.Prev == 1 {
			prev = mkOutput(c.Kind, c.Start)
			var err error
			raw, err = api.Encode(prev)
			must(err)
			b = reflect.ValueOf(fromPrevious(prev))
		} else {
			b = reflect.ValueOf(newBuilder(c.Kind, c.Start, api))
		}
		for _, x := range c.Calls[:n] {
			route++
			switch {
			case x.M == "Build":
				b.MethodByName("Build").Call(nil)
			case x.P != "":
				t := b.MethodByName(map[string]string{"BI": "BlockIssuerTransition", "ST": "StakingTransition"}[x.P]).Call(nil)[0]
				if x.M != "" {
					t = bInvoke(t, x.M, x.A)
				}
				b = t.MethodByName("Builder").Call(nil)[0]
			case x.M == "Sign":
				k := x.A[1]
				ed := iotago.Ed25519AddressFromPubKey(pubKey(k))
				id := iotago.AccountID(bID(x.A[0]))
				switch {
				case x.A[2] == 1 && route%2 == 0:
					b = b.MethodByName("Sign").Call([]reflect.Value{reflect.ValueOf(id), reflect.ValueOf(privKeys[k])})[0]
				default:
					var keys []ed25519.PrivateKey
					if x.A[2] == 1 {
						keys = append(keys, privKeys[k])
					}
					s := iotago.NewInMemoryAddressSignerFromEd25519PrivateKeys(keys...)
					b = b.MethodByName("SignWithSigner").Call([]reflect.Value{reflect.ValueOf(id), reflect.ValueOf(s), reflect.ValueOf(ed)})[0]
				}
			case c.Kind == "anchor" && route%2 == 0:
				tr := map[string]string{"Amount": "StateTransition", "Mana": "StateTransition", "StateMetadata": "StateTransition", "StateController": "GovernanceTransition", "Governor": "GovernanceTransition", "Metadata": "GovernanceTransition"}[x.M]
				if tr == "" {
					b = bInvoke(b, x.M, x.A)
					break
				}
				b = bInvoke(b.MethodByName(tr).Call(nil)[0], x.M, x.A).MethodByName("Builder").Call(nil)[0]
			default:
				b = bInvoke(b, x.M, x.A)
			}
		}
		r := b.MethodByName("Build").Call(nil)
		if !r[1].IsNil() {
			rec.Fails = 1
		} else {
			o := r[0].Interface()
			rec.O = absOutput(o)
			if blk, ok := o.(*iotago.Block); ok {
				v, err := blk.VerifySignature()
				rec.Verifies = flag01(err == nil && v)
				if blk.Header.NetworkID != api.ProtocolParameters().NetworkID() {
					rec.O.S["Issuer"] = []int{901}
				}
			}
		}
		if prev != nil {
			now, err := api.Encode(prev)
			rec.Kept = flag01(err == nil && bytes.Equal(now, raw))
		}
		return nil
	})
	rec.Panic = flag01(p)
	return rec
}

func buildCmd(in, out, _ string, seed int64, n int) {
	var cs []bCase
	readLines(in, func(b []byte) {
		c := bCase{}
		must(json.Unmarshal(b, &c))
		cs = append(cs, c)
	})
	res := make([][]any, len(cs))
	parallel(len(cs), func(k int) {
		for m := 0; m <= len(cs[k].Calls); m++ {
			if m < len(cs[k].Calls) && m > n { // short prefixes are covered by other cases
				continue
			}
			res[k] = append(res[k], bRun(cs[k], m, k+int(seed)))
		}
	})
	var all []any
	seen := map[string]bool{}
	for _, r := range res {
		for _, x := range r {
			b, err := json.Marshal(x)
			must(err)
			s := string(b)
			if m := x.(*bRec); m.N < len(m.Calls) {
				t := *m
				t.Calls = t.Calls[:t.N]
				b, _ = json.Marshal(t)
				s = string(b)
			}
			if !seen[s] {
				seen[s] = true
				all = append(all, json.RawMessage(strings.TrimSpace(s)))
			}
		}
	}
	writeLines(out, all)
}
