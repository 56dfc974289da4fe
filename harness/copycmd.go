package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/crypto/blake2b"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/hexutil"
)

// Copies, comparisons and lists of protocol objects, for CopiesConform.tla.

func init() { commands["copies"] = copiesCmd }

// copyKinds are the concrete objects, by pointer.
var copyKinds = []any{
	&iotago.Ed25519Address{}, &iotago.AccountAddress{}, &iotago.NFTAddress{}, &iotago.AnchorAddress{}, &iotago.ImplicitAccountCreationAddress{}, &iotago.MultiAddress{}, &iotago.RestrictedAddress{}, &iotago.MultiAddressReference{},
	&iotago.BasicOutput{}, &iotago.AccountOutput{}, &iotago.AnchorOutput{}, &iotago.FoundryOutput{}, &iotago.NFTOutput{}, &iotago.DelegationOutput{},
	&iotago.AddressUnlockCondition{}, &iotago.StorageDepositReturnUnlockCondition{}, &iotago.TimelockUnlockCondition{}, &iotago.ExpirationUnlockCondition{},
	&iotago.StateControllerAddressUnlockCondition{}, &iotago.GovernorAddressUnlockCondition{}, &iotago.ImmutableAccountUnlockCondition{},
	&iotago.SenderFeature{}, &iotago.IssuerFeature{}, &iotago.MetadataFeature{}, &iotago.StateMetadataFeature{}, &iotago.TagFeature{}, &iotago.NativeTokenFeature{}, &iotago.BlockIssuerFeature{}, &iotago.StakingFeature{},
	&iotago.SimpleTokenScheme{}, &iotago.Ed25519PublicKeyHashBlockIssuerKey{},
	&iotago.UTXOInput{}, &iotago.CommitmentInput{}, &iotago.BlockIssuanceCreditInput{}, &iotago.RewardInput{},
	&iotago.SignatureUnlock{}, &iotago.ReferenceUnlock{}, &iotago.AccountUnlock{}, &iotago.AnchorUnlock{}, &iotago.NFTUnlock{}, &iotago.MultiUnlock{}, &iotago.EmptyUnlock{},
	&iotago.Ed25519Signature{}, &iotago.TaggedData{}, &iotago.CandidacyAnnouncement{}, &iotago.SignedTransaction{}, &iotago.Transaction{}, &iotago.TransactionEssence{}, &iotago.Allotment{}, &iotago.Commitment{},
}

// copyLists are lists of them, by pointer.
var copyLists = []any{
	&iotago.BasicOutputFeatures{}, &iotago.AccountOutputImmFeatures{}, &iotago.BasicOutputUnlockConditions{}, &iotago.NFTOutputUnlockConditions{}, &iotago.Allotments{}, &iotago.BlockIssuerKeys{}, &iotago.TxEssenceOutputs{},
	&iotago.TxEssenceInputs{}, &iotago.TxEssenceContextInputs{}, &iotago.Unlocks{}, &iotago.AddressCapabilitiesBitMask{}, &iotago.TransactionCapabilitiesBitMask{},
}

var (
	copyAPI  = reflect.TypeOf((*iotago.API)(nil)).Elem()
	copyCaps = reflect.TypeOf(iotago.AddressCapabilitiesBitMask{})
	copyBig  = reflect.TypeOf((*big.Int)(nil))
)

func copyFill(g *rand.Rand, v reflect.Value, depth int) {
	t := v.Type()
	if t == copyAPI {
		return
	}
	if t == copyBig {
		v.Set(reflect.ValueOf(new(big.Int).SetUint64(g.Uint64() >> uint(g.Intn(64)))))
		return
	}
	switch t.Kind() {
	case reflect.Interface:
		cands := []reflect.Type{}
		for _, k := range copyKinds {
			kt := reflect.TypeOf(k)
			if kt.Implements(t) && !(depth > 2 && (kt.Elem().Name() == "MultiAddress" || kt.Elem().Name() == "RestrictedAddress" || kt.Elem().Name() == "MultiUnlock" || kt.Elem().Name() == "SignedTransaction")) && kt.Elem().Name() != "MultiAddressReference" {
				cands = append(cands, kt)
			}
		}
		x := reflect.New(cands[g.Intn(len(cands))].Elem())
		copyFill(g, x.Elem(), depth+1)
		v.Set(x)
	case reflect.Pointer:
		v.Set(reflect.New(t.Elem()))
		copyFill(g, v.Elem(), depth+1)
	case reflect.Struct:
		for k := 0; k < t.NumField(); k++ {
			if t.Field(k).IsExported() {
				copyFill(g, v.Field(k), depth)
			}
		}
	case reflect.Slice:
		n := g.Intn(4)
		if (depth > 3 || t == copyCaps) && n > 1 {
			n = 1
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for k := 0; k < n; k++ {
			copyFill(g, v.Index(k), depth+1)
		}
	case reflect.Array:
		for k := 0; k < v.Len(); k++ {
			copyFill(g, v.Index(k), depth)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		for n := g.Intn(3); n >= 0; n-- {
			k, x := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			copyFill(g, k, depth)
			copyFill(g, x, depth)
			v.SetMapIndex(k, x)
		}
	case reflect.String:
		v.SetString(string('a'+rune(g.Intn(26))) + fmt.Sprint(g.Intn(1000)))
	case reflect.Bool:
		v.SetBool(g.Intn(2) == 0)
	case reflect.Int64, reflect.Int:
		v.SetInt(int64(g.Intn(1 << 30)))
	default:
		v.SetUint(g.Uint64() >> uint(64-t.Bits()))
	}
}

// copyWalk visits an object: leaves can be switched to another value and back, lists grown.
func copyWalk(v reflect.Value, out *strings.Builder, leaf func(v reflect.Value), list func(v reflect.Value)) {
	t := v.Type()
	if t == copyAPI {
		return
	}
	if t == copyBig {
		out.WriteString(v.Interface().(*big.Int).String() + ";")
		leaf(v)
		return
	}
	switch t.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			out.WriteString("nil;")
			return
		}
		if t.Kind() == reflect.Interface {
			out.WriteString(v.Elem().Type().String() + ":")
		}
		copyWalk(v.Elem(), out, leaf, list)
	case reflect.Struct:
		out.WriteString(t.Name() + "{")
		for k := 0; k < t.NumField(); k++ {
			if t.Field(k).IsExported() {
				copyWalk(v.Field(k), out, leaf, list)
			}
		}
		out.WriteString("}")
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(out, "[%d:", v.Len())
		for k := 0; k < v.Len(); k++ {
			copyWalk(v.Index(k), out, leaf, list)
		}
		out.WriteString("]")
		// nothing longer than an address can hold, as some comparisons go by its bytes
		if t.Kind() == reflect.Slice && v.CanSet() && !(t == copyCaps && v.Len() >= 2) {
			list(v)
		}
	case reflect.Map:
		ks := v.MapKeys()
		sort.Slice(ks, func(a, b int) bool { return ks[a].String() < ks[b].String() })
		fmt.Fprintf(out, "m%d:", len(ks))
		for _, k := range ks {
			out.WriteString(k.String() + "=")
			copyWalk(v.MapIndex(k), out, leaf, list)
		}
		leaf(v)
	default:
		fmt.Fprintf(out, "%v;", v.Interface())
		leaf(v)
	}
}

func copyDump(v reflect.Value) string {
	var b strings.Builder
	copyWalk(v, &b, func(reflect.Value) {}, func(reflect.Value) {})
	h := blake2b.Sum256([]byte(v.Type().String() + b.String()))
	return hex.EncodeToString(h[:12])
}

func copyLeaves(v reflect.Value) (leaves, lists []reflect.Value) {
	var b strings.Builder
	copyWalk(v, &b, func(x reflect.Value) {
		if x.Type() == copyBig || x.Kind() == reflect.Map || x.CanSet() {
			leaves = append(leaves, x)
		}
	}, func(x reflect.Value) { lists = append(lists, x) })
	return
}

// copySwitch changes a leaf; doing it again changes it back.
func copySwitch(v reflect.Value) {
	if v.Type() == copyBig {
		b := v.Interface().(*big.Int)
		b.SetBit(b, 0, b.Bit(0)^1)
		return
	}
	switch v.Kind() {
	case reflect.Map:
		k := reflect.ValueOf("zzz").Convert(v.Type().Key())
		if v.MapIndex(k).IsValid() {
			v.SetMapIndex(k, reflect.Value{})
		} else {
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
	case reflect.String:
		if s := v.String(); strings.HasSuffix(s, "~") {
			v.SetString(s[:len(s)-1])
		} else {
			v.SetString(s + "~")
		}
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int64, reflect.Int:
		v.SetInt(v.Int() ^ 1)
	default:
		v.SetUint(v.Uint() ^ 1)
	}
}

type copyStep struct {
	Op  string `json:"op"`
	K   int    `json:"k"`
	Eq  int    `json:"eq"`
	Rev int    `json:"rev"`
	O   string `json:"o"`
	C   string `json:"c"`
	Sm  int    `json:"sm"`
}

// copyEqual calls Equal (or Equals); -1 if there is none.
func copyEqual(a, b reflect.Value) int {
	m := a.MethodByName("Equal")
	if !m.IsValid() {
		m = a.MethodByName("Equals")
	}
	if !m.IsValid() {
		return -1
	}
	if a.Type().Kind() == reflect.Pointer && m.Type().In(0).Kind() == reflect.Slice {
		b = b.Elem()
	}
	if !b.Type().AssignableTo(m.Type().In(0)) {
		return -1
	}
	return b2i(m.Call([]reflect.Value{b})[0].Bool())
}

func copyClone(o reflect.Value) reflect.Value {
	c := o.MethodByName("Clone").Call(nil)[0]
	if c.Kind() == reflect.Interface {
		c = c.Elem()
	}
	if c.Type() != o.Type() { // a list
		p := reflect.New(c.Type())
		p.Elem().Set(c)
		c = p
	}
	return c
}

type copyHistRec struct {
	Op    string     `json:"op"`
	Kind  string     `json:"kind"`
	Steps []copyStep `json:"steps"`
	Other int        `json:"other"`
	Panic string     `json:"panic"`
}

func copyHistory(g *rand.Rand, kind any, ops []copyStep) *copyHistRec {
	r := &copyHistRec{Op: "history", Kind: reflect.TypeOf(kind).Elem().Name(), Steps: []copyStep{}, Other: -1}
	if i := strings.IndexByte(r.Kind, '['); i > 0 {
		r.Kind = r.Kind[:i] + "List"
	}
	o := reflect.New(reflect.TypeOf(kind).Elem())
	copyFill(g, o.Elem(), 0)
	hasClone := o.MethodByName("Clone").IsValid()
	var c reflect.Value
	mk := func() {
		if hasClone {
			c = copyClone(o)
			return
		}
		c = reflect.New(o.Type().Elem())
		c.Elem().Set(o.Elem())
	}
	pick := [3]int{g.Int(), g.Int(), g.Int()}
	err, p := guard(func() error {
		for _, s := range ops {
			x := o
			if s.Op == "editc" || s.Op == "growc" {
				x = c
			}
			switch s.Op {
			case "copy":
				mk()
			case "edito", "editc":
				l, _ := copyLeaves(x.Elem())
				if len(l) == 0 {
					return fmt.Errorf("none")
				}
				// the same leaf in both as long as their forms agree
				copySwitch(l[pick[s.K]%len(l)])
			case "growo", "growc":
				_, l := copyLeaves(x.Elem())
				if len(l) == 0 {
					return fmt.Errorf("none")
				}
				v := l[pick[s.K]%len(l)]
				e := reflect.New(v.Type().Elem()).Elem()
				copyFill(g, e, 3)
				v.Set(reflect.Append(v, e))
			}
			s.O, s.C = copyDump(o.Elem()), copyDump(c.Elem())
			s.Eq, s.Rev = copyEqual(o, c), copyEqual(c, o)
			s.Sm = copyEqual(o, o)
			r.Steps = append(r.Steps, s)
		}
		// an object of another kind
		for tries := 0; tries < 20 && o.Type().Elem().Kind() != reflect.Slice; tries++ {
			other := reflect.New(reflect.TypeOf(copyKinds[g.Intn(len(copyKinds))]).Elem())
			if other.Type() == o.Type() {
				continue
			}
			copyFill(g, other.Elem(), 0)
			if e := copyEqual(o, other); e >= 0 {
				r.Other = e
				break
			}
		}
		return nil
	})
	if p {
		r.Panic = errStr(err)
	} else if err != nil {
		return nil
	}
	return r
}

// ---------------------------------------------------------------- lists ---

type listOp struct {
	O string `json:"o"`
	T int    `json:"t"`
	V int    `json:"v"`
}
type listStep struct {
	listOp
	Res int      `json:"res"`
	L   [][2]int `json:"l"`
}
type listRec struct {
	Op    string     `json:"op"`
	Kind  string     `json:"kind"`
	Init  [][2]int   `json:"init"`
	Steps []listStep `json:"steps"`
	Panic string     `json:"panic"`
}

func feat(t, v int) iotago.Feature {
	b := byte(v)
	switch t {
	case 1:
		return &iotago.SenderFeature{Address: &iotago.Ed25519Address{b}}
	case 2:
		return &iotago.TagFeature{Tag: []byte{b}}
	}
	return &iotago.StakingFeature{StakedAmount: iotago.BaseToken(v)}
}
func featNo(f iotago.Feature) [2]int {
	switch x := f.(type) {
	case *iotago.SenderFeature:
		return [2]int{1, int(x.Address.(*iotago.Ed25519Address)[0])}
	case *iotago.TagFeature:
		return [2]int{2, int(x.Tag[0])}
	case *iotago.StakingFeature:
		return [2]int{3, int(x.StakedAmount)}
	}
	return [2]int{0, 0}
}
func cond(t, v int) iotago.UnlockCondition {
	switch t {
	case 1:
		return &iotago.AddressUnlockCondition{Address: &iotago.Ed25519Address{byte(v)}}
	case 2:
		return &iotago.TimelockUnlockCondition{Slot: iotago.SlotIndex(v)}
	}
	return &iotago.GovernorAddressUnlockCondition{Address: &iotago.Ed25519Address{byte(v)}}
}
func condNo(f iotago.UnlockCondition) [2]int {
	switch x := f.(type) {
	case *iotago.AddressUnlockCondition:
		return [2]int{1, int(x.Address.(*iotago.Ed25519Address)[0])}
	case *iotago.TimelockUnlockCondition:
		return [2]int{2, int(x.Slot)}
	case *iotago.GovernorAddressUnlockCondition:
		return [2]int{3, int(x.Address.(*iotago.Ed25519Address)[0])}
	}
	return [2]int{0, 0}
}

// the type in the high bytes, the value further down
func keyOf(t, v int) iotago.BlockIssuerKey {
	k := &iotago.Ed25519PublicKeyHashBlockIssuerKey{}
	k.PublicKeyHash[0], k.PublicKeyHash[31] = byte(t), byte(v)
	return k
}
func keyNo(k iotago.BlockIssuerKey) [2]int {
	h := k.(*iotago.Ed25519PublicKeyHashBlockIssuerKey).PublicKeyHash
	return [2]int{int(h[0]), int(h[31])}
}

func (r *listRec) run() {
	for k := range r.Steps {
		r.Steps[k].L = [][2]int{}
	}
	err, p := guard(func() error {
		switch r.Kind {
		case "features":
			var f iotago.Features[iotago.Feature]
			for _, e := range r.Init {
				f = append(f, feat(e[0], e[1]))
			}
			for k := range r.Steps {
				s := &r.Steps[k]
				switch s.O {
				case "put":
					f.Upsert(feat(s.T, s.V))
				case "remove":
					s.Res = b2i(f.Remove(feat(s.T, 0).Type()))
				case "sort":
					f.Sort()
				case "set":
					set, err := f.Set()
					s.Res = b2i(err == nil && len(set) == len(f))
				}
				s.L = [][2]int{}
				for _, x := range f {
					s.L = append(s.L, featNo(x))
				}
			}
		case "conditions":
			var f iotago.UnlockConditions[iotago.UnlockCondition]
			for _, e := range r.Init {
				f = append(f, cond(e[0], e[1]))
			}
			for k := range r.Steps {
				s := &r.Steps[k]
				switch s.O {
				case "put":
					f.Upsert(cond(s.T, s.V))
				case "remove":
					s.Res = b2i(f.Remove(cond(s.T, 0).Type()))
				case "sort":
					f.Sort()
				case "set":
					set, err := f.Set()
					s.Res = b2i(err == nil && len(set) == len(f))
				}
				s.L = [][2]int{}
				for _, x := range f {
					s.L = append(s.L, condNo(x))
				}
			}
		case "keys":
			in := []iotago.BlockIssuerKey{}
			for _, e := range r.Init {
				in = append(in, keyOf(e[0], e[1]))
			}
			f := iotago.NewBlockIssuerKeys(in...)
			for k := range r.Steps {
				s := &r.Steps[k]
				switch s.O {
				case "put":
					f.Add(keyOf(s.T, s.V))
				case "remove":
					f.Remove(keyOf(s.T, s.V))
				case "sort":
					f.Sort()
				case "set":
					s.Res = b2i(f.Has(keyOf(s.T, s.V)))
				}
				s.L = [][2]int{}
				for _, x := range f {
					s.L = append(s.L, keyNo(x))
				}
			}
		}
		return nil
	})
	if p {
		r.Panic = errStr(err)
	}
}

// -------------------------------------------------------------- ordering ---

type orderRec struct {
	Op   string  `json:"op"`
	Kind string  `json:"kind"`
	In   [][]int `json:"in"`  // keys
	Out  [][]int `json:"out"` // sorted
	Uniq [][]int `json:"uniq"`
	Cmp  [][]int `json:"cmp"` // of each with each
}

func sign(x int) int {
	if x < 0 {
		return 0
	} else if x > 0 {
		return 2
	}
	return 1
}

func orderOf[T any](kind string, l []T, key func(T) []int, cmp func(a, b T) int, srt func([]T), uniq func([]T) []T) *orderRec {
	r := &orderRec{Op: "order", Kind: kind, In: [][]int{}, Out: [][]int{}, Uniq: [][]int{}, Cmp: [][]int{}}
	for _, x := range l {
		r.In = append(r.In, key(x))
		row := []int{}
		for _, y := range l {
			row = append(row, sign(cmp(x, y)))
		}
		r.Cmp = append(r.Cmp, row)
	}
	if uniq != nil {
		for _, x := range uniq(append([]T{}, l...)) {
			r.Uniq = append(r.Uniq, key(x))
		}
	} else {
		r.Uniq = nil
	}
	c := append([]T{}, l...)
	srt(c)
	for _, x := range c {
		r.Out = append(r.Out, key(x))
	}
	if r.Uniq == nil {
		r.Uniq = [][]int{{-1}}
	}
	return r
}

func orderRandom(g *rand.Rand, k int) *orderRec {
	n := g.Intn(5)
	b := func(x []byte) []int { return msgBytes(x) }
	id := func(x []byte) {
		x[g.Intn(len(x))] = byte(g.Intn(3))
		if g.Intn(2) == 0 {
			x[0] = byte(128 * g.Intn(2))
		}
	}
	switch k % 9 {
	case 0:
		l := make(iotago.BlockIDs, n)
		for k := range l {
			id(l[k][:])
		}
		return orderOf("BlockID", l, func(x iotago.BlockID) []int { return b(x[:]) }, func(x, y iotago.BlockID) int { return x.Compare(y) }, func(l []iotago.BlockID) { iotago.BlockIDs(l).Sort() },
			func(l []iotago.BlockID) []iotago.BlockID { return iotago.BlockIDs(l).RemoveDupsAndSort() })
	case 1:
		l := make(iotago.TransactionIDs, n)
		for k := range l {
			id(l[k][:])
		}
		return orderOf("TransactionID", l, func(x iotago.TransactionID) []int { return b(x[:]) }, func(x, y iotago.TransactionID) int { return x.Compare(y) }, func(l []iotago.TransactionID) { iotago.TransactionIDs(l).Sort() },
			func(l []iotago.TransactionID) []iotago.TransactionID {
				return iotago.TransactionIDs(l).RemoveDupsAndSort()
			})
	case 2:
		l := make(iotago.OutputIDs, n)
		for k := range l {
			id(l[k][:])
		}
		return orderOf("OutputID", l, func(x iotago.OutputID) []int { return b(x[:]) }, func(x, y iotago.OutputID) int { return x.Compare(y) }, func(l []iotago.OutputID) { iotago.OutputIDs(l).Sort() },
			func(l []iotago.OutputID) []iotago.OutputID { return iotago.OutputIDs(l).RemoveDupsAndSort() })
	case 3:
		l := make(iotago.CommitmentIDs, n)
		for k := range l {
			id(l[k][:])
		}
		return orderOf("CommitmentID", l, func(x iotago.CommitmentID) []int { return b(x[:]) }, func(x, y iotago.CommitmentID) int { return x.Compare(y) }, func(l []iotago.CommitmentID) { iotago.CommitmentIDs(l).Sort() },
			func(l []iotago.CommitmentID) []iotago.CommitmentID {
				return iotago.CommitmentIDs(l).RemoveDupsAndSort()
			})
	case 4:
		l := make([]*iotago.Allotment, n)
		for k := range l {
			l[k] = &iotago.Allotment{Mana: iotago.Mana(g.Intn(3))}
			id(l[k].AccountID[:])
		}
		return orderOf("Allotment", l, func(x *iotago.Allotment) []int { return b(x.AccountID[:]) }, func(x, y *iotago.Allotment) int { return x.Compare(y) }, func(l []*iotago.Allotment) { iotago.Allotments(l).Sort() }, nil)
	case 5:
		l := make([]*iotago.AddressWithWeight, n)
		key := func(x *iotago.AddressWithWeight) []int {
			return b(append([]byte{byte(x.Address.Type())}, x.Address.ID()[1:]...))
		}
		for k := range l {
			var a [32]byte
			id(a[:])
			addrs := []iotago.Address{(*iotago.Ed25519Address)(&a), (*iotago.AccountAddress)(&a), (*iotago.NFTAddress)(&a), (*iotago.AnchorAddress)(&a), (*iotago.ImplicitAccountCreationAddress)(&a)}
			l[k] = &iotago.AddressWithWeight{Address: addrs[g.Intn(5)], Weight: byte(g.Intn(3))}
		}
		return orderOf("AddressWithWeight", l, key, func(x, y *iotago.AddressWithWeight) int { return x.Compare(y) }, func(l []*iotago.AddressWithWeight) { iotago.AddressesWithWeight(l).Sort() }, nil)
	case 6:
		l := make([]iotago.BlockIssuerKey, n)
		for k := range l {
			x := &iotago.Ed25519PublicKeyHashBlockIssuerKey{}
			id(x.PublicKeyHash[:])
			l[k] = x
		}
		return orderOf("BlockIssuerKey", l, func(x iotago.BlockIssuerKey) []int {
			return b(x.(*iotago.Ed25519PublicKeyHashBlockIssuerKey).PublicKeyHash[:])
		}, func(x, y iotago.BlockIssuerKey) int { return x.Compare(y) }, func(l []iotago.BlockIssuerKey) { iotago.BlockIssuerKeys(l).Sort() }, nil)
	case 7:
		l := make([]iotago.ContextInput, n)
		for k := range l {
			switch g.Intn(3) {
			case 0:
				x := &iotago.CommitmentInput{}
				id(x.CommitmentID[:])
				l[k] = x
			case 1:
				x := &iotago.BlockIssuanceCreditInput{}
				id(x.AccountID[:])
				l[k] = x
			default:
				l[k] = &iotago.RewardInput{Index: uint16(g.Intn(4) * 100)}
			}
		}
		return orderOf("ContextInput", l, func(x iotago.ContextInput) []int {
			switch y := x.(type) {
			case *iotago.BlockIssuanceCreditInput:
				return append([]int{1}, b(y.AccountID[:])...)
			case *iotago.RewardInput:
				return []int{2, int(y.Index)}
			}
			return []int{0}
		}, func(x, y iotago.ContextInput) int { return x.Compare(y) }, func(l []iotago.ContextInput) { iotago.ContextInputs[iotago.ContextInput](l).Sort() }, nil)
	default:
		l := make([]iotago.Feature, n)
		all := []iotago.Feature{&iotago.SenderFeature{}, &iotago.IssuerFeature{}, &iotago.MetadataFeature{}, &iotago.StateMetadataFeature{}, &iotago.TagFeature{}, &iotago.NativeTokenFeature{}, &iotago.BlockIssuerFeature{}, &iotago.StakingFeature{}}
		no := func(x iotago.Feature) []int {
			for k, y := range all {
				if reflect.TypeOf(x) == reflect.TypeOf(y) {
					return []int{k}
				}
			}
			return []int{99}
		}
		for k := range l {
			l[k] = all[g.Intn(len(all))]
		}
		return orderOf("Feature", l, no, func(x, y iotago.Feature) int { return x.Compare(y) }, func(l []iotago.Feature) { iotago.Features[iotago.Feature](l).Sort() }, nil)
	}
}

func orderConds(g *rand.Rand) *orderRec {
	all := []iotago.UnlockCondition{&iotago.AddressUnlockCondition{}, &iotago.StorageDepositReturnUnlockCondition{}, &iotago.TimelockUnlockCondition{}, &iotago.ExpirationUnlockCondition{}, &iotago.StateControllerAddressUnlockCondition{}, &iotago.GovernorAddressUnlockCondition{}, &iotago.ImmutableAccountUnlockCondition{}}
	no := func(x iotago.UnlockCondition) []int {
		for k, y := range all {
			if reflect.TypeOf(x) == reflect.TypeOf(y) {
				return []int{k}
			}
		}
		return []int{99}
	}
	l := make([]iotago.UnlockCondition, g.Intn(5))
	for k := range l {
		l[k] = all[g.Intn(len(all))]
	}
	return orderOf("UnlockCondition", l, no, func(x, y iotago.UnlockCondition) int { return x.Compare(y) }, func(l []iotago.UnlockCondition) { iotago.UnlockConditions[iotago.UnlockCondition](l).Sort() }, nil)
}

func orderAtts(g *rand.Rand) *orderRec {
	l := make([]*iotago.Attestation, g.Intn(5))
	for k := range l {
		a := &iotago.Attestation{}
		a.Header.IssuingTime = psets[0].API.TimeProvider().SlotStartTime(iotago.SlotIndex(5 + g.Intn(2)))
		a.Header.SlotCommitmentID = iotago.NewCommitmentID(iotago.SlotIndex(g.Intn(2)*300), iotago.Identifier{byte(g.Intn(3))})
		a.BodyHash[g.Intn(2)*31] = byte(g.Intn(3))
		l[k] = a
	}
	return orderOf("Attestation", l, func(a *iotago.Attestation) []int {
		return append([]int{int(a.Header.SlotCommitmentID.Slot()), int(psets[0].API.TimeProvider().SlotFromTime(a.Header.IssuingTime))}, msgBytes(a.BodyHash[:])...)
	}, func(x, y *iotago.Attestation) int { return x.Compare(y) }, func(l []*iotago.Attestation) { sort.Slice(l, func(a, b int) bool { return l[a].Compare(l[b]) < 0 }) }, nil)
}

// ----------------------------------------------------------- identifiers ---

type identRec struct {
	Op    string `json:"op"`
	Kind  string `json:"kind"`
	B     []int  `json:"b"`
	Hex   []int  `json:"hex"`  // text
	Back  int    `json:"back"` // text gives the identifier
	Slot  Num    `json:"slot"`
	Index int    `json:"index"`
	Made  int    `json:"made"` // putting the parts together gives the identifier
	Bytes int    `json:"bytes"`
	Used  int    `json:"used"` // of longer bytes
	Zero  int    `json:"zero"`
	Short int    `json:"short"` // shorter bytes or text accepted
	Plain []int  `json:"plain"` // the text for texts of other encodings
	Pback int    `json:"pback"`
	Poor  int    `json:"poor"`  // such texts of another length accepted
	Alias int    `json:"alias"` // an alias is given while it is registered, and the text otherwise
	Panic string `json:"panic"`
}

type identT interface {
	comparable
	ToHex() string
	Empty() bool
	Bytes() ([]byte, error)
	MarshalText() ([]byte, error)
	RegisterAlias(alias string)
	Alias() string
	UnregisterAlias()
}

// identOf fills in what all identifiers have in common; the alias is only asked for if nobody else registers one for a zero identifier.
func identOf[T identT, P interface {
	*T
	UnmarshalText(text []byte) error
}](g *rand.Rand, kind string, x T, b []byte, fromHex func(string) (T, error), fromBytes func([]byte) (T, int, error), parts func(r *identRec)) *identRec {
	r := &identRec{Op: "ident", Kind: kind, B: msgBytes(b), Hex: []int{}, Plain: []int{}, Slot: N(0), Index: -1, Made: 1}
	err, p := guard(func() error {
		text := x.ToHex()
		r.Hex = msgBytes([]byte(text))
		y, err := fromHex(text)
		r.Back = b2i(err == nil && y == x)
		z, n, err := fromBytes(append([]byte{}, b...))
		own, _ := x.Bytes()
		r.Bytes = b2i(err == nil && z == x && n == len(b) && bytes.Equal(own, b))
		more := append(append([]byte{}, b...), make([]byte, 1+g.Intn(40))...)
		z, r.Used, err = fromBytes(more)
		if err != nil || z != x {
			r.Used = -1
		}
		r.Zero = b2i(x.Empty())
		cut := 1 + g.Intn(len(b))
		if _, err := fromHex(text[:len(text)-2*cut]); err == nil {
			r.Short++
		}
		if _, _, err := fromBytes(b[:len(b)-cut]); err == nil {
			r.Short++
		}
		plain, err := x.MarshalText()
		if err != nil {
			return nil
		}
		r.Plain = msgBytes(plain)
		var w T
		r.Pback = b2i(P(&w).UnmarshalText(plain) == nil && w == x)
		if P(&w).UnmarshalText(plain[:len(plain)-2*cut]) == nil {
			r.Poor++
		}
		if P(&w).UnmarshalText(append(append([]byte{}, plain...), plain[:2*cut]...)) == nil {
			r.Poor++
		}
		before := x.Alias()
		x.RegisterAlias("a")
		first := x.Alias()
		x.RegisterAlias("b")
		second := x.Alias()
		x.UnregisterAlias()
		r.Alias = b2i(before == text && first == "a" && second == "b" && x.Alias() == text)
		parts(r)
		return nil
	})
	if p {
		r.Panic = errStr(err)
	}
	return r
}

func identRandom(g *rand.Rand, k int) *identRec {
	rnd := func(b []byte) []byte {
		if g.Intn(5) > 0 {
			g.Read(b)
		} else if g.Intn(2) == 0 {
			b[g.Intn(len(b))] = 1
		}
		return b
	}
	none := func(*identRec) {}
	switch k % 8 {
	case 0:
		var x iotago.BlockID
		return identOf(g, "BlockID", iotago.BlockID(rnd(x[:])), x[:], iotago.BlockIDFromHexString, iotago.BlockIDFromBytes, func(r *identRec) {
			r.Slot, r.Made = N(uint64(x.Slot())), b2i(iotago.NewBlockID(x.Slot(), x.Identifier()) == x && x.Index() == x.Slot())
		})
	case 1:
		var x iotago.TransactionID
		return identOf(g, "TransactionID", iotago.TransactionID(rnd(x[:])), x[:], iotago.TransactionIDFromHexString, iotago.TransactionIDFromBytes, func(r *identRec) {
			r.Slot, r.Made = N(uint64(x.Slot())), b2i(iotago.NewTransactionID(x.Slot(), x.Identifier()) == x && x.Index() == x.Slot())
		})
	case 2:
		var x iotago.CommitmentID
		return identOf(g, "CommitmentID", iotago.CommitmentID(rnd(x[:])), x[:], iotago.CommitmentIDFromHexString, iotago.CommitmentIDFromBytes, func(r *identRec) {
			r.Slot, r.Made = N(uint64(x.Slot())), b2i(iotago.NewCommitmentID(x.Slot(), x.Identifier()) == x && x.Index() == x.Slot())
		})
	case 3:
		var x iotago.SignedTransactionID
		return identOf(g, "SignedTransactionID", iotago.SignedTransactionID(rnd(x[:])), x[:], iotago.SignedTransactionIDFromHexString, iotago.SignedTransactionIDFromBytes, func(r *identRec) {
			r.Slot, r.Made = N(uint64(x.Slot())), b2i(iotago.NewSignedTransactionID(x.Slot(), x.Identifier()) == x && x.Index() == x.Slot())
		})
	case 4:
		var x iotago.Identifier
		return identOf(g, "Identifier", iotago.Identifier(rnd(x[:])), x[:], iotago.IdentifierFromHexString, iotago.IdentifierFromBytes, none)
	case 5:
		var x iotago.AccountID
		return identOf(g, "AccountID", iotago.AccountID(rnd(x[:])), x[:], iotago.AccountIDFromHexString, iotago.AccountIDFromBytes, func(r *identRec) {
			a, ok := x.ToAddress().(*iotago.AccountAddress)
			r.Made = b2i(ok && a.AccountID() == x && x.Matches(x) && x.Addressable())
		})
	case 6:
		var x iotago.AnchorID
		return identOf(g, "AnchorID", iotago.AnchorID(rnd(x[:])), x[:], iotago.AnchorIDFromHexString, iotago.AnchorIDFromBytes, func(r *identRec) {
			a, ok := x.ToAddress().(*iotago.AnchorAddress)
			r.Made = b2i(ok && a.AnchorID() == x && x.Matches(x) && x.Addressable())
		})
	default:
		var x iotago.OutputID
		return identOf(g, "OutputID", iotago.OutputID(rnd(x[:])), x[:], iotago.OutputIDFromHexString, iotago.OutputIDFromBytes, func(r *identRec) {
			tid := x.TransactionID()
			in := x.UTXOInput()
			sp, ix, err := iotago.OutputIDHex(x.ToHex()).SplitParts()
			ui, err2 := iotago.OutputIDHex(x.ToHex()).AsUTXOInput()
			l, err3 := iotago.HexOutputIDsFromOutputIDs(x, x).OutputIDs()
			r.Made = b2i(iotago.OutputIDFromTransactionIDAndIndex(tid, x.Index()) == x && in.OutputID() == x && in.Index() == x.Index() && bytes.Equal(in.TransactionID[:], x[:36]) && in.CreationSlot() == x.CreationSlot() &&
				err == nil && *sp == tid && ix == x.Index() && err2 == nil && ui.OutputID() == x && err3 == nil && len(l) == 2 && l[0] == x && l[1] == x)
			r.Slot, r.Index = N(uint64(x.Slot())), int(x.Index())
			short := x.ToHex()[:len(x.ToHex())-2*(1+g.Intn(38))]
			if _, _, err := iotago.OutputIDHex(short).SplitParts(); err == nil {
				r.Short++
			}
		})
	}
}

// --------------------------------------------------- numbers and addresses ---

type readRec struct {
	Op   string `json:"op"`
	Kind string `json:"kind"`
	B    []int  `json:"b"`
	Ok   int    `json:"ok"`
	Used int    `json:"used"`
	V    []int  `json:"v"` // its bytes again
	N    Num    `json:"n"` // its value, for numbers
	Text []int  `json:"text"`
}

func readRandom(g *rand.Rand) *readRec {
	b := make([]byte, g.Intn(8))
	g.Read(b)
	r := &readRec{Op: "read", V: []int{}, N: N(0), Text: []int{}}
	addr := func(kind string, f func(io.ReadSeeker) (iotago.Address, error)) *readRec {
		r.Kind = kind
		x := make([]byte, 32)
		if g.Intn(4) > 0 {
			g.Read(x)
		}
		t := []byte{0, 8, 16, 24, 32, 1, 255}[g.Intn(7)]
		b = append(append([]byte{t}, x...), b...)
		switch y := g.Intn(8); {
		case y == 0:
			b = b[:g.Intn(34)]
		case y == 1 && kind == "Address": // restricted
			c := make([]byte, g.Intn(3))
			if len(c) > 0 {
				g.Read(c)
				c[len(c)-1] |= 1
			}
			if len(c) == 2 {
				c[1] = 1
			}
			b[0] = []byte{0, 8, 16, 24}[g.Intn(4)]
			b = append(append(append(append([]byte{48}, b[:33]...), byte(len(c))), c...), b[33:]...)
		}
		rd := bytes.NewReader(b)
		err, p := guard(func() error {
			a, err := f(rd)
			if err != nil {
				return err
			}
			id := append([]byte{byte(a.Type())}, a.ID()[1:]...)
			if x, ok := a.(*iotago.RestrictedAddress); ok {
				id = append([]byte{48, byte(x.Address.Type())}, x.Address.ID()[1:]...)
				id = append(append(id, byte(len(x.AllowedCapabilities))), x.AllowedCapabilities...)
			}
			r.V = msgBytes(id)
			return nil
		})
		r.Ok, r.Used = b2i(err == nil), len(b)-rd.Len()
		if p {
			r.Ok = 2
		}
		if r.Ok != 1 {
			r.Used = 0
		}
		return r
	}
	switch g.Intn(9) {
	case 0:
		r.Kind = "Version"
		v, n, err := iotago.VersionFromBytes(b)
		back, _ := v.Bytes()
		r.Ok, r.Used, r.N, r.V = b2i(err == nil), n, N(uint64(v)), msgBytes(back)
	case 1:
		r.Kind = "SlotIndex"
		v, n, err := iotago.SlotIndexFromBytes(b)
		back, _ := v.Bytes()
		r.Ok, r.Used, r.N, r.V = b2i(err == nil), n, N(uint64(v)), msgBytes(back)
	case 2:
		r.Kind = "EpochIndex"
		v, n, err := iotago.EpochIndexFromBytes(b)
		back, _ := v.Bytes()
		r.Ok, r.Used, r.N, r.V = b2i(err == nil), n, N(uint64(v)), msgBytes(back)
	case 3:
		r.Kind = "hex"
		t := hexutil.EncodeHex(b)
		back, err := hexutil.DecodeHex(t)
		r.Ok, r.Used, r.V, r.Text = b2i(err == nil), len(b), msgBytes(back), msgBytes([]byte(t))
	case 4:
		addr("Account", func(r io.ReadSeeker) (iotago.Address, error) { return iotago.AccountAddressFromReader(r) })
	case 5:
		addr("NFT", func(r io.ReadSeeker) (iotago.Address, error) { return iotago.NFTAddressFromReader(r) })
	case 6:
		addr("Anchor", func(r io.ReadSeeker) (iotago.Address, error) { return iotago.AnchorAddressFromReader(r) })
	case 7:
		addr("Implicit", func(r io.ReadSeeker) (iotago.Address, error) {
			return iotago.ImplicitAccountCreationAddressFromReader(r)
		})
	default:
		addr("Address", iotago.AddressFromReader)
	}
	r.B = msgBytes(b)
	return r
}

func copiesCmd(in, out, _ string, seed int64, n int) {
	type hist struct {
		Op    string
		Ops   []copyStep
		Kind  string
		Init  [][2]int
		Steps []listStep
	}
	hs, ls := []hist{}, []hist{}
	if in != "" {
		readLines(in, func(b []byte) {
			var h hist
			must(json.Unmarshal(b, &h))
			if h.Op == "history" {
				hs = append(hs, h)
			} else {
				ls = append(ls, h)
			}
		})
	}
	var recs []any
	kinds := append(append([]any{}, copyKinds...), copyLists...)
	g := rand.New(rand.NewSource(seed))
	seeds := []int64{}
	type job struct{ k, h int }
	jobs := []job{}
	for h := range hs {
		for rep := 0; rep < n/10000+1; rep++ {
			k := (h*7 + rep*13) % len(kinds)
			for d := 0; d < 4; d++ {
				jobs = append(jobs, job{(k + d*17) % len(kinds), h})
				seeds = append(seeds, g.Int63())
			}
		}
	}
	hout := make([]*copyHistRec, len(jobs))
	parallel(len(jobs), func(k int) {
		hout[k] = copyHistory(rand.New(rand.NewSource(seeds[k])), kinds[jobs[k].k], hs[jobs[k].h].Ops)
	})
	for _, r := range hout {
		if r != nil {
			recs = append(recs, r)
		}
	}
	for _, h := range ls {
		r := &listRec{Op: "list", Kind: h.Kind, Init: h.Init, Steps: h.Steps}
		if r.Init == nil {
			r.Init = [][2]int{}
		}
		r.run()
		recs = append(recs, r)
	}
	for k := 0; k < n; k++ {
		switch k % 12 {
		case 9:
			recs = append(recs, orderConds(g))
		case 10:
			recs = append(recs, orderAtts(g))
		case 11:
			recs = append(recs, identRandom(g, k/12))
		case 8:
			recs = append(recs, readRandom(g))
		default:
			recs = append(recs, orderRandom(g, k))
		}
	}
	writeLines(out, recs)
}
