package main

import (
	"bytes"
	"crypto"
	"encoding/json"
	"fmt"
	"reflect"
	"sync"

	"golang.org/x/crypto/blake2b"

	"github.com/iotaledger/iota.go/v4/merklehasher"

	iotago "github.com/iotaledger/iota.go/v4"
)

// report collects what a replay of cases generated by TLC found.
type report struct {
	mu      sync.Mutex
	n       int
	classes map[string]int
	lines   []any
	seen    map[string]int
}

func newReport() *report { return &report{classes: map[string]int{}, seen: map[string]int{}} }
func (r *report) class(c string) {
	r.mu.Lock()
	r.classes[c]++
	r.mu.Unlock()
}
func (r *report) bad(sig, what string, c any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.seen[sig]++
	if r.seen[sig] <= 3 {
		if len(what) > 1500 {
			what = what[:1500]
		}
		r.lines = append(r.lines, map[string]any{"sig": sig, "what": what, "case": c})
	}
}
func (r *report) write(out string) {
	r.lines = append(r.lines, map[string]any{"n": r.n, "classes": r.classes})
	writeLines(out, r.lines)
}

// term is a hash tree term or a proof as printed by the specification.
type term []any

func (t term) hash(leaf func(int) []byte) []byte {
	switch t[0].(string) {
	case "e":
		h := blake2b.Sum256(nil)
		return h[:]
	case "l":
		h := blake2b.Sum256(append([]byte{0}, leaf(int(t[1].(float64)))...))
		return h[:]
	case "n":
		b := append([]byte{1}, term(t[1].([]any)).hash(leaf)...)
		b = append(b, term(t[2].([]any)).hash(leaf)...)
		h := blake2b.Sum256(b)
		return h[:]
	}
	panic("bad term")
}

func proofOf[V merklehasher.Value](t term, leaf func(int) []byte) merklehasher.MerkleHashable[V] {
	switch t[0].(string) {
	case "V":
		return &merklehasher.ValueHash[V]{Hash: term(t[1].([]any)).hash(leaf)}
	case "L":
		return &merklehasher.LeafHash[V]{Hash: term(t[1].([]any)).hash(leaf)}
	case "N":
		return &merklehasher.Node[V]{Left: proofOf[V](t[1].([]any), leaf), Right: proofOf[V](t[2].([]any), leaf)}
	}
	panic("bad proof")
}

type merkleCase struct {
	S       []int    `json:"s"`
	I       int      `json:"i"`
	Root    term     `json:"root"`
	Proof   term     `json:"proof"`
	Values  []int    `json:"values"`
	Fields  []string `json:"fields"`
	Offered string   `json:"offered"`
	Muts    []struct {
		P term  `json:"p"`
		H term  `json:"h"`
		V []int `json:"v"`
	} `json:"muts"`
}

func ident(k int) iotago.Identifier {
	return iotago.IdentifierFromData([]byte(fmt.Sprintf("element %d", k)))
}

func merkleOutput(k int) iotago.TxEssenceOutput {
	b := blake2b.Sum256([]byte{byte(k), byte(k >> 8)})
	addr := iotago.Ed25519AddressFromPubKey(b[:])
	switch k % 3 {
	case 0:
		return &iotago.NFTOutput{Amount: iotago.BaseToken(1000 + k), UnlockConditions: iotago.NFTOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: addr}}}
	case 1:
		return &iotago.BasicOutput{Amount: iotago.BaseToken(1000 + k), Mana: iotago.Mana(k), UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: addr}}}
	}
	return &iotago.BasicOutput{Amount: iotago.BaseToken(1000 + k), UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: addr}},
		Features: iotago.BasicOutputFeatures{&iotago.TagFeature{Tag: bytes.Repeat([]byte{7}, 1+k%60)}}}
}

func merkleReplay[V merklehasher.Value](kind string, c *merkleCase, el func(int) V, bad func(sig, what string)) {
	leaf := func(k int) []byte {
		b, err := el(k).Bytes()
		must(err)
		return b
	}
	h := merklehasher.NewHasher[V](crypto.BLAKE2b_256)
	vals := make([]V, len(c.S))
	for j, k := range c.S {
		vals[j] = el(k)
	}
	want := c.Root.hash(leaf)
	if got, err := h.HashValues(vals); err != nil || !bytes.Equal(got, want) {
		bad("root", fmt.Sprintf("%s: root of %v is %x (%v), expected %x", kind, c.S, got, err, want))
	}
	if len(c.S) == 0 && !bytes.Equal(h.EmptyRoot(), want) {
		bad("empty root", fmt.Sprintf("%x, expected %x", h.EmptyRoot(), want))
	}
	if c.I == 0 {
		if _, err := h.ComputeProofForIndex(vals, len(vals)); err == nil {
			bad("proof for a position outside the list", fmt.Sprintf("%s: list %v", kind, c.S))
		}
		if _, err := h.ComputeProof(vals, el(999)); err == nil {
			bad("proof for a value outside the list", fmt.Sprintf("%s: list %v", kind, c.S))
		}
		return
	}
	wantP := proofOf[V](c.Proof, leaf)
	p, err := h.ComputeProofForIndex(vals, c.I-1)
	if err != nil || !reflect.DeepEqual(p.MerkleHashable, wantP) {
		bad("proof", fmt.Sprintf("%s: proof for position %d of %v differs (%v)", kind, c.I, c.S, err))
		return
	}
	if !bytes.Equal(p.Hash(h), want) {
		bad("hash of proof", fmt.Sprintf("%s: position %d of %v", kind, c.I, c.S))
	}
	// the proof for the value is the proof for its first position
	first := 0
	for c.S[first] != c.S[c.I-1] {
		first++
	}
	if first == c.I-1 {
		q, err := h.ComputeProof(vals, vals[c.I-1])
		if err != nil || !reflect.DeepEqual(q, p) {
			bad("proof by value", fmt.Sprintf("%s: value at %d of %v: %v", kind, c.I, c.S, err))
		}
	}
	for _, v := range c.Values {
		ok, err := p.ContainsValue(el(v), h)
		if err != nil || ok != (v == c.S[c.I-1]) {
			bad("ContainsValue", fmt.Sprintf("%s: proof for position %d of %v contains %d: %v %v", kind, c.I, c.S, v, ok, err))
		}
	}
	for _, m := range c.Muts {
		q := &merklehasher.Proof[V]{MerkleHashable: proofOf[V](m.P, leaf)}
		if !bytes.Equal(q.Hash(h), m.H.hash(leaf)) {
			bad("hash of tampered proof", fmt.Sprintf("%s: %v", kind, m.P))
		}
		for _, v := range c.Values {
			want := false
			for _, x := range m.V {
				want = want || x == v
			}
			if ok, err := q.ContainsValue(el(v), h); err != nil || ok != want {
				bad("ContainsValue of tampered proof", fmt.Sprintf("%s: %v value %d: %v, expected %v", kind, m.P, v, ok, want))
			}
		}
	}
	// encodings
	if kind == "identifiers" {
		b, err := p.Bytes()
		q, n, err2 := merklehasher.ProofFromBytes[V](b)
		if err != nil || err2 != nil || n != len(b) || !reflect.DeepEqual(p, q) {
			bad("binary encoding of proof", fmt.Sprintf("position %d of %v: %v %v", c.I, c.S, err, err2))
		}
		j, err := p.JSONEncode()
		q, err2 = merklehasher.ProofFromJSON[V](j)
		if err != nil || err2 != nil || !reflect.DeepEqual(p, q) {
			bad("JSON encoding of proof", fmt.Sprintf("position %d of %v: %v %v", c.I, c.S, err, err2))
		}
	}
}

func merkleRoots(c *merkleCase, bad func(sig, what string)) {
	leaf := func(k int) []byte { i := ident(k); return i[:] }
	r := &iotago.Roots{}
	for j, f := range c.Fields {
		reflect.ValueOf(r).Elem().FieldByName(f).Set(reflect.ValueOf(ident(c.S[j])))
	}
	n := iotago.NewRoots(r.TangleRoot, r.StateMutationRoot, r.AttestationsRoot, r.StateRoot, r.AccountRoot, r.CommitteeRoot, r.RewardsRoot, r.ProtocolParametersHash)
	if *n != *r {
		bad("NewRoots", fmt.Sprint(n))
	}
	id := r.ID()
	if !bytes.Equal(id[:], c.Root.hash(leaf)) {
		bad("Roots.ID", id.String())
	}
	p := reflect.ValueOf(r).MethodByName(c.Offered).Call(nil)[0].Interface().(*merklehasher.Proof[iotago.Identifier])
	if !reflect.DeepEqual(p.MerkleHashable, proofOf[iotago.Identifier](c.Proof, leaf)) {
		bad("Roots."+c.Offered, fmt.Sprintf("%v", p))
	}
	for _, v := range c.Values {
		if iotago.VerifyProof(p, ident(v), id) != (v == c.S[c.I-1]) {
			bad("VerifyProof", fmt.Sprintf("%s of value %d", c.Offered, v))
		}
		if iotago.VerifyProof(p, ident(v), ident(999)) {
			bad("VerifyProof of other root", fmt.Sprintf("%s of value %d", c.Offered, v))
		}
	}
	for _, m := range c.Muts {
		q := &merklehasher.Proof[iotago.Identifier]{MerkleHashable: proofOf[iotago.Identifier](m.P, leaf)}
		for _, v := range c.Values {
			want := bytes.Equal(m.H.hash(leaf), id[:])
			has := false
			for _, x := range m.V {
				has = has || x == v
			}
			if iotago.VerifyProof(q, ident(v), id) != (want && has) {
				bad("VerifyProof of tampered proof", fmt.Sprintf("%s %v value %d", c.Offered, m.P, v))
			}
		}
	}
}

// outputProofs: the proof an output carries and the identifiers of transactions.
func outputProofs(c *merkleCase, bad func(sig, what string)) {
	api := psets[0].API
	tx := &iotago.Transaction{API: api, TransactionEssence: &iotago.TransactionEssence{
		NetworkID: api.ProtocolParameters().NetworkID(), CreationSlot: iotago.SlotIndex(77 + len(c.S)),
		ContextInputs: iotago.TxEssenceContextInputs{}, Inputs: iotago.TxEssenceInputs{&iotago.UTXOInput{TransactionID: iotago.TransactionIDRepresentingData(3, []byte{byte(c.I)}), TransactionOutputIndex: 5}},
		Allotments: iotago.Allotments{},
	}, Outputs: iotago.TxEssenceOutputs{}}
	for _, k := range c.S {
		tx.Outputs = append(tx.Outputs, merkleOutput(k))
	}
	leaf := func(k int) []byte {
		b, err := api.Encode(merkleOutput(k))
		must(err)
		return b
	}
	root := c.Root.hash(leaf)
	ess, err := api.Encode(tx.TransactionEssence)
	must(err)
	commit := blake2b.Sum256(ess)
	tid := blake2b.Sum256(append(append([]byte{}, commit[:]...), root...))
	slot := uint32(tx.CreationSlot)
	want := append(append([]byte{}, tid[:]...), byte(slot), byte(slot>>8), byte(slot>>16), byte(slot>>24))
	id, err := tx.ID()
	if err != nil || !bytes.Equal(id[:], want) {
		bad("transaction ID", fmt.Sprintf("%s, expected %x", id, want))
	}
	if id.Slot() != tx.CreationSlot {
		bad("slot of transaction ID", id.String())
	}
	idx := uint16(c.I - 1)
	wantID := append(append([]byte{}, want...), byte(idx), byte(idx>>8))
	p, err := iotago.OutputIDProofFromTransaction(tx, idx)
	if err != nil {
		bad("OutputIDProofFromTransaction", err.Error())
		return
	}
	if _, err := iotago.OutputIDProofFromTransaction(tx, uint16(len(c.S))); err == nil {
		bad("OutputIDProofFromTransaction outside the outputs", fmt.Sprint(c.S))
	}
	derive := func(p *iotago.OutputIDProof, o iotago.Output) (out []byte, fail bool) {
		var oid iotago.OutputID
		err, _ := guard(func() (e error) { oid, e = p.OutputID(o); return })
		return oid[:], err != nil
	}
	out := tx.Outputs[idx]
	if got, fail := derive(p, out); fail || !bytes.Equal(got, wantID) {
		bad("OutputID", fmt.Sprintf("%x, expected %x", got, wantID))
	}
	set, err := tx.OutputsSet()
	if err != nil || !set[iotago.OutputID(wantID)].Equal(out) {
		bad("OutputsSet", fmt.Sprintf("%x", wantID))
	}
	// another output
	for _, v := range c.Values {
		if v == c.S[c.I-1] {
			continue
		}
		if got, fail := derive(p, merkleOutput(v)); !fail {
			bad("OutputID of another output", fmt.Sprintf("list %v position %d output %d: %x", c.S, c.I, v, got))
		}
	}
	// altered fields of the proof
	alt := *p
	alt.Slot++
	if got, fail := derive(&alt, out); !fail && bytes.Equal(got, wantID) {
		bad("OutputID with another slot", "")
	}
	alt = *p
	alt.TransactionCommitment[len(c.S)%32] ^= 1
	if got, fail := derive(&alt, out); !fail && bytes.Equal(got, wantID) {
		bad("OutputID with another transaction commitment", "")
	}
	for _, m := range c.Muts {
		alt = *p
		alt.OutputCommitmentProof = &merklehasher.Proof[*iotago.APIByter[iotago.TxEssenceOutput]]{MerkleHashable: proofOf[*iotago.APIByter[iotago.TxEssenceOutput]](m.P, leaf)}
		for _, v := range c.Values {
			has := false
			for _, x := range m.V {
				has = has || x == v
			}
			got, fail := derive(&alt, merkleOutput(v))
			if fail == has {
				bad("OutputID with a tampered proof", fmt.Sprintf("%v for output %d: failed=%v", m.P, v, fail))
			}
			if !fail && (bytes.Equal(got, wantID) != bytes.Equal(m.H.hash(leaf), root)) {
				bad("OutputID with a tampered proof", fmt.Sprintf("%v for output %d: %x", m.P, v, got))
			}
		}
	}
	// an output must not pass for the output at another position
	for j := range c.S {
		if c.S[j] == c.S[c.I-1] {
			continue
		}
		alt = *p
		alt.OutputIndex = uint16(j)
		if got, fail := derive(&alt, out); !fail && bytes.Equal(got[:36], want) && got[36] == byte(j) {
			bad("OutputID:index not bound by the proof", fmt.Sprintf("the proof of output %d passes for output %d", idx, j))
		}
	}
	// encodings
	b, err := api.Encode(p)
	q := &iotago.OutputIDProof{}
	var n int
	if err == nil {
		n, err = api.Decode(b, q)
	}
	if err != nil || n != len(b) {
		bad("binary encoding of output proof", fmt.Sprint(err))
	} else if got, fail := derive(q, out); fail || !bytes.Equal(got, wantID) {
		bad("binary encoding of output proof", "decodes to another proof")
	}
	j, err := api.JSONEncode(p)
	q = &iotago.OutputIDProof{}
	if err == nil {
		err = api.JSONDecode(j, q)
	}
	if err != nil {
		bad("JSON encoding of output proof", fmt.Sprint(err))
	} else if got, fail := derive(q, out); fail || !bytes.Equal(got, wantID) {
		bad("JSON encoding of output proof", "decodes to another proof")
	}
}

func init() { commands["merkle"] = merkleCmd }

func merkleCmd(in, out, _ string, _ int64, _ int) {
	rep := newReport()
	var cases []*merkleCase
	readLines(in, func(b []byte) {
		c := &merkleCase{}
		must(json.Unmarshal(b, c))
		cases = append(cases, c)
	})
	rep.n = len(cases)
	parallel(len(cases), func(k int) {
		c := cases[k]
		bad := func(sig, what string) { rep.bad(sig, what, map[string]any{"s": c.S, "i": c.I, "offered": c.Offered}) }
		err, p := guard(func() error {
			if c.Offered != "" {
				rep.class("roots of a commitment")
				merkleRoots(c, bad)
				return nil
			}
			rep.class(fmt.Sprintf("list of %d", len(c.S)))
			merkleReplay("identifiers", c, ident, bad)
			merkleReplay("outputs", c, func(k int) *iotago.APIByter[iotago.TxEssenceOutput] {
				return iotago.APIByterFactory[iotago.TxEssenceOutput](psets[0].API)(merkleOutput(k))
			}, bad)
			if c.I > 0 && len(c.S) <= 128 {
				rep.class("output proof")
				outputProofs(c, bad)
			}
			return nil
		})
		if p {
			bad("panic", err.Error())
		}
	})
	rep.write(out)
}
