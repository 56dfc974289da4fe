package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"time"

	"github.com/iotaledger/hive.go/serializer/v2/serix"

	iotago "github.com/iotaledger/iota.go/v4"
)

// Blocks for BlockConform.tla.

type blockRec struct {
	P       int    `json:"p"`
	Ver     int    `json:"ver"`
	Net     int    `json:"net"`
	T       Num    `json:"t"`
	Commit  Num    `json:"commit"`
	Body    string `json:"body"`
	Strong  []int  `json:"strong"`
	Weak    []int  `json:"weak"`
	Shallow []int  `json:"shallow"`
	PK      string `json:"pk"`
	PTag    int    `json:"ptag"`
	PData   int    `json:"pdata"`
	Cre     Num    `json:"cre"`
	HasCin  int    `json:"hascin"`
	Cin     Num    `json:"cin"`
	TxLen   int    `json:"txlen"`
	TxOuts  int    `json:"txouts"`
	HSV     int    `json:"hsv"`
	Burn    Num    `json:"burn"`
	Fin     int    `json:"fin"`
	Res     *blockRes
}

type blockRes struct {
	Enc     string `json:"enc"`
	Dec     string `json:"dec"`
	From    string `json:"from"`
	Panic   int    `json:"panic"`
	Slot    Num    `json:"slot"`
	Parents int    `json:"parents"`
	Len     int    `json:"len"`
	Size    int    `json:"size"`
	ID      int    `json:"id"`
	Att     int    `json:"att"`
	RT      int    `json:"rt"`
	JSON    int    `json:"json"`
	TxOK    int    `json:"txok"`
	Err     string `json:"err"`
}

func (r *blockRec) MarshalJSON() ([]byte, error) {
	type plain blockRec
	b, err := json.Marshal((*plain)(r))
	if err != nil {
		return nil, err
	}
	m := map[string]any{}
	if err := json.Unmarshal(b, &m); err != nil {
		return nil, err
	}
	for _, k := range []string{"strong", "weak", "shallow"} {
		if m[k] == nil {
			m[k] = []int{}
		}
	}
	delete(m, "Res")
	m["res"] = r.Res
	return json.Marshal(m)
}

// blockID: the order of labels is the lexical order of identifiers
func blockID(label int) (id iotago.BlockID) {
	h := hash32([]byte(fmt.Sprintf("verif block %d", label)))
	copy(id[:], h[:])
	binary.BigEndian.PutUint16(id[:], uint16(label))
	binary.LittleEndian.PutUint32(id[32:], uint32(label*7%11))
	return
}

func blockIDs(labels []int) iotago.BlockIDs {
	out := iotago.BlockIDs{}
	for _, l := range labels {
		out = append(out, blockID(l))
	}
	return out
}

// parentLists: the three lists are parts of one array, as those of a caller who
// splits up a selection of parents
func parentLists(r *blockRec) (strong, weak, shallow iotago.BlockIDs) {
	all := blockIDs(append(append(append([]int{}, r.Strong...), r.Weak...), r.Shallow...))
	i, j := len(r.Strong), len(r.Strong)+len(r.Weak)
	return all[:i], all[i:j], all[j:]
}

func commitmentID(slot uint32) iotago.CommitmentID {
	return iotago.NewCommitmentID(iotago.SlotIndex(slot), iotago.Identifier(hash32([]byte("verif commitment"))))
}

func simpleTx(api iotago.API, cre uint32, cin *uint32, outs int) *iotago.SignedTransaction {
	ess := &iotago.TransactionEssence{NetworkID: api.ProtocolParameters().NetworkID(), CreationSlot: iotago.SlotIndex(cre)}
	if cin != nil {
		ess.ContextInputs = append(ess.ContextInputs, &iotago.CommitmentInput{CommitmentID: commitmentID(*cin)})
	}
	u := &iotago.UTXOInput{TransactionOutputIndex: 1}
	h := hash32([]byte("verif tx"))
	copy(u.TransactionID[:], h[:])
	ess.Inputs = append(ess.Inputs, u)
	tx := &iotago.Transaction{API: api, TransactionEssence: ess}
	for k := 0; k < outs; k++ {
		tx.Outputs = append(tx.Outputs, &iotago.BasicOutput{Amount: 1_000_000, UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: iotago.Ed25519AddressFromPubKey(pubKey(1 + k))}}})
	}
	msg, err := signingMessage(tx)
	must(err)
	sig := &iotago.Ed25519Signature{}
	copy(sig.PublicKey[:], pubKey(1))
	copy(sig.Signature[:], ed25519.Sign(privKeys[1], msg))
	return &iotago.SignedTransaction{API: api, Transaction: tx, Unlocks: iotago.Unlocks{&iotago.SignatureUnlock{Signature: sig}}}
}

func (r *blockRec) build() *iotago.Block {
	api := psets[r.P].API
	net := api.ProtocolParameters().NetworkID()
	if r.Net != 1 {
		net++
	}
	b := &iotago.Block{API: api, Header: iotago.BlockHeader{
		ProtocolVersion: iotago.Version(r.Ver), NetworkID: net, IssuingTime: fromNs(r.T), SlotCommitmentID: commitmentID(uint32(r.Commit.U64())),
		LatestFinalizedSlot: iotago.SlotIndex(r.Fin), IssuerID: iotago.AccountID(hash32([]byte("verif issuer"))),
	}}
	strong, weak, shallow := parentLists(r)
	if r.Body == "validation" {
		b.Body = &iotago.ValidationBlockBody{API: api, StrongParents: strong, WeakParents: weak, ShallowLikeParents: shallow,
			HighestSupportedVersion: iotago.Version(r.HSV), ProtocolParametersHash: iotago.Identifier(hash32([]byte("pp")))}
	} else {
		body := &iotago.BasicBlockBody{API: api, StrongParents: strong, WeakParents: weak, ShallowLikeParents: shallow, MaxBurnedMana: iotago.Mana(r.Burn.U64())}
		switch r.PK {
		case "tagged":
			body.Payload = &iotago.TaggedData{Tag: bytes.Repeat([]byte{9}, r.PTag), Data: bytes.Repeat([]byte{8}, r.PData)}
		case "cand":
			body.Payload = &iotago.CandidacyAnnouncement{}
		case "tx":
			var cin *uint32
			if r.HasCin == 1 {
				c := uint32(r.Cin.U64())
				cin = &c
			}
			body.Payload = simpleTx(api, uint32(r.Cre.U64()), cin, maxi(1, r.TxOuts))
		}
		b.Body = body
	}
	sig := &iotago.Ed25519Signature{}
	copy(sig.PublicKey[:], pubKey(3))
	// not a real signature: decoding does not look at it
	h := hash32([]byte(fmt.Sprint(r.Strong, r.T)))
	copy(sig.Signature[:], h[:])
	b.Signature = sig
	return b
}

func sameBlock(a, b *iotago.Block) bool {
	x, y := a.Header, b.Header
	if !x.IssuingTime.Equal(y.IssuingTime) {
		return false
	}
	x.IssuingTime, y.IssuingTime = time.Time{}, time.Time{}
	if !reflect.DeepEqual(x, y) || !reflect.DeepEqual(a.Signature, b.Signature) || a.Body.Type() != b.Body.Type() {
		return false
	}
	same := func(p, q iotago.BlockIDs) bool {
		if len(p) != len(q) {
			return false
		}
		for i := range p {
			if p[i] != q[i] {
				return false
			}
		}
		return true
	}
	if !same(a.Body.StrongParentIDs(), b.Body.StrongParentIDs()) || !same(a.Body.WeakParentIDs(), b.Body.WeakParentIDs()) || !same(a.Body.ShallowLikeParentIDs(), b.Body.ShallowLikeParentIDs()) {
		return false
	}
	switch p := a.Body.(type) {
	case *iotago.BasicBlockBody:
		q := b.Body.(*iotago.BasicBlockBody)
		if p.MaxBurnedMana != q.MaxBurnedMana || (p.Payload == nil) != (q.Payload == nil) {
			return false
		}
		switch u := p.Payload.(type) {
		case *iotago.SignedTransaction:
			v, ok := q.Payload.(*iotago.SignedTransaction)
			return ok && sameTx(u, v)
		case *iotago.TaggedData:
			v, ok := q.Payload.(*iotago.TaggedData)
			return ok && bytes.Equal(u.Tag, v.Tag) && bytes.Equal(u.Data, v.Data)
		case *iotago.CandidacyAnnouncement:
			_, ok := q.Payload.(*iotago.CandidacyAnnouncement)
			return ok
		}
		return true
	case *iotago.ValidationBlockBody:
		q := b.Body.(*iotago.ValidationBlockBody)
		return p.HighestSupportedVersion == q.HighestSupportedVersion && p.ProtocolParametersHash == q.ProtocolParametersHash
	}
	return false
}

func flag01(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (r *blockRec) run() {
	res := &blockRes{TxOK: 1}
	r.Res = res
	api := psets[r.P].API
	b := r.build()
	try := func(f func() error) error {
		err, p := guard(f)
		if p {
			res.Panic = 1
		}
		if err != nil && res.Err == "" {
			res.Err = errStr(err)
		}
		return err
	}
	if body, ok := b.Body.(*iotago.BasicBlockBody); ok && body.Payload != nil && r.PK == "tx" {
		raw, err := api.Encode(body.Payload)
		must(err)
		r.TxLen = len(raw)
		_, err = api.Decode(raw, &iotago.SignedTransaction{}, serix.WithValidation())
		res.TxOK = flag01(err == nil)
		res.Err = errStr(err)
	}
	res.Enc = classify(try(func() error { _, e := api.Encode(b, serix.WithValidation()); return e }))
	raw, err := api.Encode(b)
	if err != nil {
		// more elements than the type holds
		res.Dec, res.From = "encode", "encode"
		res.Slot, res.Parents = N(uint64(b.Slot())), 1
		return
	}
	dec := &iotago.Block{}
	res.Dec = classify(try(func() error {
		n, e := api.Decode(raw, dec, serix.WithValidation())
		if e == nil && n != len(raw) {
			e = fmt.Errorf("decoded %d of %d bytes", n, len(raw))
		}
		return e
	}))
	var from *iotago.Block
	res.From = classify(try(func() (e error) {
		from, _, e = iotago.BlockFromBytes(iotago.SingleVersionProvider(api))(raw)
		return
	}))
	if res.Dec == "ok" {
		re, e := api.Encode(dec)
		res.RT = flag01(e == nil && bytes.Equal(re, raw) && sameBlock(dec, b) && (res.From != "ok" || sameBlock(from, b)))
		_ = try(func() error {
			j, e := api.JSONEncode(b)
			if e != nil {
				return e
			}
			q := &iotago.Block{}
			if e := api.JSONDecode(j, q, serix.WithValidation()); e != nil {
				return e
			}
			re, e := api.Encode(q)
			res.JSON = flag01(e == nil && bytes.Equal(re, raw))
			return e
		})
	}
	_ = try(func() error {
		res.Slot = N(uint64(b.Slot()))
		var want []iotago.Parent
		for _, x := range r.Strong {
			want = append(want, iotago.Parent{ID: blockID(x), Type: iotago.StrongParentType})
		}
		for _, x := range r.Weak {
			want = append(want, iotago.Parent{ID: blockID(x), Type: iotago.WeakParentType})
		}
		for _, x := range r.Shallow {
			want = append(want, iotago.Parent{ID: blockID(x), Type: iotago.ShallowLikeParentType})
		}
		i, ok := 0, len(b.ParentsWithType()) == len(want) && len(b.Parents()) == len(want)
		b.ForEachParent(func(p iotago.Parent) {
			ok = ok && i < len(want) && p == want[i] && b.Parents()[i] == p.ID && b.ParentsWithType()[i] == p
			i++
		})
		res.Parents = flag01(ok && i == len(want))
		return nil
	})
	res.Len = len(raw)
	_ = try(func() error { res.Size = b.Size(); return nil })
	_ = try(func() error {
		const hl, sl = 89, 97
		h1, h2 := hash32(raw[:hl]), hash32(raw[hl:len(raw)-sl])
		h := hash32(h1[:], h2[:], raw[len(raw)-sl:])
		slot := uint32(b.Slot())
		want := binary.LittleEndian.AppendUint32(h[:], slot)
		id, e := b.ID()
		if e != nil {
			return e
		}
		i2, e := iotago.BlockIdentifierFromBlockBytes(raw)
		if e != nil {
			return e
		}
		res.ID = flag01(bytes.Equal(id[:], want) && uint32(id.Slot()) == slot && bytes.Equal(i2[:], h[:]) && b.MustID() == id)
		// an attestation stands for the block
		a := iotago.NewAttestation(api, b)
		ab, e := a.Bytes()
		if e != nil {
			return e
		}
		aid, e := a.BlockID()
		if e != nil {
			return e
		}
		a2 := &iotago.Attestation{}
		n, e := api.Decode(ab, a2, serix.WithValidation())
		if e != nil {
			return e
		}
		aid2, e := a2.BlockID()
		if e != nil {
			return e
		}
		ab2, e := a2.Bytes()
		if e != nil {
			return e
		}
		res.Att = flag01(aid == id && aid2 == id && n == len(ab) && bytes.Equal(ab, ab2) && len(ab) == hl+32+sl && bytes.Equal(ab[:hl], raw[:hl]) && bytes.Equal(ab[hl:hl+32], h2[:]) && bytes.Equal(ab[hl+32:], raw[len(raw)-sl:]))
		return nil
	})
}

func init() { commands["blocks"] = blocksCmd }

func randomBlock(g *rand.Rand) *blockRec {
	p := g.Intn(4)
	ps := psets[p].Params
	gs, minca, maxca := int(ps.GenesisSlot()), int(ps.MinCommittableAge()), int(ps.MaxCommittableAge())
	slot := gs + g.Intn(3*maxca)
	if g.Intn(3) == 0 {
		slot = gs + g.Intn(1<<uint(4+g.Intn(24)))
	}
	around := func(base int) Num {
		c := base - minca - g.Intn(maxi(1, maxca-minca+1))
		switch g.Intn(8) {
		case 0:
			c = base - minca + g.Intn(3) - 1
		case 1:
			c = base - maxca + g.Intn(3) - 1
		case 2:
			c = gs + g.Intn(3) - 1
		case 3:
			c = g.Intn(base + maxca)
		}
		if g.Intn(40) == 0 {
			return N(maxU32 - uint64(g.Intn(30)))
		}
		return N(uint64(maxi(0, c)))
	}
	r := &blockRec{P: p, Ver: int(ps.Version()), Net: 1, Body: "basic", PK: []string{"none", "tagged", "tx", "tx", "tx", "cand"}[g.Intn(6)], Fin: g.Intn(1 << 28), Burn: Num{new(big.Int).Rand(g, new(big.Int).Lsh(big.NewInt(1), uint(g.Intn(65))))}}
	if g.Intn(3) == 0 {
		r.Body, r.PK = "validation", "none"
	}
	tp := psets[p].API.TimeProvider()
	r.T = ns(tp.GenesisTime().Add(time.Duration(slot-gs-1) * time.Duration(tp.SlotDurationSeconds()) * time.Second))
	if slot > gs {
		r.T = r.T.AddI(g.Int63n(tp.SlotDurationSeconds() * 1e9))
	} else if g.Intn(2) == 0 {
		r.T = ns(tp.GenesisTime()).AddI(-1 - g.Int63n(1e18))
	}
	if slot <= gs {
		slot = gs
	}
	r.Commit = around(slot)
	maxp := 8
	if r.Body == "validation" {
		maxp = 50
	}
	list := func(least int) (out []int) {
		n := g.Intn(4)
		if g.Intn(6) == 0 {
			n = g.Intn(maxp + 2)
		}
		n = maxi(n, least)
		x := g.Intn(50)
		for len(out) < n {
			x += 1 + g.Intn(12)
			out = append(out, x)
		}
		if n > 1 && g.Intn(25) == 0 {
			i := g.Intn(n)
			out[i], out[g.Intn(n)] = out[g.Intn(n)], out[i]
		}
		return
	}
	r.Strong, r.Weak, r.Shallow = list(g.Intn(30)/29^1), list(0), list(0)
	if len(r.Weak) > 0 && g.Intn(3) != 0 { // mostly disjoint
		for i := range r.Weak {
			r.Weak[i] += 700
		}
	}
	if g.Intn(30) == 0 {
		r.Ver += g.Intn(3) - 1
	}
	if g.Intn(30) == 0 {
		r.Net = 0
	}
	r.HSV = r.Ver + g.Intn(3)
	if g.Intn(10) == 0 {
		r.HSV = maxi(0, r.Ver-g.Intn(3))
	}
	switch r.PK {
	case "tagged":
		r.PTag, r.PData = g.Intn(67), g.Intn(300)
		if g.Intn(5) == 0 {
			r.PData = 8190 + g.Intn(4)
		}
	case "tx":
		r.Cre = N(uint64(maxi(0, slot-g.Intn(5)+g.Intn(4)*g.Intn(2))))
		r.TxOuts = 1 + g.Intn(4)
		if g.Intn(3) != 0 {
			r.HasCin = 1
			r.Cin = around(slot)
			if g.Intn(2) == 0 && r.Cin.Cmp(r.Commit) > 0 {
				r.Cin = r.Commit
			}
		}
	}
	return r
}

func blocksCmd(in, out, _ string, seed int64, n int) {
	var recs []*blockRec
	if in != "" {
		readLines(in, func(b []byte) {
			r := &blockRec{}
			must(json.Unmarshal(b, r))
			recs = append(recs, r)
		})
	}
	g := rand.New(rand.NewSource(seed))
	for k := 0; k < n; k++ {
		recs = append(recs, randomBlock(g))
	}
	parallel(len(recs), func(k int) { recs[k].run() })
	vs := make([]any, len(recs))
	for i := range recs {
		vs[i] = recs[i]
	}
	writeLines(out, vs)
	dumpParams(out + ".params")
}
