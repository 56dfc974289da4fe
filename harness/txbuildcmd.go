package main

import (
	"bytes"
	"encoding/json"
	"math/rand"
	"reflect"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/builder"
)

// The transaction builder fed with the inputs, outputs and rewards of a
// record, asked to distribute mana, cloned, and built.

func init() { commands["txbuild"] = txBuildCmd }

type tbOp struct {
	M    string `json:"m"` // allot bound all store min cost left
	Acc  int    `json:"acc"`
	Mana Num    `json:"mana"`
	Idx  int    `json:"idx"`
	At   int    `json:"at"`
	Ign  []int  `json:"ign"`
}
type tbShare struct {
	Acc  int `json:"acc"`
	Mana Num `json:"mana"`
}
type tbMana struct {
	Err     int       `json:"err"`
	Total   Num       `json:"total"`
	Unbound Num       `json:"unbound"`
	Pot     Num       `json:"pot"`
	Stored  Num       `json:"stored"`
	Upot    Num       `json:"upot"`
	Ustored Num       `json:"ustored"`
	Rew     Num       `json:"rew"`
	Bound   []tbShare `json:"bound"`
}
type tbVal struct {
	Err  int    `json:"err"`
	V    Num    `json:"v"`
	Mana tbMana `json:"mana"`
}
type tbBuilt struct {
	Err    int       `json:"err"`
	Unl    []Unl     `json:"unl"`
	Outs   []Num     `json:"outs"`
	Allot  []tbShare `json:"allot"`
	Sorted int       `json:"sorted"`
	Ctx    []Ctx     `json:"ctx"`
	Same   int       `json:"same"`
	Again  int       `json:"again"`
	why    string
}
type tbRec struct {
	Kind  string   `json:"kind"`
	R     *Rec     `json:"r"`
	Tg    []Addr   `json:"tg"`
	Keys  []int    `json:"keys"`
	Ops   []tbOp   `json:"ops"`
	Clone int      `json:"clone"`
	At    int      `json:"at"`
	Avail *tbMana  `json:"avail,omitempty"`
	Vals  []tbVal  `json:"vals"`
	Built *tbBuilt `json:"built,omitempty"`
	Orig  *tbBuilt `json:"orig,omitempty"`
	Panic int      `json:"panic"`
	Err   string   `json:"err"`
}

// symbols of accounts
func (q *tbRec) symbols(b *binder) map[iotago.AccountID]int {
	m := map[iotago.AccountID]int{{}: 0}
	add := func(n int) { m[b.chain(n)] = n }
	for _, i := range q.R.Ins {
		add(i.Own)
		add(i.Out.ID)
	}
	for _, o := range q.R.Tx.Outs {
		add(o.ID)
	}
	for _, a := range q.R.Tx.Allot {
		add(a.Acc)
	}
	for _, c := range q.R.Tx.Ctx {
		if c.K == "bic" {
			add(c.Acc)
		}
	}
	for _, o := range q.Ops {
		add(o.Acc)
	}
	eachAddr(q.R, func(a *Addr) {
		if a.K == "acc" {
			add(a.N)
		}
	})
	m[iotago.AccountID{}] = 0
	return m
}
func symOf(m map[iotago.AccountID]int, id iotago.AccountID) int {
	if n, ok := m[id]; ok {
		return n
	}
	return -1
}

func absMana(v *builder.AvailableManaResult, err error, sym map[iotago.AccountID]int) tbMana {
	out := tbMana{Err: b2i(err != nil), Bound: []tbShare{}}
	if err != nil {
		return out
	}
	n := func(m iotago.Mana) Num { return N(uint64(m)) }
	out.Total, out.Unbound, out.Pot, out.Stored, out.Upot, out.Ustored, out.Rew = n(v.TotalMana), n(v.UnboundMana), n(v.PotentialMana), n(v.StoredMana), n(v.UnboundPotentialMana), n(v.UnboundStoredMana), n(v.Rewards)
	for a, m := range v.AccountBoundMana {
		out.Bound = append(out.Bound, tbShare{symOf(sym, a), n(m)})
	}
	return out
}

func absUnlock(u iotago.Unlock, msg []byte) Unl {
	switch x := u.(type) {
	case *iotago.SignatureUnlock:
		sig, ok := x.Signature.(*iotago.Ed25519Signature)
		if !ok {
			return Unl{K: "sig", Key: -1, Bad: 1}
		}
		for k := range privKeys {
			if len(privKeys[k]) > 0 && bytes.Equal(pubKey(k), sig.PublicKey[:]) {
				a := iotago.Ed25519AddressFromPubKey(sig.PublicKey[:])
				return Unl{K: "sig", Key: k, Bad: b2i(sig.Valid(msg, a) != nil)}
			}
		}
		return Unl{K: "sig", Key: -1, Bad: 1}
	case *iotago.ReferenceUnlock:
		return Unl{K: "ref", I: int(x.Reference)}
	case *iotago.AccountUnlock:
		return Unl{K: "acc", I: int(x.Reference)}
	case *iotago.AnchorUnlock:
		return Unl{K: "anc", I: int(x.Reference)}
	case *iotago.NFTUnlock:
		return Unl{K: "nft", I: int(x.Reference)}
	}
	return Unl{K: "empty"}
}

func storedMana(o iotago.Output) Num { return N(uint64(o.StoredMana())) }
func setMana(o iotago.Output, m iotago.Mana) {
	switch x := o.(type) {
	case *iotago.BasicOutput:
		x.Mana = m
	case *iotago.AccountOutput:
		x.Mana = m
	case *iotago.AnchorOutput:
		x.Mana = m
	case *iotago.NFTOutput:
		x.Mana = m
	}
}

func (q *tbRec) build(b *binder, tb *builder.TransactionBuilder, sym map[iotago.AccountID]int) *tbBuilt {
	out := &tbBuilt{Unl: []Unl{}, Outs: []Num{}, Allot: []tbShare{}, Ctx: []Ctx{}}
	st, err := tb.Build()
	if err != nil {
		out.Err, out.why = 1, errStr(err)
		if _, err := tb.BuildAndSwapToBlockBuilder(nil).Build(); err == nil {
			out.Err = 2 // swapping it for a block hides the failure
		}
		return out
	}
	tx := st.Transaction
	msg, err := signingMessage(tx)
	must(err)
	for _, u := range st.Unlocks {
		out.Unl = append(out.Unl, absUnlock(u, msg))
	}
	for _, o := range tx.Outputs {
		out.Outs = append(out.Outs, storedMana(o))
	}
	out.Sorted = 1
	for k, a := range tx.Allotments {
		out.Allot = append(out.Allot, tbShare{symOf(sym, a.AccountID), N(uint64(a.Mana))})
		if k > 0 && bytes.Compare(tx.Allotments[k-1].AccountID[:], a.AccountID[:]) >= 0 {
			out.Sorted = 0
		}
	}
	rank := map[int]int{}
	for _, c := range q.R.Tx.Ctx {
		if c.K == "bic" {
			rank[c.Acc] = c.R
		}
	}
	ref := b.tx()
	for _, c := range tx.TransactionEssence.ContextInputs {
		switch x := c.(type) {
		case *iotago.CommitmentInput:
			same := false
			for _, d := range ref.TransactionEssence.ContextInputs {
				same = same || reflect.DeepEqual(c, d)
			}
			if !same {
				out.Same = -1
			}
			out.Ctx = append(out.Ctx, Ctx{K: "cmt"})
		case *iotago.BlockIssuanceCreditInput:
			n := symOf(sym, x.AccountID)
			out.Ctx = append(out.Ctx, Ctx{K: "bic", Acc: n, R: rank[n]})
		case *iotago.RewardInput:
			out.Ctx = append(out.Ctx, Ctx{K: "rew", Idx: int(x.Index)})
		}
	}
	// everything else is what was put in
	enc, err := json.Marshal(tx.Outputs)
	must(err)
	c2 := tx.Clone()
	for k, o := range ref.Outputs {
		if k < len(tx.Outputs) {
			setMana(o, tx.Outputs[k].StoredMana())
		}
	}
	c2.TransactionEssence.ContextInputs, ref.TransactionEssence.ContextInputs = iotago.TxEssenceContextInputs{}, iotago.TxEssenceContextInputs{}
	c2.Allotments, ref.Allotments = iotago.Allotments{}, iotago.Allotments{}
	if q.sameTx(b, c2, ref) && out.Same == 0 {
		out.Same = 1
	} else {
		out.Same = 0
	}
	// building has no effect on the builder
	before, err := b.ps.API.Encode(st)
	st2, err2 := tb.Build()
	if err == nil && err2 == nil {
		after, err3 := b.ps.API.Encode(st2)
		out.Again = b2i(err3 == nil && bytes.Equal(before, after))
	} else {
		out.Again = b2i(err != nil && err2 == nil)
	}
	_ = enc
	// as does swapping it for a block
	var given iotago.ApplicationPayload
	if blk, err := tb.BuildAndSwapToBlockBuilder(func(t *iotago.SignedTransaction) { given = t }).Build(); err != nil || given == nil || !q.samePayload(b, blk.Body.(*iotago.BasicBlockBody).Payload, st) || !q.samePayload(b, given, st) {
		out.Again = 0
	}
	return out
}

func (q *tbRec) samePayload(b *binder, x, y iotago.Payload) bool {
	ex, e1 := b.ps.API.Encode(x)
	ey, e2 := b.ps.API.Encode(y)
	return (e1 != nil) == (e2 != nil) && bytes.Equal(ex, ey)
}

func (q *tbRec) sameTx(b *binder, x, y *iotago.Transaction) bool {
	ex, e1 := b.ps.API.Encode(x)
	ey, e2 := b.ps.API.Encode(y)
	if e1 != nil || e2 != nil {
		return e1 != nil && e2 != nil && reflect.DeepEqual(x.TransactionEssence.Inputs, y.TransactionEssence.Inputs)
	}
	return bytes.Equal(ex, ey)
}

func (q *tbRec) run() {
	b := newBinder(q.R)
	b.rankAll()
	q.Vals = []tbVal{}
	api := b.ps.API
	// one reward input per reward
	ctx := []Ctx{}
	for _, c := range q.R.Tx.Ctx {
		if c.K != "rew" {
			ctx = append(ctx, c)
		}
	}
	for _, w := range q.R.Rew {
		ctx = append(ctx, Ctx{K: "rew", Idx: w.I - 1})
	}
	q.R.Tx.Ctx = ctx
	sym := q.symbols(b)
	err, p := guard(func() error {
		var keys []iotago.AddressKeys
		for _, k := range q.Keys {
			keys = append(keys, iotago.AddressKeys{Address: b.addr(Addr{K: "ed", N: k}), Keys: privKeys[k]}, iotago.AddressKeys{Address: b.addr(Addr{K: "imp", N: k}), Keys: privKeys[k]})
		}
		tb := builder.NewTransactionBuilder(api, iotago.NewInMemoryAddressSigner(keys...))
		src := b.tx()
		tb.SetCreationSlot(src.CreationSlot)
		tb.WithTransactionCapabilities(src.Capabilities)
		if src.Payload != nil {
			tb.AddTaggedDataPayload(src.Payload.(*iotago.TaggedData))
		}
		for k := range q.R.Ins {
			in := &q.R.Ins[k]
			tb.AddInput(&builder.TxInput{UnlockTarget: b.addr(q.Tg[k]), InputID: oid(in), Input: b.output(in.Out).(iotago.Output)})
		}
		rew := 0
		for _, c := range src.TransactionEssence.ContextInputs {
			switch x := c.(type) {
			case *iotago.CommitmentInput:
				tb.AddCommitmentInput(x)
			case *iotago.BlockIssuanceCreditInput:
				tb.AddBlockIssuanceCreditInput(x)
			case *iotago.RewardInput:
				tb.AddRewardInput(x, iotago.Mana(q.R.Rew[rew].Mana.U64()))
				rew++
			}
		}
		for _, o := range src.Outputs {
			tb.AddOutput(o.(iotago.Output))
		}
		for _, a := range src.Allotments {
			tb.IncreaseAllotment(a.AccountID, a.Mana)
		}
		v, err := tb.CalculateAvailableManaInputs(iotago.SlotIndex(q.At))
		av := absMana(v, err, sym)
		q.Avail = &av
		orig := tb
		for k, o := range q.Ops {
			if k == q.Clone {
				tb = tb.Clone()
			}
			val := tbVal{Mana: tbMana{Bound: []tbShare{}}}
			at, acc, mana := iotago.SlotIndex(o.At), iotago.AccountID(b.chain(o.Acc)), iotago.Mana(o.Mana.U64())
			switch o.M {
			case "allot":
				tb.IncreaseAllotment(acc, mana)
			case "bound":
				var ign []iotago.AccountID
				for _, n := range o.Ign {
					ign = append(ign, b.chain(n))
				}
				tb.AllotRemainingAccountBoundMana(at, nil, ign...)
			case "all":
				tb.AllotAllMana(at, acc, mana)
			case "store":
				tb.StoreRemainingManaInOutputAndAllotRemainingAccountBoundMana(at, o.Idx)
			case "min":
				tb.AllotMinRequiredManaAndStoreRemainingManaInOutput(at, mana, acc, o.Idx)
			case "cost":
				c, err := tb.MinRequiredAllottedMana(mana, acc)
				val.Err = b2i(err != nil)
				if err == nil {
					val.V = N(uint64(c))
				}
			case "left":
				v, err := tb.CalculateAvailableManaRemaining(at)
				val.Mana = absMana(v, err, sym)
			}
			q.Vals = append(q.Vals, val)
		}
		if q.Clone == len(q.Ops) {
			tb = tb.Clone()
		}
		q.Built = q.build(b, tb, sym)
		q.Err = q.Built.why
		q.Orig = q.build(b, orig, sym)
		return nil
	})
	if p || err != nil {
		q.Panic, q.Err = 1, errStr(err)
		empty := &tbBuilt{Unl: []Unl{}, Outs: []Num{}, Allot: []tbShare{}, Ctx: []Ctx{}}
		q.Built, q.Orig = empty, empty
		if q.Avail == nil {
			q.Avail = &tbMana{Bound: []tbShare{}}
		}
	}
}

// who could unlock an input
func tbTarget(g *rand.Rand, i In) Addr {
	var as []Addr
	for _, u := range i.Out.UC {
		if u.K != 2 && u.K != 1 {
			as = append(as, u.A)
		}
	}
	if len(as) == 0 {
		return Addr{K: "ed", N: 1}
	}
	if g.Intn(10) > 0 {
		return as[0]
	}
	return as[g.Intn(len(as))]
}

// content that has an encoding at all
func tbEncodable(r *Rec) bool {
	q := *r
	err, p := guard(func() error {
		b := newBinder(&q)
		b.rankAll()
		_, err := signingMessage(b.tx())
		return err
	})
	return err == nil && !p
}

// conditions and features of one kind once each, which outputs take for granted
func tbUsable(r *Rec) bool {
	ok := r.Tx.Net == 1
	ids := map[[2]int]bool{}
	for _, i := range r.Ins {
		ok = ok && !ids[[2]int{i.Tx, i.Idx}]
		ids[[2]int{i.Tx, i.Idx}] = true
	}
	look := func(o *Out) {
		seen := map[[2]int]bool{}
		mark := func(l, k int) {
			ok = ok && !seen[[2]int{l, k}]
			seen[[2]int{l, k}] = true
		}
		for _, u := range o.UC {
			mark(0, u.K)
		}
		for _, k := range map[string][]int{"anchor": {4, 5}, "foundry": {6}, "basic": {0}, "account": {0}, "nft": {0}, "deleg": {0}}[o.T] {
			ok = ok && seen[[2]int{0, k}]
		}
		for _, f := range o.Ft {
			mark(1, f.K)
		}
		for _, f := range o.Imf {
			mark(2, f.K)
		}
	}
	for k := range r.Ins {
		look(&r.Ins[k].Out)
	}
	for k := range r.Tx.Outs {
		look(&r.Tx.Outs[k])
	}
	return ok
}

func randomBuild(g *rand.Rand, r *Rec) *tbRec {
	q := &tbRec{Kind: r.Kind, R: r, Keys: []int{}, Tg: []Addr{}, Clone: -1, Ops: []tbOp{}}
	if g.Intn(3) == 0 {
		g.Shuffle(len(r.Ins), func(a, b int) { r.Ins[a], r.Ins[b] = r.Ins[b], r.Ins[a] })
	}
	// what is to be given away has not been given yet
	accs, top := []int{}, 0
	note := func(n int) {
		if n != 0 {
			accs = append(accs, n)
		}
	}
	for k := range r.Ins {
		in := &r.Ins[k]
		if in.Own == 0 {
			in.Own = 7000 + k
		}
		if in.Out.T == "account" {
			if in.Out.ID == 0 {
				note(in.Own)
			}
			note(in.Out.ID)
		} else if in.Out.T == "basic" {
			for _, u := range in.Out.UC {
				if u.K == 0 && u.A.K == "imp" {
					note(in.Own)
				}
			}
		}
		if in.Slot > top {
			top = in.Slot
		}
		q.Tg = append(q.Tg, tbTarget(g, *in))
	}
	accs = append(accs, 6001, 6002)
	acc := func() int { return accs[g.Intn(len(accs))] }
	if r.Tx.Slot < top && g.Intn(4) > 0 {
		r.Tx.Slot = top
	}
	if g.Intn(3) > 0 {
		r.Tx.Allot = []Allot{}
	}
	for k := range r.Tx.Outs {
		o := &r.Tx.Outs[k]
		if g.Intn(3) > 0 {
			o.Mana = N(uint64(g.Intn(3)))
		}
		if o.T == "foundry" || o.T == "deleg" {
			o.Mana = N(0)
		}
		if o.T == "basic" && g.Intn(4) == 0 { // a lock of mana around the limit
			d := 2*int(psets[r.P].Params.MaxCommittableAge()) + g.Intn(4) - 1
			a := acc()
			o.UC = []UC{{K: 0, A: Addr{K: []string{"acc", "acc", "nft"}[g.Intn(3)], N: a}}, {K: 2, Slot: r.Tx.Slot + d}}
		}
	}
	for k := 1; k <= 12; k++ {
		if g.Intn(25) > 0 {
			q.Keys = append(q.Keys, k)
		}
	}
	q.At = r.Tx.Slot
	if g.Intn(6) == 0 {
		q.At += g.Intn(50)
	}
	mana := func() Num {
		switch g.Intn(6) {
		case 0:
			return N(0)
		case 1:
			return N(^uint64(0) - uint64(g.Intn(3)))
		case 2:
			return N(g.Uint64() >> uint(g.Intn(64)))
		}
		return N(uint64(g.Intn(2000)))
	}
	idx := func() int { return g.Intn(len(r.Tx.Outs) + 1) }
	for n := g.Intn(4); n > 0; n-- {
		o := tbOp{M: []string{"allot", "bound", "all", "store", "store", "min", "min", "cost", "left"}[g.Intn(9)], At: q.At, Ign: []int{}}
		switch o.M {
		case "allot":
			o.Acc, o.Mana = acc(), mana()
		case "bound":
			for g.Intn(2) == 0 {
				o.Ign = append(o.Ign, acc())
			}
		case "all":
			o.Acc = acc()
			if g.Intn(3) == 0 {
				o.Mana = mana()
			}
		case "store":
			o.Idx = idx()
		case "min":
			o.Idx, o.Acc, o.Mana = idx(), acc(), N(uint64(g.Intn(3)))
		case "cost":
			o.Acc, o.Mana = acc(), mana()
		}
		q.Ops = append(q.Ops, o)
	}
	if g.Intn(4) == 0 {
		q.Clone = g.Intn(len(q.Ops) + 1)
	}
	return q
}

func txBuildCmd(in, out, _ string, seed int64, n int) {
	var qs []*tbRec
	if in != "" {
		readLines(in, func(l []byte) {
			q := &tbRec{}
			must(json.Unmarshal(l, q))
			qs = append(qs, q)
		})
	} else {
		g := rand.New(rand.NewSource(seed))
		for _, r := range generate("", seed, n) {
			if tbUsable(r) && tbEncodable(r) {
				qs = append(qs, randomBuild(g, r))
			}
		}
	}
	parallel(len(qs), func(k int) { qs[k].run() })
	vs := make([]any, len(qs))
	for k := range qs {
		vs[k] = qs[k]
	}
	writeLines(out, vs)
}
