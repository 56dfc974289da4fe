package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	iotago "github.com/iotaledger/iota.go/v4"
)

// Random generation of transactions: lanes put together a transaction that is
// meant to follow the rules, the balance and the unlocks are then completed,
// and most often one fault is planted. Nothing here judges anything.

const fundTx = 9999

type gin struct {
	In
	rew *Num
}

type gen struct {
	*rand.Rand
	focus           string
	rec             *Rec
	ps              *PSet
	gs, exp         int
	minca, maxca    int
	near, unbond    int
	c, t, past, fut int
	nChain, nTx     int
	ins             []*gin
	outs            []*Out
	chains          []Addr // addresses that get unlocked by an input
	bic             map[int]int
	allot           map[int]Num
	cmt             bool
	lab             []string
	caps            int
	accOut          map[int]*Out // account outputs by chain symbol
}

func (g *gen) p(x float64) bool   { return g.Float64() < x }
func (g *gen) rng(a, b int) int   { return a + g.Intn(b-a+1) }
func (g *gen) pick(xs ...int) int { return xs[g.Intn(len(xs))] }
func (g *gen) epoch(slot int) int {
	if slot <= g.gs {
		return 0
	}
	return (slot - g.gs) >> g.exp
}
func (g *gen) epochStart(e int) int { return g.gs + e<<g.exp }
func (g *gen) sym() int             { g.nChain++; return g.nChain }

func newGen(r *rand.Rand, focus string) *gen {
	g := &gen{Rand: r, focus: focus, rec: &Rec{Cmt: -1}, bic: map[int]int{}, allot: map[int]Num{}, accOut: map[int]*Out{}}
	g.rec.P = []int{0, 1, 1, 1, 2, 2, 2, 3}[r.Intn(8)]
	g.ps = psets[g.rec.P]
	p := g.ps.Params
	g.gs, g.exp = int(p.GenesisSlot()), int(p.SlotsPerEpochExponent())
	g.minca, g.maxca = int(p.MinCommittableAge()), int(p.MaxCommittableAge())
	g.near, g.unbond = int(p.EpochNearingThreshold()), int(p.StakingUnbondingPeriod())
	span := 12 << g.exp
	g.c = g.gs + g.rng(0, span)
	if g.p(0.3) { // close to an epoch boundary
		e := g.rng(1, 12)
		g.c = g.epochStart(e) - g.pick(g.minca, g.maxca, g.near, g.near+g.maxca, g.near+g.minca, 0, 1) + g.rng(-1, 1)
		if g.c < g.gs {
			g.c = g.gs
		}
	}
	g.past, g.fut = g.c+g.maxca, g.c+g.minca
	g.t = g.c + g.rng(g.minca, g.maxca)
	if g.p(0.1) {
		g.t = g.c + g.rng(0, 3*g.maxca)
	}
	return g
}

// ---- ingredients ----

func (g *gen) key() int { return g.rng(1, 6) }
func (g *gen) ed() Addr { return Addr{K: "ed", N: g.key()} }

func (g *gen) multi(chain bool) Addr {
	n := g.rng(2, 4)
	m := Addr{K: "multi"}
	seen := map[string]bool{}
	sum := 0
	for len(m.Subs) < n {
		a := g.ed()
		if g.p(0.3) {
			if chain && len(g.chains) > 0 && g.p(0.7) {
				a = g.chains[g.Intn(len(g.chains))]
			} else if !chain {
				a = Addr{K: []string{"acc", "nft", "anc"}[g.Intn(3)], N: g.rng(20, 25)}
			}
		}
		s := fmt.Sprint(a)
		if seen[s] {
			continue
		}
		seen[s] = true
		w := g.rng(1, 4)
		sum += w
		m.Subs = append(m.Subs, Sub{A: a, W: w})
	}
	m.Thr = g.rng(1, sum)
	if g.p(0.4) {
		m.Thr = sum
	}
	return m
}

func (g *gen) restr(a Addr, need int) Addr {
	x := need
	for i := 0; i < 9; i++ {
		if g.p(0.3) {
			x |= 1 << i
		}
	}
	if g.p(0.2) {
		x = 0x1ff
	}
	if g.p(0.05) {
		x = g.Intn(512)
	}
	bm := []int{}
	for x > 0 {
		bm = append(bm, x&255)
		x >>= 8
	}
	return Addr{K: "restr", In: &a, Bm: bm}
}

// inAddr is an address of a consumed output, which has to be unlocked.
func (g *gen) inAddr() Addr {
	x := g.Float64()
	switch {
	case x < 0.5:
		return g.ed()
	case x < 0.62:
		return g.multi(true)
	case x < 0.72:
		return g.restr(g.ed(), 0)
	case x < 0.76:
		return g.restr(g.multi(true), 0)
	case len(g.chains) > 0:
		a := g.chains[g.Intn(len(g.chains))]
		if x < 0.8 {
			return g.restr(a, 0)
		}
		return a
	}
	return g.ed()
}

// outAddr is an address to send to; need are the restrictions it has to allow.
func (g *gen) outAddr(need int) Addr {
	x := g.Float64()
	switch {
	case x < 0.4:
		return Addr{K: "ed", N: g.rng(1, 12)}
	case x < 0.5:
		return g.multi(false)
	case x < 0.75:
		if g.p(0.2) {
			return g.restr(g.multi(false), need)
		}
		if g.p(0.2) {
			return g.restr(Addr{K: []string{"acc", "nft", "anc"}[g.Intn(3)], N: g.rng(20, 25)}, need)
		}
		return g.restr(g.ed(), need)
	}
	if len(g.chains) > 0 && g.p(0.5) {
		return g.chains[g.Intn(len(g.chains))]
	}
	return Addr{K: []string{"acc", "nft", "anc"}[g.Intn(3)], N: g.rng(20, 25)}
}

func (g *gen) supply() uint64 { return uint64(g.ps.Params.TokenSupply()) }

func (g *gen) mag(top uint64) Num {
	if top == 0 {
		return N(0)
	}
	bits := new(big.Int).SetUint64(top).BitLen()
	b := g.rng(1, bits)
	v := g.Uint64() >> (64 - uint(b))
	if v > top {
		v = top
	}
	return N(v)
}
func (g *gen) amt() Num { return g.mag(g.supply() / 64).AddI(int64(g.rng(1, 200))) }
func (g *gen) mana() Num {
	if g.p(0.35) {
		return N(0)
	}
	return g.mag((uint64(1) << uint(g.ps.Params.ManaParameters().BitsCount-1)) / 64)
}

// pastSlot is the creation slot of a consumed output.
func (g *gen) pastSlot() int {
	s := g.t
	switch g.Intn(6) {
	case 0:
	case 1:
		s -= g.rng(0, 3)
	case 2:
		s -= g.rng(0, 1<<g.exp)
	case 3:
		s -= g.rng(0, 3<<g.exp)
	case 4:
		s -= g.rng(0, 12<<g.exp)
	case 5:
		s = g.epochStart(g.rng(0, g.epoch(g.t))) + g.rng(-1, 1)
	}
	if s < g.gs {
		s = g.gs
	}
	if s > g.t {
		s = g.t
	}
	return s
}

func (g *gen) ents(n int) (es []Ent) {
	for i := 0; i < n; i++ {
		es = append(es, Ent{Key: g.rng(0, 5), KL: g.rng(1, 6), V: g.rng(0, 3), VL: g.rng(0, 12)})
	}
	return
}

func (g *gen) unlockedAddr() Addr {
	if len(g.ins) > 0 && g.p(0.8) {
		i := g.ins[g.Intn(len(g.ins))]
		if len(i.Out.UC) > 0 {
			a := i.Out.UC[0].A
			if a.K == "restr" && g.p(0.5) {
				a = *a.In
			}
			return a
		}
	}
	if len(g.chains) > 0 {
		return g.chains[g.Intn(len(g.chains))]
	}
	return g.ed()
}

// feats0 draws optional features among the given kinds.
func (g *gen) feats0(kinds ...int) (fs []Ft) {
	for _, k := range kinds {
		if !g.p(0.3) {
			continue
		}
		switch k {
		case 0, 1:
			fs = append(fs, Ft{K: k, A: g.unlockedAddr()})
		case 2, 3:
			fs = append(fs, Ft{K: k, Ents: g.ents(g.rng(1, 3))})
		case 4:
			fs = append(fs, Ft{K: 4, Tag: g.rng(0, 3), Len: g.pick(1, 2, 8, 32, 63, 64)})
		}
	}
	return
}

func sortFts(fs []Ft) []Ft {
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].K < fs[j].K })
	return fs
}
func sortUCs(us []UC) []UC {
	sort.SliceStable(us, func(i, j int) bool { return us[i].K < us[j].K })
	return us
}

func (g *gen) fid() FID {
	acc := g.rng(30, 32)
	return FID{acc, g.rng(1, 2), 0}
}

func (g *gen) addIn(o Out, slot int) *gin {
	g.nTx++
	i := &gin{In: In{Slot: slot, Tx: g.nTx, Idx: g.pick(0, 0, 1, 2, 127), Out: o}}
	switch o.T {
	case "account", "anchor", "nft", "deleg":
		if o.ID == 0 {
			i.Own = g.sym()
		}
	case "basic":
		if len(o.UC) > 0 && o.UC[0].A.K == "imp" {
			i.Own = g.sym()
		}
	}
	g.ins = append(g.ins, i)
	return i
}

func (g *gen) addOut(o Out) *Out { g.outs = append(g.outs, &o); return g.outs[len(g.outs)-1] }

func (g *gen) expSlotFor(ret bool) int {
	if ret {
		return g.rng(maxi(1, g.fut-2*g.maxca), maxi(1, g.fut))
	}
	return g.past + 1 + g.pick(0, 0, 1, 5, 100)
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// ---- lanes ----

func (g *gen) laneBasic() {
	g.lab = append(g.lab, "basic")
	for n := g.rng(1, 2); n > 0; n-- {
		o := Out{T: "basic", Amt: g.amt(), Mana: g.mana(), UC: []UC{{K: 0, A: g.inAddr()}}}
		o.Ft = g.feats0(0, 2, 4)
		ucp := 0.25
		if g.focus == "V01" || g.focus == "V05" {
			ucp = 0.55
		}
		toRet := false
		sdr := Addr{}
		if g.p(ucp) {
			sdr = g.outAddr(0)
			if g.p(0.5) {
				sdr = Addr{K: "ed", N: g.rng(1, 4)}
			}
			if g.p(0.25) {
				sdr = g.unlockedAddr()
			}
			o.UC = append(o.UC, UC{K: 1, A: sdr, Amt: N(uint64(g.rng(1, 300)))})
		}
		if g.p(ucp) {
			o.UC = append(o.UC, UC{K: 2, Slot: maxi(1, g.fut-g.pick(0, 0, 1, 7, 50))})
			g.cmt = true
		}
		if g.p(ucp) {
			toRet = g.p(0.4)
			ra := g.ed()
			if g.p(0.3) {
				ra = g.inAddr()
			}
			if sdr.K != "" && sdr.K != "imp" && g.p(0.5) {
				ra = sdr
			}
			o.UC = append(o.UC, UC{K: 3, A: ra, Slot: g.expSlotFor(toRet)})
			g.cmt = true
		}
		g.addIn(o, g.pastSlot())
		if sdr.K != "" && !toRet {
			amt := o.UC[1].Amt
			if g.p(0.3) {
				amt = amt.AddI(int64(g.rng(0, 5)))
			}
			g.addOut(Out{T: "basic", Amt: amt, UC: []UC{{K: 0, A: sdr}}})
		}
	}
	for n := g.rng(0, 2); n > 0; n-- {
		g.addOut(g.basicOut(nil))
	}
}

func (g *gen) basicOut(nt *Ft) Out {
	o := Out{T: "basic", Mana: N(0)}
	o.Ft = g.feats0(0, 2, 4)
	need := 0
	if nt != nil {
		o.Ft = sortFts(append(o.Ft, *nt))
		need |= 1
	}
	if g.p(0.3) {
		o.Mana = g.mag(1000000)
		need |= 2
	}
	ucs := []UC{}
	if g.p(0.2) {
		need |= 16
		ucs = append(ucs, UC{K: 1, A: g.outAddrPlain(), Amt: N(uint64(g.rng(1, 300)))})
	}
	if g.p(0.2) {
		need |= 4
		ucs = append(ucs, UC{K: 2, Slot: g.rng(1, g.t+1000)})
	}
	if g.p(0.2) {
		need |= 8
		ucs = append(ucs, UC{K: 3, A: g.outAddr(need), Slot: g.rng(1, g.t+1000)})
	}
	o.UC = append([]UC{{K: 0, A: g.outAddr(need)}}, ucs...)
	return o
}
func (g *gen) outAddrPlain() Addr {
	if g.p(0.2) {
		return g.multi(false)
	}
	return Addr{K: "ed", N: g.rng(1, 12)}
}

func (g *gen) bi(exp int) Ft {
	n := g.pick(1, 1, 2, 3)
	ks := map[int]bool{}
	f := Ft{K: 6, Exp: exp}
	for len(ks) < n {
		k := g.rng(1, 10)
		if !ks[k] {
			ks[k] = true
			f.Keys = append(f.Keys, KeyR{N: k})
		}
	}
	return f
}

func (g *gen) expiry(min int) int {
	return g.pick(min, min, min+1, min+g.rng(0, 500), maxTick)
}
func (g *gen) pastEpoch() int { return g.epoch(g.past) }
func (g *gen) futEpoch() int  { return g.epoch(g.fut) }

func (g *gen) newStaking() Ft {
	return Ft{K: 7, Amt: g.mag(g.supply()/64 + 1), Cost: g.mag(1 << 20), Start: g.pastEpoch(), End: g.pick(g.pastEpoch()+g.unbond, g.pastEpoch()+g.unbond, g.pastEpoch()+g.unbond+g.rng(0, 50), maxTick)}
}

func ftOf(o *Out, k int) *Ft {
	for i := range o.Ft {
		if o.Ft[i].K == k {
			return &o.Ft[i]
		}
	}
	return nil
}
func dropFt(o *Out, k int) {
	var fs []Ft
	for _, f := range o.Ft {
		if f.K != k {
			fs = append(fs, f)
		}
	}
	o.Ft = fs
}

// manaOK lets a restricted owner of an output receive mana if it does.
func manaOK(o *Out) {
	if o.Mana.big().Sign() == 0 || len(o.UC) == 0 || o.UC[0].K != 0 {
		return
	}
	for k := range o.UC {
		if (o.UC[k].K == 0 || o.UC[k].K == 3) && o.UC[k].A.K == "restr" {
			a := &o.UC[k].A
			if len(a.Bm) == 0 {
				a.Bm = []int{2}
			} else {
				a.Bm = append([]int{a.Bm[0] | 2}, a.Bm[1:]...)
			}
		}
	}
}

func (g *gen) laneAccountGenesis() {
	g.lab = append(g.lab, "accgen")
	o := Out{T: "account", UC: []UC{{K: 0, A: g.outAddr(32)}}, Imf: g.feats0(1, 2), Ft: g.feats0(0, 2)}
	if g.p(0.5) {
		o.Ft = append(o.Ft, g.bi(g.expiry(g.past)))
		g.cmt = true
		if g.p(0.5) {
			o.Ft = append(o.Ft, g.newStaking())
		}
	}
	g.addOut(o)
}

// accountIn adds an account input and tells its chain symbol.
func (g *gen) accountIn(bi, staking int) (*gin, int) {
	o := Out{T: "account", Amt: g.amt(), Mana: g.mana(), UC: []UC{{K: 0, A: g.inAddr()}}, Imf: g.feats0(1, 2), Ft: g.feats0(0, 2)}
	if g.p(0.6) {
		o.ID = g.sym()
		o.Fc = g.pick(0, 0, 1, 5)
	}
	switch bi {
	case 1: // in force
		o.Ft = append(o.Ft, g.bi(g.pick(g.c, g.c, g.c+1, g.past, g.past+g.rng(0, 100), maxTick)))
	case 2: // expired
		o.Ft = append(o.Ft, g.bi(g.rng(maxi(0, g.c-40), maxi(0, g.c-1))))
	}
	switch staking {
	case 1:
		s := Ft{K: 7, Amt: N(uint64(g.rng(0, 1000))), Cost: g.mag(1 << 20), Start: g.rng(0, g.futEpoch())}
		s.End = g.pick(g.futEpoch(), g.futEpoch(), g.futEpoch()+1, g.futEpoch()+g.rng(0, 30), maxTick)
		o.Ft = append(o.Ft, s)
	case 2:
		if g.futEpoch() == 0 {
			o.Ft = append(o.Ft, Ft{K: 7, Amt: N(5), Cost: N(1), Start: 0, End: 0})
		} else {
			o.Ft = append(o.Ft, Ft{K: 7, Amt: N(uint64(g.rng(0, 1000))), Cost: g.mag(1 << 20), Start: 0, End: maxi(0, g.futEpoch()-1-g.pick(0, 0, g.rng(0, 3)))})
		}
	}
	for _, f := range o.Ft {
		if f.K == 7 && o.Amt.Cmp(f.Amt) < 0 {
			o.Amt = f.Amt
		}
	}
	i := g.addIn(o, g.pastSlot())
	id := o.ID
	if id == 0 {
		id = i.Own
	}
	if bi > 0 {
		g.bic[id] = g.pick(0, 0, 1, 100, 5000)
		g.cmt = true
	}
	if staking > 0 {
		g.cmt = true
	}
	g.chains = append(g.chains, Addr{K: "acc", N: id})
	return i, id
}

func (g *gen) laneAccountTransition() *Out {
	g.lab = append(g.lab, "acctrans")
	bi, st := 0, 0
	if g.p(0.55) {
		bi = 1
		if g.p(0.3) {
			bi = 2
		}
		if g.p(0.5) {
			st = g.rng(1, 2)
		}
	}
	i, id := g.accountIn(bi, st)
	next := clone(i.Out)
	next.ID = id
	if g.p(0.5) {
		next.UC = []UC{{K: 0, A: g.outAddr(32)}}
	}
	keepBI, keepST := ftOf(&next, 6), ftOf(&next, 7)
	next.Ft = g.feats0(0, 2)
	if keepBI != nil {
		f := *keepBI
		switch {
		case bi == 2 && st == 0 && g.p(0.5):
			goto nobi
		case g.p(0.4) || (bi == 2 && f.Exp < g.past):
			f.Exp = g.expiry(g.past)
		}
		if g.p(0.3) {
			f.Keys = g.bi(0).Keys
		}
		next.Ft = append(next.Ft, f)
	} else if g.p(0.3) {
		next.Ft = append(next.Ft, g.bi(g.expiry(g.past)))
		g.cmt = true
		g.bic[id] = g.pick(0, 10)
		if g.p(0.6) {
			delete(g.bic, id)
		}
	}
nobi:
	hasBI := ftOf(&next, 6) != nil
	if keepST != nil {
		s := *keepST
		if st == 2 && g.p(0.6) {
			r := g.mag(1 << 30)
			i.rew = &r
			if hasBI && g.p(0.5) {
				next.Ft = append(next.Ft, g.newStaking())
			}
		} else {
			if st == 1 && g.p(0.4) {
				s.End = g.pick(g.pastEpoch()+g.unbond, g.pastEpoch()+g.unbond+g.rng(0, 9), maxTick)
			}
			next.Ft = append(next.Ft, s)
		}
	} else if hasBI && g.p(0.3) {
		next.Ft = append(next.Ft, g.newStaking())
	}
	o := g.addOut(next)
	g.accOut[id] = o
	return o
}

func (g *gen) laneAccountDestroy() {
	g.lab = append(g.lab, "accdestroy")
	bi, st := g.pick(0, 0, 2, 2, 1), 0
	if bi == 2 && g.p(0.5) {
		st = 2
	}
	i, _ := g.accountIn(bi, st)
	if st == 2 {
		r := g.mag(1 << 30)
		i.rew = &r
	}
	g.caps |= 4
}

func (g *gen) laneImplicitCreate() {
	g.lab = append(g.lab, "impgen")
	g.addOut(Out{T: "basic", Mana: g.mag(1000), UC: []UC{{K: 0, A: Addr{K: "imp", N: g.key()}}}})
}

func (g *gen) laneImplicitConvert() {
	g.lab = append(g.lab, "impconv")
	i := g.addIn(Out{T: "basic", Amt: g.amt(), Mana: g.mana(), UC: []UC{{K: 0, A: Addr{K: "imp", N: g.key()}}}}, g.pastSlot())
	g.cmt = true
	g.bic[i.Own] = g.pick(0, 0, 5)
	o := Out{T: "account", ID: i.Own, UC: []UC{{K: 0, A: g.outAddr(32)}}, Imf: g.feats0(1, 2), Ft: g.feats0(0, 2)}
	o.Ft = append(o.Ft, g.bi(g.expiry(g.past)))
	if g.p(0.2) {
		o.Ft = append(o.Ft, g.newStaking())
	}
	g.chains = append(g.chains, Addr{K: "acc", N: i.Own})
	g.accOut[i.Own] = g.addOut(o)
	if g.p(0.07) {
		g.newFoundry(i.Own, o.Fc+1)
	}
}

func (g *gen) laneFoundry() {
	g.lab = append(g.lab, "foundry")
	acc := g.laneAccountTransition()
	for n := g.rng(0, 3); n > 0; n-- {
		acc.Fc++
		g.newFoundry(acc.ID, acc.Fc)
	}
	if g.p(0.6) {
		g.foundryTransition(acc.ID, g.rng(100, 101))
	}
	if g.p(0.2) {
		g.foundryTransition(acc.ID, 102)
	}
}

func (g *gen) newFoundry(acc, sn int) {
	m := g.mag(1 << 40)
	if g.p(0.3) {
		m = N(0)
	}
	if g.p(0.1) {
		m = NB(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(int64(g.rng(1, 3)))))
	}
	f := Out{T: "foundry", Sn: sn, Minted: m, Melted: N(0), Max: m.AddI(int64(g.pick(0, 0, 1, 1000))), UC: []UC{{K: 6, A: Addr{K: "acc", N: acc}}}, Ft: g.feats0(2), Imf: g.feats0(2)}
	if m.Cmp(NB(new(big.Int).Lsh(big.NewInt(1), 255))) > 0 || f.Max.big().Sign() == 0 {
		f.Max = m
		if m.big().Sign() == 0 {
			f.Max = N(1)
		}
	}
	fo := g.addOut(f)
	g.spreadToken(FID{acc, sn, 0}, m, fo)
}

// spreadToken makes outputs that hold the amount of a token.
func (g *gen) spreadToken(id FID, m Num, fo *Out) {
	if m.big().Sign() == 0 {
		return
	}
	if fo != nil && g.p(0.2) {
		fo.Ft = sortFts(append(fo.Ft, Ft{K: 5, ID: id, Amt: m}))
		return
	}
	if g.p(0.3) && m.Cmp(N(1)) > 0 {
		a := NB(new(big.Int).Rand(g.Rand, m.big()))
		if a.big().Sign() > 0 {
			rest := m.SubSat(a)
			g.addOut(g.basicOut(&Ft{K: 5, ID: id, Amt: rest}))
			m = a
		}
	}
	g.addOut(g.basicOut(&Ft{K: 5, ID: id, Amt: m}))
}

func (g *gen) foundryTransition(acc, sn int) {
	g.lab = append(g.lab, "fndtrans")
	id := FID{acc, sn, 0}
	melted := g.mag(1 << 20)
	circ := g.mag(1 << 30)
	minted := melted.Add(circ)
	f := Out{T: "foundry", Amt: g.amt(), Sn: sn, Minted: minted, Melted: melted, Max: circ.AddI(int64(g.rng(1, 100000))), UC: []UC{{K: 6, A: Addr{K: "acc", N: acc}}}, Ft: g.feats0(2), Imf: g.feats0(2)}
	if g.p(0.2) {
		f.Max = circ
		if circ.big().Sign() == 0 {
			f.Max = N(1)
		}
	}
	g.addIn(f, g.pastSlot())
	// tokens on the input side
	in := N(0)
	if circ.big().Sign() > 0 && g.p(0.7) {
		in = circ
		if g.p(0.6) {
			in = NB(new(big.Int).Rand(g.Rand, circ.big()))
		}
		if in.big().Sign() > 0 {
			g.addIn(Out{T: "basic", Amt: g.amt(), Mana: g.mana(), UC: []UC{{K: 0, A: g.inAddr()}}, Ft: []Ft{{K: 5, ID: id, Amt: in}}}, g.pastSlot())
		}
	}
	next := clone(f)
	out := in
	switch g.Intn(4) {
	case 0: // untouched
	case 1: // mint
		d := f.Max.SubSat(circ)
		if g.p(0.6) && d.big().Sign() > 0 {
			d = NB(new(big.Int).Rand(g.Rand, d.big()))
		}
		out = in.Add(d)
		next.Minted = next.Minted.Add(d)
	case 2: // melt
		d := in
		if g.p(0.6) && d.big().Sign() > 0 {
			d = NB(new(big.Int).Rand(g.Rand, d.big()))
		}
		out = in.SubSat(d)
		next.Melted = next.Melted.Add(d)
	case 3: // destroy: all circulating tokens are melted in this transaction
		g.caps |= 16
		g.lab = append(g.lab, "fnddestroy")
		if in.Cmp(circ) != 0 {
			// the rest was melted before
			for _, i := range g.ins {
				if i.Out.T == "foundry" && i.Out.Sn == sn && i.Out.UC[0].A.N == acc {
					i.Out.Melted = minted.SubSat(in)
				}
			}
		}
		return
	}
	next.Ft = g.feats0(2)
	fo := g.addOut(next)
	g.spreadToken(id, out, fo)
}

func (g *gen) laneToken() {
	g.lab = append(g.lab, "token")
	id := g.fid()
	sum := N(0)
	for n := g.rng(1, 2); n > 0; n-- {
		a := g.mag(1 << 40)
		if g.p(0.15) {
			a = NB(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(g.pick(255, 256))), big.NewInt(int64(g.rng(1, 3)))))
		}
		if a.big().Sign() == 0 {
			a = N(1)
		}
		sum = sum.Add(a)
		g.addIn(Out{T: "basic", Amt: g.amt(), Mana: g.mana(), UC: []UC{{K: 0, A: g.inAddr()}}, Ft: []Ft{{K: 5, ID: id, Amt: a}}}, g.pastSlot())
	}
	if sum.big().BitLen() > 256 {
		sum = N(1000)
	}
	out := sum
	if g.p(0.35) {
		g.caps |= 1
		out = NB(new(big.Int).Rand(g.Rand, sum.big()))
	}
	g.spreadToken(id, out, nil)
}

func (g *gen) laneAnchor() {
	mode := g.pick(0, 1, 1, 2, 2, 3)
	g.lab = append(g.lab, fmt.Sprintf("anchor%d", mode))
	if mode == 0 {
		g.addOut(Out{T: "anchor", UC: []UC{{K: 4, A: g.outAddr(64)}, {K: 5, A: g.outAddr(64)}}, Ft: g.feats0(2, 3), Imf: g.feats0(1, 2)})
		return
	}
	o := Out{T: "anchor", Amt: g.amt(), Mana: g.mana(), UC: []UC{{K: 4, A: g.inAddr()}, {K: 5, A: g.inAddr()}}, Ft: g.feats0(2, 3), Imf: g.feats0(1, 2)}
	if g.p(0.6) {
		o.ID = g.sym()
		o.Si = g.pick(0, 1, 7)
	}
	i := g.addIn(o, g.pastSlot())
	id := o.ID
	if id == 0 {
		id = i.Own
	}
	if mode == 3 {
		g.caps |= 8
		return
	}
	next := clone(o)
	next.ID = id
	if mode == 1 {
		next.Si++
		g.chains = append(g.chains, Addr{K: "anc", N: id})
		dropFt(&next, 3)
		if g.p(0.5) {
			next.Ft = append(next.Ft, Ft{K: 3, Ents: g.ents(1)})
		}
	} else {
		dropFt(&next, 2)
		if g.p(0.5) {
			next.Ft = sortFts(append(next.Ft, Ft{K: 2, Ents: g.ents(1)}))
		}
		if g.p(0.5) {
			next.UC[0].A = g.outAddr(64)
		}
		if g.p(0.5) {
			next.UC[1].A = g.outAddr(64)
		}
	}
	no := g.addOut(next)
	if mode == 1 && g.p(0.7) {
		no.Amt = N(0) // any
	}
}

func (g *gen) laneNFT() {
	mode := g.pick(0, 1, 1, 2)
	g.lab = append(g.lab, fmt.Sprintf("nft%d", mode))
	if mode == 0 {
		b := g.basicOut(nil)
		o := Out{T: "nft", Mana: b.Mana, UC: b.UC, Ft: b.Ft, Imf: g.feats0(1, 2)}
		g.addOut(o)
		return
	}
	o := Out{T: "nft", Amt: g.amt(), Mana: g.mana(), UC: []UC{{K: 0, A: g.inAddr()}}, Ft: g.feats0(0, 2, 4), Imf: g.feats0(1, 2)}
	if g.p(0.2) {
		ret := g.p(0.4)
		o.UC = append(o.UC, UC{K: 3, A: g.ed(), Slot: g.expSlotFor(ret)})
		g.cmt = true
	}
	if g.p(0.6) {
		o.ID = g.sym()
	}
	i := g.addIn(o, g.pastSlot())
	id := o.ID
	if id == 0 {
		id = i.Own
	}
	g.chains = append(g.chains, Addr{K: "nft", N: id})
	if mode == 2 {
		g.caps |= 32
		return
	}
	b := g.basicOut(nil)
	g.addOut(Out{T: "nft", ID: id, Mana: b.Mana, UC: b.UC, Ft: b.Ft, Imf: clone(o.Imf)})
}

func (g *gen) delegStart() int {
	e := g.pastEpoch()
	if g.past > g.epochStart(e+1)-1-g.near {
		return e + 2
	}
	return e + 1
}
func (g *gen) delegEnd() int {
	e := g.futEpoch()
	if g.fut > g.epochStart(e+1)-1-g.near {
		return e + 1
	}
	return e
}

func (g *gen) laneDelegation() {
	mode := g.pick(0, 0, 1, 1, 2, 3)
	g.lab = append(g.lab, fmt.Sprintf("deleg%d", mode))
	g.cmt = true
	if mode == 0 {
		g.addOut(Out{T: "deleg", Val: g.rng(40, 42), Start: g.delegStart(), UC: []UC{{K: 0, A: g.outAddr(256)}}})
		return
	}
	a := g.amt()
	o := Out{T: "deleg", Amt: a, DAmt: a, Val: g.rng(40, 42), Start: g.rng(1, maxi(1, g.futEpoch())), UC: []UC{{K: 0, A: g.inAddr()}}}
	if mode == 2 || mode == 3 && g.p(0.3) {
		o.ID = g.sym()
		o.End = g.rng(0, g.futEpoch())
	}
	i := g.addIn(o, g.pastSlot())
	if mode == 1 {
		next := clone(o)
		next.ID = i.Own
		next.End = g.delegEnd()
		if g.p(0.4) {
			next.UC = []UC{{K: 0, A: g.outAddr(256)}}
		}
		g.addOut(next)
		return
	}
	r := g.mag(1 << 40)
	i.rew = &r
}

func (g *gen) laneAllot() {
	n := g.rng(1, 3)
	g.lab = append(g.lab, "allot")
	for ; n > 0; n-- {
		acc := g.rng(50, 54)
		if len(g.chains) > 0 && g.p(0.4) {
			for _, c := range g.chains {
				if c.K == "acc" {
					acc = c.N
				}
			}
		}
		g.allot[acc] = g.mag(1 << 30)
	}
}

var laneOf = map[string][]string{
	"V01": {"basic", "basic", "nft", "foundry"}, "V02": {"token", "foundry", "foundry"}, "V03": {"basic", "account", "allot", "deleg", "accdestroy"},
	"V04": {"nft", "account", "anchor", "basic", "basic"}, "V05": {"basic", "basic", "nft"}, "V06": {"account", "accgen", "anchor", "nft", "foundry", "deleg", "accdestroy", "impconv"},
	"V07": {"foundry", "foundry", "foundry", "account"}, "V08": {"account", "account", "accdestroy", "allot", "impconv", "accgen"}, "V09": {"account", "account", "accdestroy", "accgen"},
	"V10": {"deleg", "deleg"}, "V11": {"impconv", "impcreate", "impconv"}, "V12": {"token", "accdestroy", "anchor", "foundry", "nft"}, "V13": {"accgen", "anchor", "nft", "account", "impconv"},
}

func (g *gen) lane(n string) {
	switch n {
	case "basic":
		g.laneBasic()
	case "account":
		g.laneAccountTransition()
	case "accgen":
		g.laneAccountGenesis()
	case "accdestroy":
		g.laneAccountDestroy()
	case "impcreate":
		g.laneImplicitCreate()
	case "impconv":
		g.laneImplicitConvert()
	case "foundry":
		g.laneFoundry()
	case "token":
		g.laneToken()
	case "anchor":
		g.laneAnchor()
	case "nft":
		g.laneNFT()
	case "deleg":
		g.laneDelegation()
	case "allot":
		g.laneAllot()
	}
}

var allLanes = []string{"basic", "account", "accgen", "accdestroy", "impcreate", "impconv", "foundry", "token", "anchor", "nft", "deleg", "allot"}

// ---- putting together ----

func (g *gen) build() *Rec {
	ls := laneOf[g.focus]
	if ls == nil {
		ls = allLanes
	}
	for n := g.pick(1, 1, 2, 2, 3); n > 0; n-- {
		if g.p(0.75) {
			g.lane(ls[g.Intn(len(ls))])
		} else {
			g.lane(allLanes[g.Intn(len(allLanes))])
		}
	}
	if len(g.ins) == 0 || g.p(0.85) {
		g.addIn(Out{T: "basic", Amt: N(1), Mana: N(0), UC: []UC{{K: 0, A: g.ed()}}}, g.t)
		g.ins[len(g.ins)-1].Tx = fundTx
	}
	if len(g.outs) == 0 || g.p(0.85) {
		g.addOut(Out{T: "basic", Mana: N(0), UC: []UC{{K: 0, A: g.ed()}}, Ft: []Ft{{K: 4, Tag: 77, Len: 2}}})
	}
	if g.p(0.15) {
		g.lane("allot")
	}
	r := g.rec
	g.orderInputs()
	g.Shuffle(len(g.outs), func(i, j int) { g.outs[i], g.outs[j] = g.outs[j], g.outs[i] })
	if g.focus != "V07" || g.p(0.8) {
		sortFoundries(g.outs)
	}
	for _, o := range g.outs {
		r.Tx.Outs = append(r.Tx.Outs, *o)
	}
	r.Tx.Slot, r.Tx.Net, r.Tx.PTag = g.t, 1, -1
	if g.p(0.1) {
		r.Tx.PTag, r.Tx.PData = g.rng(0, 64), g.rng(0, 100)
	}
	if g.p(0.1) {
		g.caps |= 1 << g.rng(0, 5)
	}
	if g.caps > 0 {
		r.Tx.Caps = []int{g.caps}
	}
	var accs []int
	for a := range g.allot {
		accs = append(accs, a)
	}
	sort.Ints(accs)
	for _, a := range accs {
		r.Tx.Allot = append(r.Tx.Allot, Allot{Acc: a, Mana: g.allot[a]})
	}
	accs = nil
	for a := range g.bic {
		accs = append(accs, a)
	}
	sort.Ints(accs)
	for _, a := range accs {
		r.Bic = append(r.Bic, Bic{Acc: a, V: g.bic[a]})
		r.Tx.Ctx = append(r.Tx.Ctx, Ctx{K: "bic", Acc: a})
	}
	for k, i := range g.ins {
		r.Ins = append(r.Ins, i.In)
		if i.rew != nil {
			r.Rew = append(r.Rew, Rew{I: k + 1, Mana: *i.rew})
			r.Tx.Ctx = append(r.Tx.Ctx, Ctx{K: "rew", Idx: k})
			r.HasRw = 1
		}
	}
	if len(r.Rew) == 0 {
		r.HasRw = g.rng(0, 1)
	}
	if g.cmt || len(r.Tx.Ctx) > 0 || g.p(0.15) {
		r.Cmt = g.c
		r.Tx.Ctx = append(r.Tx.Ctx, Ctx{K: "cmt"})
	}
	r.Kind = strings.Join(g.lab, "+")
	return r
}

func sortFoundries(outs []*Out) {
	var fs []*Out
	for _, o := range outs {
		if o.T == "foundry" {
			fs = append(fs, o)
		}
	}
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].Sn < fs[j].Sn })
	k := 0
	for i, o := range outs {
		if o.T == "foundry" {
			outs[i] = fs[k]
			k++
		}
	}
}

// orderInputs shuffles the inputs so that owners come before what they own.
func (g *gen) orderInputs() {
	g.Shuffle(len(g.ins), func(i, j int) { g.ins[i], g.ins[j] = g.ins[j], g.ins[i] })
	provides := func(i *gin) (string, int) {
		k := map[string]string{"account": "acc", "anchor": "anc", "nft": "nft"}[i.Out.T]
		if i.Out.ID != 0 {
			return k, i.Out.ID
		}
		return k, i.Own
	}
	var needs func(a Addr) []Addr
	needs = func(a Addr) []Addr {
		switch a.K {
		case "restr":
			return needs(*a.In)
		case "multi":
			var r []Addr
			for _, s := range a.Subs {
				r = append(r, needs(s.A)...)
			}
			return r
		case "acc", "anc", "nft":
			return []Addr{a}
		}
		return nil
	}
	var out []*gin
	left := g.ins
	done := map[Addr2]bool{}
	all := map[Addr2]bool{}
	for _, i := range left {
		k, n := provides(i)
		all[Addr2{k, n}] = true
	}
	prefer := g.p(0.8)
	for len(left) > 0 {
		best := -1
		for k, i := range left {
			ok := true
			multi := false
			for _, u := range i.Out.UC {
				if u.K == 2 || u.K == 1 {
					continue
				}
				if u.A.K == "multi" || u.A.K == "restr" && u.A.In.K == "multi" {
					multi = true
				}
				for _, a := range needs(u.A) {
					if all[Addr2{a.K, a.N}] && !done[Addr2{a.K, a.N}] {
						ok = false
					}
				}
			}
			if ok && best < 0 {
				best = k
			}
			if ok && prefer && !multi {
				best = k
				break
			}
		}
		if best < 0 {
			best = 0
		}
		i := left[best]
		out = append(out, i)
		k, n := provides(i)
		done[Addr2{k, n}] = true
		left = append(append([]*gin{}, left[:best]...), left[best+1:]...)
	}
	g.ins = out
}

type Addr2 struct {
	k string
	n int
}

func iotaMin(ps *PSet, b *binder, o Out) (min Num) {
	defer func() {
		if recover() != nil {
			min = N(1)
		}
	}()
	m, err := ps.API.StorageScoreStructure().MinDeposit(b.output(o).(iotago.NonEphemeralObject))
	if err != nil {
		return N(1)
	}
	return N(uint64(m))
}

// fixDeposits raises amounts to what an output has to hold.
func (g *gen) fixDeposits() {
	r := g.rec
	b := newBinder(r)
	for k := range r.Tx.Outs {
		o := &r.Tx.Outs[k]
		for j := range o.UC {
			if o.UC[j].K == 1 {
				m := iotaMin(g.ps, b, Out{T: "basic", UC: []UC{{K: 0, A: o.UC[j].A}}})
				if o.UC[j].Amt.Cmp(m) < 0 {
					o.UC[j].Amt = m.AddI(int64(g.pick(0, 0, 1)))
				}
			}
		}
		m := iotaMin(g.ps, b, *o)
		for _, u := range o.UC {
			if u.K == 1 && u.Amt.Cmp(m) > 0 {
				m = u.Amt
			}
		}
		if f := ftOf(o, 7); f != nil {
			if f.Amt.Cmp(N(g.supply()/64)) > 0 {
				f.Amt = N(uint64(g.rng(0, 1000)))
			}
			if f.Amt.Cmp(m) > 0 {
				m = f.Amt
			}
		}
		if o.Amt.Cmp(m) < 0 || o.Amt.big().Sign() == 0 {
			o.Amt = m.AddI(int64(g.pick(0, 0, 0, 1, 100)))
			if o.Amt.big().Sign() == 0 {
				o.Amt = N(1)
			}
		}
		if o.T == "deleg" && o.ID == 0 {
			o.DAmt = o.Amt
		}
	}
	// the storage deposit of inputs that are returned is part of what they hold
	for k := range r.Ins {
		o := &r.Ins[k].Out
		m := iotaMin(g.ps, b, *o)
		for j := range o.UC {
			if o.UC[j].K == 1 {
				sm := iotaMin(g.ps, b, Out{T: "basic", UC: []UC{{K: 0, A: o.UC[j].A}}})
				if o.UC[j].Amt.Cmp(sm) < 0 {
					o.UC[j].Amt = sm
				}
				if o.UC[j].Amt.Cmp(m) > 0 {
					m = o.UC[j].Amt
				}
			}
		}
		if o.Amt.Cmp(m) < 0 {
			o.Amt = m
			if o.T == "deleg" && o.ID == 0 {
				o.DAmt = m
			}
		}
		if o.Amt.big().Sign() == 0 {
			o.Amt = N(1)
		}
	}
	for k := range r.Tx.Outs { // delayed claiming keeps the delegated amount
		o := &r.Tx.Outs[k]
		if o.T == "deleg" && o.ID != 0 {
			for _, i := range r.Ins {
				if i.Own == o.ID {
					o.DAmt = i.Out.DAmt
				}
			}
		}
		if o.T == "anchor" && o.ID != 0 { // a governance transition keeps the amount
			for j := range r.Ins {
				i := &r.Ins[j]
				if i.Out.T == "anchor" && (i.Own == o.ID || i.Out.ID == o.ID) && i.Out.Si == o.Si {
					if i.Out.Amt.Cmp(o.Amt) < 0 {
						i.Out.Amt = o.Amt
					}
					o.Amt = i.Out.Amt
				}
			}
		}
	}
	// returns to the same address add up: make simple transfers cover them
	ret := map[string]Num{}
	for k := range r.Ins {
		for _, u := range r.Ins[k].Out.UC {
			if u.K == 1 {
				ret[fmt.Sprint(clone(u.A))] = ret[fmt.Sprint(clone(u.A))].Add(u.Amt)
			}
		}
	}
	for k := range r.Tx.Outs {
		o := &r.Tx.Outs[k]
		if o.T == "basic" && len(o.Ft) == 0 && len(o.UC) == 1 {
			key := fmt.Sprint(clone(o.UC[0].A))
			if v, ok := ret[key]; ok {
				if o.Amt.Cmp(v) < 0 || g.p(0.5) {
					m := iotaMin(g.ps, b, *o)
					if v.Cmp(m) < 0 {
						v = m
					}
					o.Amt = v
				}
				delete(ret, key)
			}
		}
	}
}

func (g *gen) fundAndRemainder() (f *In, rem *Out) {
	r := g.rec
	for k := range r.Ins {
		if r.Ins[k].Tx == fundTx {
			f = &r.Ins[k]
		}
	}
	for k := range r.Tx.Outs {
		if t := ftOf(&r.Tx.Outs[k], 4); t != nil && t.Tag == 77 {
			rem = &r.Tx.Outs[k]
		}
	}
	if f == nil {
		for k := range r.Ins {
			if r.Ins[k].Out.T == "basic" && len(r.Ins[k].Out.UC) == 1 {
				f = &r.Ins[k]
			}
		}
	}
	if rem == nil {
		for k := range r.Tx.Outs {
			if r.Tx.Outs[k].T == "basic" && len(r.Tx.Outs[k].UC) == 1 {
				rem = &r.Tx.Outs[k]
			}
		}
	}
	return
}

func (g *gen) balanceBase() {
	f, rem := g.fundAndRemainder()
	in, out := N(0), N(0)
	for _, i := range g.rec.Ins {
		in = in.Add(i.Out.Amt)
	}
	for _, o := range g.rec.Tx.Outs {
		out = out.Add(o.Amt)
	}
	switch in.Cmp(out) {
	case -1:
		if f != nil {
			f.Out.Amt = f.Out.Amt.Add(out.SubSat(in))
		}
	case 1:
		if rem != nil {
			rem.Amt = rem.Amt.Add(in.SubSat(out))
		}
	}
}

// ---- mana, only to make transactions that balance ----

func (g *gen) decayEpochs(v *big.Int, n int) *big.Int {
	m := g.ps.Params.ManaParameters()
	l := len(m.DecayFactors)
	v = new(big.Int).Set(v)
	if l == 0 {
		return v
	}
	for n > 0 {
		d := n
		if d > l {
			d = l
		}
		n -= d
		v.Mul(v, big.NewInt(int64(m.DecayFactors[d-1])))
		v.Rsh(v, uint(m.DecayFactorsExponent))
	}
	return v
}
func (g *gen) generated(a *big.Int, slots int) *big.Int {
	m := g.ps.Params.ManaParameters()
	v := new(big.Int).Mul(a, big.NewInt(int64(slots)*int64(m.GenerationRate)))
	return v.Rsh(v, uint(m.GenerationRateExponent))
}
func (g *gen) genDecay(a *big.Int, from, to int) *big.Int {
	m := g.ps.Params.ManaParameters()
	e1, e2 := g.epoch(from), g.epoch(to)
	switch n := e2 - e1; {
	case n <= 0:
		return g.generated(a, to-from)
	case n == 1:
		return new(big.Int).Add(g.decayEpochs(g.generated(a, g.epochStart(e1+1)-from), 1), g.generated(a, to-g.epochStart(e2)))
	default:
		c := new(big.Int).Mul(a, big.NewInt(int64(m.DecayFactorEpochsSum)*int64(m.GenerationRate)))
		c.Rsh(c, uint(int(m.DecayFactorEpochsSumExponent)+int(m.GenerationRateExponent)-g.exp))
		res := new(big.Int).Sub(c, g.decayEpochs(c, n-1))
		res.Add(res, g.decayEpochs(g.generated(a, g.epochStart(e1+1)-from), n))
		res.Add(res, g.generated(a, to-g.epochStart(e2)))
		return res.Sub(res, new(big.Int).Rsh(c, uint(m.DecayFactorsExponent)))
	}
}

// inMana is what an input makes available: decayed stored plus generated mana.
func (g *gen) inMana(i *In) Num {
	if i.Slot > g.rec.Tx.Slot {
		return N(0)
	}
	v := g.decayEpochs(i.Out.Mana.big(), g.epoch(g.rec.Tx.Slot)-g.epoch(i.Slot))
	m := iotaMin(g.ps, newBinder(g.rec), i.Out)
	if i.Out.Amt.Cmp(m) >= 0 {
		ex := new(big.Int).Sub(i.Out.Amt.big(), m.big())
		v = v.Add(v, g.genDecay(ex, i.Slot, g.rec.Tx.Slot))
	}
	if v.Sign() < 0 {
		return N(0)
	}
	return NB(v)
}

func (g *gen) balanceMana() {
	r := g.rec
	if r.Tx.Slot > 1<<30 {
		return
	}
	f, rem := g.fundAndRemainder()
	in := N(0)
	for k := range r.Ins {
		in = in.Add(g.inMana(&r.Ins[k]))
	}
	for _, w := range r.Rew {
		in = in.Add(w.Mana)
	}
	out := N(0)
	for _, o := range r.Tx.Outs {
		out = out.Add(o.Mana)
	}
	for _, a := range r.Tx.Allot {
		out = out.Add(a.Mana)
	}
	switch in.Cmp(out) {
	case -1:
		if f != nil && f.Slot == r.Tx.Slot {
			f.Out.Mana = f.Out.Mana.Add(out.SubSat(in))
		}
	case 1:
		if rem != nil && !(len(r.Tx.Caps) > 0 && r.Tx.Caps[0]&2 != 0 && g.p(0.5)) {
			rem.Mana = rem.Mana.Add(in.SubSat(out))
		}
	}
}

// setAccountMana keeps the mana of block issuer accounts on them.
func (g *gen) setAccountMana() {
	r := g.rec
	for k := range r.Ins {
		i := &r.Ins[k]
		id := i.Out.ID
		if id == 0 {
			id = i.Own
		}
		for j := range r.Tx.Outs {
			o := &r.Tx.Outs[j]
			if o.T == "account" && o.ID == id && (i.Out.T == "account" || i.Out.T == "basic") && id != 0 {
				m := g.inMana(i)
				o.Mana = m
				if g.p(0.15) && len(r.Tx.Allot) > 0 { // leave through an allotment
					a := &r.Tx.Allot[g.Intn(len(r.Tx.Allot))]
					if a.Acc == id {
						half := NB(new(big.Int).Rsh(m.big(), 1))
						a.Mana, o.Mana = half, m.SubSat(half)
					}
				}
				if g.p(0.25) { // or into an output locked to the account
					half := NB(new(big.Int).Rsh(o.Mana.big(), 1))
					lockS := g.past + g.maxca + 1 + g.pick(0, 0, 1, 50)
					lockA := Addr{K: "acc", N: id}
					switch { // not long enough, or not to this account
					case g.p(0.25):
						lockS = g.past + g.pick(0, 1, g.maxca-1, g.maxca, g.maxca, g.rng(0, g.maxca))
					case g.p(0.07):
						lockA = g.someAddr()
					case g.p(0.05):
						lockA = Addr{K: "acc", N: g.pick(o.Fc+50, 51)}
					case g.p(0.05):
						lockA = g.restr(lockA, 63)
					}
					for q := range r.Tx.Outs {
						x := &r.Tx.Outs[q]
						if x.T == "basic" && ftOf(x, 5) == nil && ftOf(x, 4) == nil {
							x.UC = []UC{{K: 0, A: lockA}, {K: 2, Slot: lockS}}
							x.Mana, o.Mana = half, o.Mana.SubSat(half)
							break
						}
					}
				}
				if g.p(0.1) {
					o.Mana = o.Mana.AddI(int64(g.rng(0, 5)))
				}
			}
		}
	}
}

func generate(focus string, seed int64, n int) []*Rec {
	r := rand.New(rand.NewSource(seed))
	var out []*Rec
	for len(out) < n {
		g := newGen(r, focus)
		g.build()
		g.finish(true)
		mut := ""
		if g.p(0.65) {
			mut = g.mutate()
			if mut != "" {
				g.rec.Kind += "/" + mut
			}
		}
		g.rec.normalize()
		if !g.inputsOK() {
			continue
		}
		out = append(out, g.rec)
	}
	return out
}

// finish completes deposits, balance, order and unlocks.
func (g *gen) finish(all bool) {
	if all {
		g.fixDeposits()
		g.balanceBase()
		g.setAccountMana()
		g.fixDeposits()
		g.balanceBase()
		g.balanceMana()
		for k := range g.rec.Tx.Outs {
			if g.p(0.95) {
				manaOK(&g.rec.Tx.Outs[k])
			}
		}
		g.fixDeposits()
		g.balanceBase()
	}
	newBinder(g.rec).canon()
	g.autoUnlock()
}
