package main

import (
	"bytes"
	"math"
	"math/big"
	"math/rand"

	iotago "github.com/iotaledger/iota.go/v4"
)

// Work scores for WorkConform.tla.

type okNum struct {
	OK int `json:"ok"`
	V  Num `json:"v"`
}
type workRec struct {
	P     int      `json:"p"`
	W     []Num    `json:"w"`
	RMC   Num      `json:"rmc"`
	PK    string   `json:"pk"`
	PTag  int      `json:"ptag"`
	PData int      `json:"pdata"`
	R     *Rec     `json:"r,omitempty"`
	Res   *workRes `json:"res"`
}
type workRes struct {
	Panic   int   `json:"panic"`
	Unbuilt int   `json:"unbuilt"`
	Work    okNum `json:"work"`
	Cost    okNum `json:"cost"`
	BWork   okNum `json:"bwork"`
	BCost   okNum `json:"bcost"`
	Max     okNum `json:"max"`
	API     okNum `json:"api"`
}

func (r *workRec) weights() *iotago.WorkScoreParameters {
	w := make([]iotago.WorkScore, len(r.W))
	for i := range w {
		w[i] = iotago.WorkScore(r.W[i].U64())
	}
	return &iotago.WorkScoreParameters{DataByte: w[0], Block: w[1], Input: w[2], ContextInput: w[3], Output: w[4], NativeToken: w[5], Staking: w[6], BlockIssuer: w[7], Allotment: w[8], SignatureEd25519: w[9]}
}

// ask puts the questions to the real code.
func (r *workRec) ask(g *rand.Rand, tune int) {
	res := &workRes{}
	r.Res = res
	ask := func(f func() (uint64, error)) (o okNum) {
		err, p := guard(func() error {
			v, e := f()
			if e == nil {
				o = okNum{1, N(v)}
			}
			return e
		})
		if p {
			res.Panic = 1
		}
		_ = err
		return
	}
	api0 := psets[r.P].API
	var body iotago.BlockBody
	basic := &iotago.BasicBlockBody{API: api0, StrongParents: blockIDs([]int{1})}
	body = basic
	err, p := guard(func() error {
		switch r.PK {
		case "validation":
			body = &iotago.ValidationBlockBody{API: api0, StrongParents: blockIDs([]int{1})}
		case "tagged":
			basic.Payload = &iotago.TaggedData{Tag: bytes.Repeat([]byte{9}, r.PTag), Data: bytes.Repeat([]byte{8}, r.PData)}
		case "cand":
			basic.Payload = &iotago.CandidacyAnnouncement{}
		case "tx":
			r.R.normalize()
			b := newBinder(r.R)
			b.rankAll()
			st, e := b.signed()
			if e != nil {
				return e
			}
			if _, e = api0.Encode(st); e != nil {
				return e
			}
			basic.Payload = st
		}
		return nil
	})
	if err != nil || p {
		res.Unbuilt = 1
		return
	}
	work := func() (uint64, error) { w, e := body.WorkScore(r.weights()); return uint64(w), e }
	// place the sum or the product at the limit of its type
	if w := ask(work); w.OK == 1 && tune > 0 && r.PK != "validation" {
		if tune == 1 {
			d := new(big.Int).Sub(big.NewInt(math.MaxUint32), w.V.big())
			d.Add(d, r.W[1].big())
			if d.Cmp(big.NewInt(math.MaxUint32)) < 0 {
				r.W[1] = Num{d}.AddI(int64(g.Intn(2)))
			}
		}
		if w = ask(work); w.OK == 1 && w.V.U64() > 0 && tune == 2 {
			r.RMC = N(math.MaxUint64 / w.V.U64())
			if g.Intn(2) == 0 && r.RMC.U64() < math.MaxUint64 {
				r.RMC = r.RMC.AddI(1)
			}
		}
	}
	rmc := iotago.Mana(r.RMC.U64())
	res.Work = ask(work)
	if res.Work.OK == 1 {
		res.Cost = ask(func() (uint64, error) {
			c, e := iotago.ManaCost(rmc, iotago.WorkScore(res.Work.V.U64()))
			return uint64(c), e
		})
	}
	res.Max = ask(func() (uint64, error) { m, e := r.weights().MaxBlockWork(); return uint64(m), e })
	var api iotago.API
	func() {
		defer func() { _ = recover() }() // parameters with which work can overflow are refused
		p0 := psets[r.P].Params
		w := r.weights()
		p := iotago.NewV3SnapshotProtocolParameters(
			iotago.WithNetworkOptions(p0.NetworkName(), p0.Bech32HRP()),
			iotago.WithWorkScoreOptions(w.DataByte, w.Block, w.Input, w.ContextInput, w.Output, w.NativeToken, w.Staking, w.BlockIssuer, w.Allotment, w.SignatureEd25519))
		api = iotago.V3API(p)
		res.API = okNum{1, N(uint64(api.MaxBlockWork()))}
	}()
	if api != nil {
		b := &iotago.Block{API: api, Body: body}
		res.BWork = ask(func() (uint64, error) { w, e := b.WorkScore(); return uint64(w), e })
		if res.BWork.OK == 1 {
			res.BCost = ask(func() (uint64, error) { c, e := b.ManaCost(rmc); return uint64(c), e })
		}
	}
}

func manyFoundries(g *rand.Rand) *Rec {
	r := &Rec{Kind: "foundries", P: 3}
	r.Ins = []In{{Tx: 1, Slot: 3, Own: 0, Out: Out{T: "basic", Amt: N(1000), UC: []UC{{K: 0, A: Addr{K: "ed", N: 1}}}}}}
	r.Tx.Net, r.Tx.Slot, r.Tx.PTag = 1, 10, -1
	n := 60 + g.Intn(69)
	for k := 1; k <= n; k++ {
		o := Out{T: "foundry", Amt: N(1), Sn: k, UC: []UC{{K: 6, A: Addr{K: "acc", N: 5}}}, Minted: N(2), Max: N(2)}
		if g.Intn(20) != 0 {
			o.Ft = []Ft{{K: 5, ID: FID{Acc: 5, Sn: k}, Amt: N(1)}}
		}
		r.Tx.Outs = append(r.Tx.Outs, o)
	}
	r.Unl = []Unl{{K: "sig", Key: 1}}
	return r
}

func init() { commands["work"] = workCmd }

func workCmd(_, out, _ string, seed int64, n int) {
	g := rand.New(rand.NewSource(seed))
	var txs []*Rec
	for _, f := range []string{"S01", "V08", "V09", "V02", "V04", "V07"} {
		txs = append(txs, generate(f, seed, n/6)...)
	}
	g.Shuffle(len(txs), func(i, j int) { txs[i], txs[j] = txs[j], txs[i] })
	recs := make([]*workRec, n)
	tunes := make([]int, n)
	seeds := make([]int64, n)
	for k := range recs {
		r := &workRec{PK: "tx", P: g.Intn(4)}
		tunes[k], seeds[k] = g.Intn(4), g.Int63()
		mag := uint(1 + g.Intn(32))
		if g.Intn(2) == 0 {
			mag = uint(1 + g.Intn(14))
		}
		for j := 0; j < 10; j++ {
			w := uint64(g.Int63n(1 << mag))
			switch g.Intn(8) {
			case 0:
				w = 0
			case 1:
				w = uint64(g.Int63n(1 << 32))
				if mag < 15 {
					w &= 0xfff
				}
			}
			r.W = append(r.W, N(w))
		}
		r.RMC = Num{new(big.Int).Rand(g, new(big.Int).Lsh(big.NewInt(1), uint(g.Intn(65))))}
		switch x := g.Intn(12); {
		case x == 0:
			r.PK, r.PTag, r.PData = "tagged", g.Intn(65), g.Intn(8193)
		case x == 1:
			r.PK = []string{"cand", "none", "validation"}[g.Intn(3)]
		case x == 2 && g.Intn(4) == 0 || len(txs) == 0:
			r.R = manyFoundries(g)
			if g.Intn(2) == 0 {
				for j := range r.W {
					if j != 5 && j != 1 {
						r.W[j] = N(uint64(g.Intn(3)) / 2)
					}
				}
				r.W[5] = N(uint64(g.Intn(1 << 20)))
			}
		default:
			r.R, txs = txs[0], txs[1:]
		}
		if r.R != nil {
			r.P = r.R.P
		}
		recs[k] = r
	}
	parallel(n, func(k int) { recs[k].ask(rand.New(rand.NewSource(seeds[k])), tunes[k]) })
	vs := make([]any, n)
	for i := range recs {
		vs[i] = recs[i]
	}
	writeLines(out, vs)
	dumpParams(out + ".params")
}
