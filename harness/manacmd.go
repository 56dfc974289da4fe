package main

import (
	"encoding/json"
	"math"
	"math/rand"

	iotago "github.com/iotaledger/iota.go/v4"
)

// Queries to the real ManaDecayProvider, recorded for ManaConform.tla.

type mpar struct {
	GS       Num    `json:"gs"`
	GT       Num    `json:"gt"`
	Dur      int    `json:"dur"`
	Exp      int    `json:"exp"`
	GenRate  int    `json:"genrate"`
	GenExp   int    `json:"genexp"`
	Decay    []Num  `json:"decay"`
	DecayExp int    `json:"decayexp"`
	Sum      Num    `json:"sum"`
	SumExp   int    `json:"sumexp"`
	Boot     int    `json:"boot"`
	RInit    Num    `json:"rinit"`
	RFinal   Num    `json:"rfinal"`
	Table    string `json:"table,omitempty"`

	api iotago.API
	mdp *iotago.ManaDecayProvider
}

func (p *mpar) build() {
	df := make([]uint32, len(p.Decay))
	for i, d := range p.Decay {
		df[i] = uint32(d.U64())
	}
	pp := iotago.NewV3SnapshotProtocolParameters(iotago.WithTimeProviderOptions(iotago.SlotIndex(p.GS.U64()), int64(p.GT.U64()), 10, 13))
	m := pp.ManaParameters()
	m.DecayFactors = df
	m.GenerationRate = uint8(p.GenRate)
	m.GenerationRateExponent = uint8(p.GenExp)
	m.DecayFactorsExponent = uint8(p.DecayExp)
	m.DecayFactorEpochsSum = uint32(p.Sum.U64())
	m.DecayFactorEpochsSumExponent = uint8(p.SumExp)
	rw := pp.RewardsParameters()
	rw.BootstrappingDuration = iotago.EpochIndex(p.Boot)
	rw.InitialTargetRewardsRate = iotago.Mana(p.RInit.U64())
	rw.FinalTargetRewardsRate = iotago.Mana(p.RFinal.U64())
	p.api = iotago.V3API(pp)
	// the epoch length is an argument of its own in the provider
	tp := iotago.NewTimeProvider(iotago.SlotIndex(p.GS.U64()), int64(p.GT.U64()), int64(p.Dur), uint8(p.Exp))
	p.mdp = iotago.NewManaDecayProvider(tp, uint8(p.Exp), m)
}

// how often the table is applied at most: as long as something may be left of the largest value
func (p *mpar) steps() uint64 {
	if f := float64(p.Decay[len(p.Decay)-1].U64()) / math.Pow(2, float64(p.DecayExp)); f < 0.7 {
		return 1 << 32
	}
	return 60
}

type manaRec struct {
	Op   string `json:"op"`
	P    int    `json:"p"`
	V    Num    `json:"v"`
	From Num    `json:"from"`
	To   Num    `json:"to"`
	Res  struct {
		OK    int    `json:"ok"`
		V     Num    `json:"v"`
		Err   string `json:"err"`
		Panic int    `json:"panic"`
	} `json:"res"`
}

func (r *manaRec) ask(p *mpar) {
	var v iotago.Mana
	err, pan := guard(func() (e error) {
		switch r.Op {
		case "decayslots":
			v, e = p.mdp.DecayManaBySlots(iotago.Mana(r.V.U64()), iotago.SlotIndex(r.From.U64()), iotago.SlotIndex(r.To.U64()))
		case "decayepochs":
			v, e = p.mdp.DecayManaByEpochs(iotago.Mana(r.V.U64()), iotago.EpochIndex(r.From.U64()), iotago.EpochIndex(r.To.U64()))
		case "generate":
			v, e = p.mdp.GenerateManaAndDecayBySlots(iotago.BaseToken(r.V.U64()), iotago.SlotIndex(r.From.U64()), iotago.SlotIndex(r.To.U64()))
		case "reward":
			v, e = p.api.ProtocolParameters().RewardsParameters().TargetReward(iotago.EpochIndex(r.From.U64()), p.api)
		}
		return
	})
	r.Res.Err = errStr(err)
	if pan {
		r.Res.Panic = 1
	}
	if err == nil {
		r.Res.OK = 1
		r.Res.V = N(uint64(v))
	}
}

func init() { commands["mana"] = manaCmd }

func manaCmd(in, out, _ string, seed int64, n int) {
	rng := rand.New(rand.NewSource(seed))
	var pars []*mpar
	if in != "" {
		readLines(in+".params", func(b []byte) {
			p := &mpar{}
			must(json.Unmarshal(b, p))
			p.build()
			pars = append(pars, p)
		})
		var recs []any
		readLines(in, func(b []byte) {
			r := &manaRec{}
			must(json.Unmarshal(b, r))
			r.ask(pars[r.P])
			recs = append(recs, r)
		})
		writeLines(out, recs)
		return
	}
	for _, s := range psets {
		m := s.Params.ManaParameters()
		rw := s.Params.RewardsParameters()
		p := &mpar{GS: N(uint64(s.Params.GenesisSlot())), GT: N(1700000000), Dur: 10, Exp: int(s.Params.SlotsPerEpochExponent()), GenRate: int(m.GenerationRate), GenExp: int(m.GenerationRateExponent),
			DecayExp: int(m.DecayFactorsExponent), Sum: N(uint64(m.DecayFactorEpochsSum)), SumExp: int(m.DecayFactorEpochsSumExponent), Boot: int(rw.BootstrappingDuration), RInit: N(uint64(rw.InitialTargetRewardsRate)), RFinal: N(uint64(rw.FinalTargetRewardsRate))}
		for _, d := range m.DecayFactors {
			p.Decay = append(p.Decay, N(uint64(d)))
		}
		pars = append(pars, p)
	}
	for k := 0; k < 60; k++ {
		p := &mpar{GS: N(uint64(rng.Intn(3) * rng.Intn(1000))), GT: N(1700000000), Dur: 10, Exp: rng.Intn(14), GenRate: 1 + rng.Intn(255), GenExp: rng.Intn(40), SumExp: rng.Intn(33), DecayExp: 1 + rng.Intn(32), Boot: rng.Intn(40)}
		if rng.Intn(4) == 0 {
			p.GenRate = rng.Intn(3)
		}
		if rng.Intn(5) == 0 {
			// all the bits of a generated value sit in the upper word of the product
			p.GenExp = 60 + rng.Intn(14)
		}
		if rng.Intn(8) == 0 {
			p.GS = N(maxU32 - uint64(rng.Intn(1<<20)))
		}
		if p.SumExp+p.GenExp < p.Exp {
			p.SumExp = p.Exp
		}
		top := uint64(1)<<uint(p.DecayExp) - 1
		if top > maxU32 {
			top = maxU32
		}
		// strictly or weakly falling factors, some close to one, some falling fast
		l := rng.Intn(7)
		f := top
		if rng.Intn(2) == 0 {
			f = rng.Uint64() % (top + 1)
		}
		for j := 0; j < l; j++ {
			p.Decay = append(p.Decay, N(f))
			switch rng.Intn(3) {
			case 0:
				f -= min(f, uint64(rng.Intn(3)))
			case 1:
				f = f / 10 * 9
			default:
				f = rng.Uint64() % (f + 1)
			}
		}
		p.Sum = N(uint64(rng.Uint32()) >> uint(rng.Intn(20)))
		p.RInit, p.RFinal = N(randU64(rng)), N(randU64(rng))
		pars = append(pars, p)
	}
	for _, p := range pars {
		if p.Decay == nil {
			p.Decay = []Num{}
		}
		p.build()
	}
	var recs []any
	for len(recs) < n {
		pi := rng.Intn(len(pars))
		p := pars[pi]
		r := &manaRec{P: pi, V: N(randU64(rng))}
		eslots := uint64(1) << uint(p.Exp)
		dEpochs := uint64(rng.Intn(4))
		switch rng.Intn(6) {
		case 0:
			dEpochs = uint64(len(p.Decay))*uint64(rng.Intn(4)) + uint64(rng.Intn(3))
		case 1:
			dEpochs = uint64(rng.Intn(60))
		case 2: // around the powers of two
			dEpochs = uint64(1)<<uint(rng.Intn(31)) + uint64(rng.Intn(3)) - 1
			if rng.Intn(2) == 0 {
				dEpochs += uint64(rng.Intn(70))
			}
		}
		e := uint64(rng.Intn(5))
		if rng.Intn(4) == 0 {
			e = (maxU32 - p.GS.U64()) >> uint(p.Exp)
			e = rng.Uint64() % (e + 1)
		}
		at := func(e uint64) uint64 {
			off := uint64(rng.Intn(3))
			switch rng.Intn(3) {
			case 0:
				off = eslots - 1 - min(eslots-1, uint64(rng.Intn(3)))
			case 1:
				off = rng.Uint64() % eslots
			}
			return p.GS.U64() + e*eslots + off
		}
		from, to := at(e), at(e+dEpochs)
		if rng.Intn(12) == 0 {
			from, to = to, from
		}
		if rng.Intn(15) == 0 {
			from = p.GS.U64() - min(p.GS.U64(), uint64(rng.Intn(5)))
		}
		if from > maxU32 || to > maxU32 {
			continue
		}
		// TLC recurses once per table length, until nothing is left
		if d := (max(from, to) - min(from, to)) >> uint(p.Exp); d > 1<<30+1000 || (len(p.Decay) > 0 && d/uint64(len(p.Decay)) > p.steps()) {
			continue
		}
		r.From, r.To = N(from), N(to)
		switch rng.Intn(7) {
		case 0, 1:
			r.Op = "decayslots"
		case 2:
			r.Op = "decayepochs"
			r.From, r.To = N(e), N(e+dEpochs)
			if rng.Intn(10) == 0 {
				r.From, r.To = r.To, r.From
			}
		case 3:
			r.Op = "reward"
			r.From, r.To, r.V = N(uint64(rng.Intn(60))), N(0), N(0)
			if p.Boot > 1000 {
				continue
			}
			if rng.Intn(2) == 0 {
				r.From = N(uint64(p.Boot + rng.Intn(3)))
			}
		default:
			r.Op = "generate"
		}
		r.ask(p)
		recs = append(recs, r)
	}
	writeLines(out, recs)
	ps := make([]any, len(pars))
	for i := range pars {
		ps[i] = pars[i]
	}
	writeLines(out+".params", ps)
}

func randU64(rng *rand.Rand) uint64 {
	switch rng.Intn(5) {
	case 0:
		return uint64(rng.Intn(100))
	case 1:
		return ^uint64(0) - uint64(rng.Intn(3))
	case 2:
		return uint64(1)<<uint(rng.Intn(64)) + uint64(rng.Intn(3)) - 1
	default:
		return rng.Uint64() >> uint(rng.Intn(64))
	}
}
