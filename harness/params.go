package main

import (
	"encoding/json"
	"os"

	iotago "github.com/iotaledger/iota.go/v4"
)

// The protocol parameter sets the conformance runs use. Index = "p" of a Rec.
type PSet struct {
	Name   string
	Params *iotago.V3ProtocolParameters
	API    iotago.API
}

var psets []*PSet

func smallTables(p *iotago.V3ProtocolParameters, n int) *iotago.V3ProtocolParameters {
	m := p.ManaParameters()
	if len(m.DecayFactors) > n {
		m.DecayFactors = m.DecayFactors[:n]
	}
	return p
}

func initParams() {
	add := func(name string, p *iotago.V3ProtocolParameters) {
		psets = append(psets, &PSet{name, p, iotago.V3API(p)})
	}
	// 0: realistic values
	add("default", smallTables(iotago.NewV3SnapshotProtocolParameters(
		iotago.WithTimeProviderOptions(0, 1700000000, 10, 13),
		iotago.WithNetworkOptions("verif", "rms"),
	), 20))
	// 1: short epochs, genesis slot not 0
	add("short", smallTables(iotago.NewV3SnapshotProtocolParameters(
		iotago.WithTimeProviderOptions(7, 1700000000, 10, 3),
		iotago.WithLivenessOptions(5, 10, 2, 4, 6),
		iotago.WithStakingOptions(2, 5, 2),
		iotago.WithNetworkOptions("shortnet", "tst"),
		iotago.WithStorageOptions(3, 2, 17, 31, 43, 59),
		iotago.WithWorkScoreOptions(1, 10, 100, 1000, 7, 11, 13, 17, 19, 23),
	), 6))
	// 2: big supply, fast generation, genesis slot 0
	p2 := iotago.NewV3SnapshotProtocolParameters(
		iotago.WithTimeProviderOptions(0, 1700000000, 10, 5),
		iotago.WithLivenessOptions(5, 10, 3, 12, 20),
		iotago.WithStakingOptions(3, 5, 2),
		iotago.WithNetworkOptions("bignet", "iota"),
		iotago.WithStorageOptions(1, 1, 0, 10, 20, 30),
		iotago.WithWorkScoreOptions(2, 30, 500, 700, 11, 13, 17, 19, 23, 29),
	)
	smallTables(p2, 4)
	setSupply(p2, 1<<52)
	// strong decay and generation so that every term of the formulas matters
	m := p2.ManaParameters()
	m.DecayFactors = []uint32{4080218931, 3876207984, 3682397585, 3498277706}
	m.BitsCount = 60
	m.GenerationRate = 3
	m.GenerationRateExponent = 12
	m.DecayFactorEpochsSum = 622592 * 4
	m.DecayFactorEpochsSumExponent = 17
	add("big", p2)
	// 3: whole 64-bit supply, no storage cost
	p3 := iotago.NewV3SnapshotProtocolParameters(
		iotago.WithTimeProviderOptions(3, 1700000000, 10, 4),
		iotago.WithLivenessOptions(5, 10, 2, 5, 9),
		iotago.WithStakingOptions(1, 5, 2),
		iotago.WithNetworkOptions("maxnet", "atoi"),
		iotago.WithStorageOptions(0, 1, 0, 10, 20, 30),
		iotago.WithWorkScoreOptions(3, 1, 4, 1, 5, 9, 2, 6, 5, 35),
	)
	smallTables(p3, 3)
	m3 := p3.ManaParameters()
	m3.BitsCount = 63
	m3.GenerationRate = 255
	m3.GenerationRateExponent = 20
	m3.DecayFactorsExponent = 24
	m3.DecayFactors = []uint32{16000000, 15000000, 14000000}
	m3.DecayFactorEpochsSum = 16000000
	m3.DecayFactorEpochsSumExponent = 20
	setSupply(p3, 1<<64-1)
	add("max", p3)
}

func setSupply(p *iotago.V3ProtocolParameters, s uint64) {
	// the parameters have no setter after construction: apply the option
	iotago.WithSupplyOptions(iotago.BaseToken(s), p.ManaParameters().BitsCount, p.ManaParameters().GenerationRate, p.ManaParameters().GenerationRateExponent, p.ManaParameters().DecayFactorsExponent, p.ManaParameters().DecayFactorEpochsSumExponent, p.ManaParameters().AnnualDecayFactorPercentage)(p)
}

func dumpParams(path string) {
	var out []map[string]any
	for _, s := range psets {
		p := s.Params
		m := p.ManaParameters()
		sp := p.StorageScoreParameters()
		w := p.WorkScoreParameters()
		rw := p.RewardsParameters()
		var df []Num
		for _, d := range m.DecayFactors {
			df = append(df, N(uint64(d)))
		}
		out = append(out, map[string]any{
			"name": s.Name, "hrp": string(p.Bech32HRP()), "version": int(p.Version()),
			"genesis": int(p.GenesisSlot()), "gtime": int(p.GenesisUnixTimestamp()), "dur": int(p.SlotDurationInSeconds()), "exp": int(p.SlotsPerEpochExponent()),
			"minca": int(p.MinCommittableAge()), "maxca": int(p.MaxCommittableAge()), "nearing": int(p.EpochNearingThreshold()),
			"unbond": int(p.StakingUnbondingPeriod()), "supply": N(uint64(p.TokenSupply())),
			"bits": int(m.BitsCount), "genrate": int(m.GenerationRate), "genexp": int(m.GenerationRateExponent),
			"decay": df, "decayexp": int(m.DecayFactorsExponent), "sum": N(uint64(m.DecayFactorEpochsSum)), "sumexp": int(m.DecayFactorEpochsSumExponent),
			"scost": N(uint64(sp.StorageCost)), "sdata": int(sp.FactorData), "soutput": int(sp.OffsetOutputOverhead), "skey": int(sp.OffsetEd25519BlockIssuerKey), "sstake": int(sp.OffsetStakingFeature), "sdeleg": int(sp.OffsetDelegation),
			"wdata": int(w.DataByte), "wblock": int(w.Block), "winput": int(w.Input), "wctx": int(w.ContextInput), "woutput": int(w.Output), "wnt": int(w.NativeToken), "wstake": int(w.Staking), "wbi": int(w.BlockIssuer), "wallot": int(w.Allotment), "wsig": int(w.SignatureEd25519),
			"keyrank": keyRank[:60], "boot": int(rw.BootstrappingDuration), "rinit": N(uint64(rw.InitialTargetRewardsRate)), "rfinal": N(uint64(rw.FinalTargetRewardsRate)),
		})
	}
	f, err := os.Create(path)
	must(err)
	defer f.Close()
	enc := json.NewEncoder(f)
	for _, o := range out {
		must(enc.Encode(o))
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
