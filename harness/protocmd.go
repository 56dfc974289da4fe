package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sync"
	"time"

	"golang.org/x/crypto/blake2b"

	"github.com/iotaledger/hive.go/runtime/options"
	iotago "github.com/iotaledger/iota.go/v4"
)

// Protocol parameters, for ParamsConform.tla.

func init() {
	commands["proto"] = protoCmd
	commands["protoconc"] = protoConcCmd
}

type protoParams = iotago.V3ProtocolParameters

// protoFields are the settable leaves of parameters by name.
func protoFields(p *protoParams) map[string]reflect.Value {
	m := map[string]reflect.Value{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		for k := 0; k < v.NumField(); k++ {
			if f := v.Field(k); f.Kind() == reflect.Struct {
				walk(f)
			} else {
				m[v.Type().Field(k).Name] = f
			}
		}
	}
	walk(reflect.ValueOf(p).Elem().FieldByName("basicProtocolParameters"))
	return m
}

func protoVal(v reflect.Value) any {
	switch v.Kind() {
	case reflect.String:
		out := []int{}
		for _, b := range []byte(v.String()) {
			out = append(out, int(b))
		}
		return out
	case reflect.Slice:
		out := []Num{}
		for k := 0; k < v.Len(); k++ {
			out = append(out, N(v.Index(k).Uint()))
		}
		return out
	case reflect.Int64:
		return N(uint64(v.Int()))
	default:
		return N(v.Uint())
	}
}

func protoDump(p *protoParams) map[string]any {
	m := map[string]any{}
	for n, v := range protoFields(p) {
		m[n] = protoVal(v)
	}
	return m
}

// protoGet are the same leaves by way of the accessors.
func protoGet(p *protoParams) map[string]any {
	m := map[string]any{}
	put := func(n string, x any) { m[n] = protoVal(reflect.ValueOf(x)) }
	all := func(x any) {
		v := reflect.ValueOf(x).Elem()
		for k := 0; k < v.NumField(); k++ {
			m[v.Type().Field(k).Name] = protoVal(v.Field(k))
		}
	}
	put("Version", p.Version())
	put("NetworkName", p.NetworkName())
	put("Bech32HRP", p.Bech32HRP())
	all(p.StorageScoreParameters())
	all(p.WorkScoreParameters())
	all(p.ManaParameters())
	all(p.CongestionControlParameters())
	all(p.VersionSignalingParameters())
	all(p.RewardsParameters())
	put("TokenSupply", p.TokenSupply())
	put("GenesisSlot", p.GenesisSlot())
	put("GenesisUnixTimestamp", p.GenesisUnixTimestamp())
	put("SlotDurationInSeconds", p.SlotDurationInSeconds())
	put("SlotsPerEpochExponent", p.SlotsPerEpochExponent())
	put("StakingUnbondingPeriod", p.StakingUnbondingPeriod())
	put("ValidationBlocksPerSlot", p.ValidationBlocksPerSlot())
	put("PunishmentEpochs", p.PunishmentEpochs())
	put("LivenessThresholdLowerBoundInSeconds", uint64(p.LivenessThresholdLowerBound()/time.Second))
	put("LivenessThresholdUpperBoundInSeconds", uint64(p.LivenessThresholdUpperBound()/time.Second))
	put("MinCommittableAge", p.MinCommittableAge())
	put("MaxCommittableAge", p.MaxCommittableAge())
	put("EpochNearingThreshold", p.EpochNearingThreshold())
	put("TargetCommitteeSize", p.TargetCommitteeSize())
	put("ChainSwitchingThreshold", p.ChainSwitchingThreshold())
	return m
}

func protoCopy(p *protoParams) *protoParams {
	q := new(protoParams)
	a, b := protoFields(p), protoFields(q)
	for n := range a {
		if a[n].Kind() == reflect.Slice {
			b[n].Set(reflect.AppendSlice(reflect.MakeSlice(a[n].Type(), 0, a[n].Len()), a[n]))
		} else {
			b[n].Set(a[n])
		}
	}
	return q
}

// protoRandomise gives a field a random value, often near another or at the ends of its range.
func protoRandomise(rng *rand.Rand, v reflect.Value) {
	switch v.Kind() {
	case reflect.String:
		b := make([]byte, []int{0, 1, rng.Intn(20), 255}[rng.Intn(4)])
		for k := range b {
			b[k] = "abcdefghijklmnopqrstuvwxyz019-"[rng.Intn(30)]
		}
		v.SetString(string(b))
	case reflect.Slice:
		n := rng.Intn(5)
		s := reflect.MakeSlice(v.Type(), n, n)
		for k := 0; k < n; k++ {
			s.Index(k).SetUint(uint64(rng.Uint32()) >> rng.Intn(32))
		}
		v.Set(s)
	case reflect.Int64:
		v.SetInt(rng.Int63() >> rng.Intn(63))
	default:
		w := v.Type().Bits()
		x := rng.Uint64() >> rng.Intn(64)
		switch rng.Intn(6) {
		case 0:
			x = ^uint64(0)
		case 1:
			x = 0
		case 2:
			x = v.Uint() + 1
		case 3:
			x = v.Uint() ^ 1<<rng.Intn(w) // one bit
		}
		v.SetUint(x & (^uint64(0) >> (64 - w)))
	}
}

type protoOpt struct {
	O string            `json:"o"`
	A []json.RawMessage `json:"a"`
}

func (o *protoOpt) option() options.Option[protoParams] {
	u := func(k int) uint64 {
		var n Num
		must(json.Unmarshal(o.A[k], &n))
		return n.U64()
	}
	str := func(k int) string {
		var n []int
		must(json.Unmarshal(o.A[k], &n))
		b := make([]byte, len(n))
		for j := range n {
			b[j] = byte(n[j])
		}
		return string(b)
	}
	type sc = iotago.StorageScore
	type ws = iotago.WorkScore
	switch o.O {
	case "version":
		return iotago.WithVersion(iotago.Version(u(0)))
	case "network":
		return iotago.WithNetworkOptions(str(0), iotago.NetworkPrefix(str(1)))
	case "storage":
		return iotago.WithStorageOptions(iotago.BaseToken(u(0)), iotago.StorageScoreFactor(u(1)), sc(u(2)), sc(u(3)), sc(u(4)), sc(u(5)))
	case "work":
		return iotago.WithWorkScoreOptions(ws(u(0)), ws(u(1)), ws(u(2)), ws(u(3)), ws(u(4)), ws(u(5)), ws(u(6)), ws(u(7)), ws(u(8)), ws(u(9)))
	case "time":
		return iotago.WithTimeProviderOptions(iotago.SlotIndex(u(0)), int64(u(1)), uint8(u(2)), uint8(u(3)))
	case "liveness":
		return iotago.WithLivenessOptions(uint16(u(0)), uint16(u(1)), iotago.SlotIndex(u(2)), iotago.SlotIndex(u(3)), iotago.SlotIndex(u(4)))
	case "supply":
		return iotago.WithSupplyOptions(iotago.BaseToken(u(0)), uint8(u(1)), uint8(u(2)), uint8(u(3)), uint8(u(4)), uint8(u(5)), uint8(u(6)))
	case "congestion":
		return iotago.WithCongestionControlOptions(iotago.Mana(u(0)), iotago.Mana(u(1)), iotago.Mana(u(2)), ws(u(3)), ws(u(4)), ws(u(5)), uint32(u(6)), uint32(u(7)))
	case "staking":
		return iotago.WithStakingOptions(iotago.EpochIndex(u(0)), uint8(u(1)), iotago.EpochIndex(u(2)))
	case "signaling":
		return iotago.WithVersionSignalingOptions(uint8(u(0)), uint8(u(1)), uint8(u(2)))
	case "rewards":
		return iotago.WithRewardsOptions(uint8(u(0)), uint8(u(1)), uint8(u(2)), uint16(u(3)))
	case "committee":
		return iotago.WithTargetCommitteeSize(uint8(u(0)))
	case "switching":
		return iotago.WithChainSwitchingThreshold(uint8(u(0)))
	}
	panic("option " + o.O)
}

type protoWay struct {
	E Num `json:"e"`
	X Num `json:"x"`
	D Num `json:"d"`
}
type protoTab struct {
	A Num `json:"a"`
	B Num `json:"b"`
	C Num `json:"c"`
}

type protoConstruct struct {
	Op    string         `json:"op"`
	Opts  []*protoOpt    `json:"opts"`
	OK    int            `json:"ok"`
	Why   string         `json:"why"`
	Ch    map[string]any `json:"ch"`
	TLen  int            `json:"tlen"`
	Tab   []protoTab     `json:"tab"`
	First Num            `json:"first"`
	Last  Num            `json:"last"`
	Rew   []Num          `json:"rew"`
	Way   []protoWay     `json:"way"`
}

func (r *protoConstruct) do(base map[string]any, rng *rand.Rand) {
	r.Op, r.Ch, r.Tab, r.Rew = "construct", map[string]any{}, []protoTab{}, []Num{}
	r.Way = []protoWay{}
	var opts []options.Option[protoParams]
	for _, o := range r.Opts {
		opts = append(opts, o.option())
	}
	var p *protoParams
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.Why = fmt.Sprint(e)
			}
		}()
		p = iotago.NewV3SnapshotProtocolParameters(opts...)
	}()
	if p == nil {
		return
	}
	r.OK = 1
	for n, v := range protoFields(p) {
		if n == "DecayFactors" {
			continue
		}
		x := protoVal(v)
		_, derived := map[string]int{"DecayFactorEpochsSum": 1, "BootstrappingDuration": 1, "InitialTargetRewardsRate": 1, "FinalTargetRewardsRate": 1}[n]
		if derived || !reflect.DeepEqual(x, base[n]) {
			r.Ch[n] = x
		}
	}
	t := p.ManaParameters().DecayFactors
	if r.TLen = len(t); r.TLen > 0 {
		r.First, r.Last = N(uint64(t[0])), N(uint64(t[r.TLen-1]))
		for k := 0; k < 6 && r.TLen > 1; k++ {
			m := 1 + rng.Intn(r.TLen-1)
			n := 1 + rng.Intn(r.TLen-m)
			if k == 0 {
				n = 1
			}
			r.Tab = append(r.Tab, protoTab{N(uint64(t[m-1])), N(uint64(t[n-1])), N(uint64(t[m+n-1]))})
		}
	}
	rw := p.RewardsParameters()
	if T := rw.BootstrappingDuration; T > 0 && r.TLen > 0 && T < 1<<20 {
		var api iotago.API
		func() {
			defer func() { recover() }() // the work of a block has to fit
			api = iotago.V3API(p)
		}()
		if api == nil {
			return
		}
		var rew []Num
		for _, e := range []iotago.EpochIndex{0, T, T + 1} {
			x, err := rw.TargetReward(e, api)
			if err != nil {
				rew = nil
				break
			}
			rew = append(rew, N(uint64(x)))
		}
		if rew != nil {
			r.Rew = rew
		}
		// rewards on the way next to the decay of the first one
		for _, e := range []iotago.EpochIndex{1, T / 2, T - 1, T, T + 1, T + 2, 2 * T} {
			x, err := rw.TargetReward(e, api)
			d, err2 := api.ManaDecayProvider().DecayManaByEpochs(rw.InitialTargetRewardsRate, 0, e)
			if err == nil && err2 == nil {
				r.Way = append(r.Way, protoWay{N(uint64(e)), N(uint64(x)), N(uint64(d))})
			}
		}
	}
}

func raw(x any) json.RawMessage {
	b, err := json.Marshal(x)
	must(err)
	return b
}

func protoRandomOpts(rng *rand.Rand) (opts []*protoOpt) {
	u := func(xs ...uint64) (a []json.RawMessage) {
		for _, x := range xs {
			a = append(a, raw(N(x)))
		}
		return
	}
	put := func(o string, a []json.RawMessage) { opts = append(opts, &protoOpt{O: o, A: a}) }
	some := func(xs ...uint64) uint64 { return xs[rng.Intn(len(xs))] }
	r32 := func() uint64 { return uint64(rng.Uint32()) >> rng.Intn(32) }
	r64 := func() uint64 { return rng.Uint64() >> rng.Intn(64) }
	r8 := func() uint64 { return uint64(rng.Intn(256)) }
	exp := some(13, 13, 13, uint64(11+rng.Intn(6)), uint64(rng.Intn(33)))
	if rng.Intn(60) == 0 {
		// epochs as long as the time provider allows, or longer
		e := uint64(31 + rng.Intn(5))
		put("time", u(0, 1700000000, 10, e))
		put("supply", u(1813620509061365, 63, 1, some(e, e, e+3), 32, 0, some(70, 99)))
		put("liveness", u(15, 30, 10, 20, 60))
		return
	}
	dur := some(10, 10, 1+uint64(rng.Intn(255)), 255)
	put("time", u(some(0, r32()), 1700000000+r32(), dur, exp))
	if exp < 12 || rng.Intn(4) == 0 {
		put("supply", u(some(1813620509061365, r64()), some(63, 64, uint64(40+rng.Intn(25))), some(1, r8()), some(17, exp, uint64(rng.Intn(60))), uint64(20+rng.Intn(13)), some(21, uint64(rng.Intn(22))), some(70, 50, 99, 1+uint64(rng.Intn(99)))))
	}
	live := func() {
		min := some(1, 10, 1+r32()>>8, 16843009, 16843010)
		max := min + some(0, 1, 10, r32()>>8)
		near := max + some(0, 1, 10, r32()>>8)
		if rng.Intn(3) == 0 && exp > 2 && exp < 32 {
			near = 1<<exp - 1 + uint64(rng.Intn(2))
			max = near - some(1, 1, 0)
			min = max - some(1, 1, 0)
		}
		up := some(30, min*dur-1, min*dur, min*dur/2)
		if up > 65535 {
			up = 65535
		}
		lo := some(up, up/2, up+1) & 65535
		put("liveness", u(lo, up, min&0xffffffff, max&0xffffffff, near&0xffffffff))
	}
	if exp < 7 || rng.Intn(3) == 0 {
		live()
	}
	if dur < 8 || rng.Intn(3) == 0 {
		rate := some(1, 50_000_000, 1<<32/dur, 1<<32/dur+1, r32())
		if rate > 1<<32-1 {
			rate = 1<<32 - 1
		}
		c := rate * dur
		inc := some(c, c-1, c+1, c/2, c/3)
		if inc > 1<<32-1 {
			inc = some(1<<32-1, 400_000_000)
		}
		dec := some(inc, inc/2, inc+1, inc/3)
		if dec > 1<<32-1 {
			dec = 1<<32 - 1
		}
		put("congestion", u(r64(), r64(), r64(), inc, dec, rate, r32(), r32()))
	}
	if rng.Intn(3) == 0 {
		// as large as the pool coefficient allows
		b := uint64(1 + rng.Intn(64))
		s := some(1<<(b-1), 1<<b-1, 1<<(b-1)+r64()>>(65-b))
		put("supply", u(s, some(63, 64), some(1, 0), some(17, exp, 60), 32, some(21, 5), 70))
		put("rewards", u(r8(), some(64-b, 65-b, 63-b)&255, some(2, 1, r8()), r32()&65535))
	}
	if rng.Intn(20) == 0 {
		// the final reward fits 64 bits, the initial one may not
		s := uint64(1<<63)/255 + r64()>>(9+uint(rng.Intn(3)))
		if rng.Intn(4) == 0 {
			s /= 2
		} else if rng.Intn(4) == 0 {
			s += 1<<63/255 + 1
		}
		put("time", u(0, 1700000000, 255, 16))
		put("supply", u(s, 64, 1, 16, 32, 21, some(70, 80)))
		put("rewards", u(r8(), some(0, 8), 255, 384))
		return opts
	}
	for _, f := range []func(){
		func() { put("version", u(r8())) },
		func() {
			a, b := make([]int, rng.Intn(10)), make([]int, rng.Intn(5))
			for k := range a {
				a[k] = 97 + rng.Intn(26)
			}
			for k := range b {
				b[k] = 97 + rng.Intn(26)
			}
			put("network", []json.RawMessage{raw(a), raw(b)})
		},
		func() { put("storage", u(r64(), r8(), r64(), r64(), r64(), r64())) },
		func() { put("work", u(r32(), r32(), r32(), r32(), r32(), r32(), r32(), r32(), r32(), r32())) },
		func() { put("staking", u(r32(), some(10, 32, 33, uint64(rng.Intn(33))), r32())) },
		func() { put("signaling", u(r8(), r8(), r8())) },
		func() { put("rewards", u(r8(), some(11, 12, 13, 14, r8()), some(2, r8()), r32()&65535)) },
		func() { put("committee", u(r8())) },
		func() { put("switching", u(r8())) },
		live,
	} {
		if rng.Intn(5) == 0 {
			f()
		}
	}
	return opts
}

func protoEncode(rng *rand.Rand) any {
	p := new(protoParams)
	for n, v := range protoFields(p) {
		protoRandomise(rng, v)
		if n == "LivenessThresholdLowerBoundInSeconds" && rng.Intn(2) == 0 {
			v.SetUint(uint64(rng.Intn(100)))
		}
	}
	r := map[string]any{"op": "encode", "f": protoDump(p), "panic": 0, "b": []int{}, "back": 0, "json": 0, "hash": 0, "netid": 0, "again": 0, "get": 0}
	func() {
		defer func() {
			if e := recover(); e != nil {
				r["panic"] = 1
			}
		}()
		b, err := p.Bytes()
		must(err)
		ints := make([]int, len(b))
		for k := range b {
			ints[k] = int(b[k])
		}
		r["b"] = ints
		if q, n, err := iotago.ProtocolParametersFromBytes(b); err == nil && n == len(b) {
			r["back"] = b2i(reflect.DeepEqual(protoDump(q.(*protoParams)), r["f"]))
		}
		if j, err := iotago.CommonSerixAPI().JSONEncode(context.Background(), p); err == nil {
			var q iotago.ProtocolParameters
			if err := iotago.CommonSerixAPI().JSONDecode(context.Background(), j, &q); err == nil {
				r["json"] = b2i(reflect.DeepEqual(protoDump(q.(*protoParams)), r["f"]))
			} else {
				r["json"] = err.Error()
			}
		}
		h, err := p.Hash()
		must(err)
		r["hash"] = b2i(h == iotago.Identifier(blake2b.Sum256(b)))
		id := blake2b.Sum256([]byte(p.NetworkName()))
		r["netid"] = b2i(uint64(p.NetworkID()) == binary.LittleEndian.Uint64(id[:]))
		b2, err := p.Bytes()
		must(err)
		h2, err := p.Hash()
		must(err)
		c, err := iotago.CommonSerixAPI().Encode(context.Background(), p)
		must(err)
		r["again"] = b2i(bytes.Equal(b, b2) && h == h2 && bytes.Equal(b, c) && p.NetworkID() == p.NetworkID())
		g := protoGet(p)
		r["get"] = b2i(reflect.DeepEqual(g, r["f"]))
		if r["get"] == 0 && os.Getenv("VERIF_DEBUG") != "" {
			for n := range g {
				if !reflect.DeepEqual(g[n], r["f"].(map[string]any)[n]) {
					fmt.Fprintln(os.Stderr, n)
				}
			}
		}
		if len(g) != len(r["f"].(map[string]any)) {
			r["get"] = 0
		}
	}()
	return r
}

var protoBase *protoParams

func protoPair(rng *rand.Rand, names []string, k int) any {
	p, q := protoCopy(protoBase), protoCopy(protoBase)
	pf, qf := protoFields(p), protoFields(q)
	// every field alone, then several
	if k < 2*len(names) {
		protoRandomise(rng, qf[names[k%len(names)]])
	} else {
		for j := rng.Intn(4); j > 0; j-- {
			n := names[rng.Intn(len(names))]
			protoRandomise(rng, pf[n])
			if rng.Intn(2) == 0 {
				qf[n].Set(pf[n])
			} else if rng.Intn(2) == 0 {
				protoRandomise(rng, qf[n])
			}
		}
	}
	r := map[string]any{"op": "pair"}
	base := protoDump(protoBase)
	diff := func(p *protoParams) map[string]any {
		m := map[string]any{"Version": base["Version"]}
		for n, x := range protoDump(p) {
			if !reflect.DeepEqual(x, base[n]) {
				m[n] = x
			}
		}
		return m
	}
	r["a"], r["b"] = diff(p), diff(q)
	r["eq"], r["rev"] = b2i(p.Equals(q)), b2i(q.Equals(p))
	x, _ := p.Bytes()
	y, _ := q.Bytes()
	r["enc"] = b2i(bytes.Equal(x, y))
	hx, _ := p.Hash()
	hy, _ := q.Hash()
	r["hash"] = b2i(hx == hy)
	r["api"] = r["eq"]
	func() {
		defer func() { recover() }() // parameters without slots have no API
		if x, ok := iotago.V3API(p).(interface{ Equals(iotago.API) bool }); ok {
			r["api"] = b2i(x.Equals(iotago.V3API(q)))
		}
	}()
	return r
}

func protoBaseline() *protoParams {
	p := iotago.NewV3SnapshotProtocolParameters(iotago.WithTimeProviderOptions(0, 1700000000, 10, 13))
	// the table is left out of the comparison of fields
	p.ManaParameters().DecayFactors = p.ManaParameters().DecayFactors[:0:0]
	return p
}

func protoCmd(in, out, _ string, seed int64, n int) {
	rng := rand.New(rand.NewSource(seed))
	protoBase = protoBaseline()
	base := protoDump(protoBase)
	var cons []*protoConstruct
	if in != "" {
		readLines(in, func(b []byte) {
			r := &protoConstruct{}
			must(json.Unmarshal(b, r))
			cons = append(cons, r)
		})
	}
	for k := 0; k < n; k++ {
		cons = append(cons, &protoConstruct{Opts: protoRandomOpts(rng)})
	}
	seeds := make([]int64, len(cons))
	for k := range seeds {
		seeds[k] = rng.Int63()
	}
	parallel(len(cons), func(k int) { cons[k].do(base, rand.New(rand.NewSource(seeds[k]))) })
	recs := []any{}
	for _, c := range cons {
		recs = append(recs, c)
	}
	protoBase = protoCopy(protoBase)
	protoBase.ManaParameters().DecayFactors = []uint32{4000000000, 3900000000, 3800000000}
	var names []string
	for n := range base {
		names = append(names, n)
	}
	// pairs need the base with its table, told in every record
	for k := 0; k < n; k++ {
		recs = append(recs, protoEncode(rng))
		recs = append(recs, protoPair(rng, names, k))
	}
	base["DecayFactors"] = protoDump(protoBase)["DecayFactors"]
	writeLines(out+".params", []any{map[string]any{"d": base}})
	writeLines(out, recs)
}

// protoConcCmd asks shared parameters from several goroutines at once.
func protoConcCmd(_, out, _ string, seed int64, n int) {
	rng := rand.New(rand.NewSource(seed))
	ref := protoBaseline()
	ref.ManaParameters().DecayFactors = []uint32{4000000000, 3900000000, 3800000000}
	bad := 0
	for k := 0; k < n; k++ {
		f := protoFields(ref)
		for _, m := range []string{"TokenSupply", "MaxBufferSize", "NetworkName"} {
			protoRandomise(rng, f[m])
		}
		p, q, o := protoCopy(ref), protoCopy(ref), protoCopy(ref)
		wb, _ := q.Bytes()
		wh, _ := q.Hash()
		wid := q.NetworkID()
		var wg sync.WaitGroup
		var mu sync.Mutex
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				ok := true
				for j := 0; j < 4; j++ {
					switch (g + j) % 4 {
					case 0:
						b, err := p.Bytes()
						ok = ok && err == nil && bytes.Equal(b, wb)
					case 1:
						h, err := p.Hash()
						ok = ok && err == nil && h == wh
					case 2:
						ok = ok && p.NetworkID() == wid
					case 3:
						ok = ok && p.Equals(o) && o.Equals(p)
					}
				}
				if !ok {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}(g)
		}
		wg.Wait()
	}
	stats := map[string]any{"n": n, "classes": map[string]int{"parameters shared": n}}
	if bad > 0 {
		writeLines(out, []any{map[string]any{"sig": "shared:answers differ", "what": fmt.Sprintf("%d answers", bad), "case": map[string]any{}}, stats})
		return
	}
	writeLines(out, []any{stats})
}
