package main

import (
	"encoding/json"
	"math/big"
	"math/rand"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
)

// Queries to the real TimeProvider, recorded for TimeConform.tla.

type tpar struct {
	GS  Num `json:"gs"`
	GT  Num `json:"gt"`
	Dur int `json:"dur"`
	Exp int `json:"exp"`
}

func (t tpar) provider() *iotago.TimeProvider {
	return iotago.NewTimeProvider(iotago.SlotIndex(t.GS.U64()), int64(t.GT.U64()), int64(t.Dur), uint8(t.Exp))
}

type timeRec struct {
	Op  string         `json:"op"`
	P   int            `json:"p"`
	X   Num            `json:"x"`
	Y   Num            `json:"y"`
	Res map[string]Num `json:"res"`
}

func ns(t time.Time) Num {
	b := big.NewInt(t.Unix())
	b.Mul(b, big.NewInt(1e9))
	b.Add(b, big.NewInt(int64(t.Nanosecond())))
	return Num{b}
}

func fromNs(n Num) time.Time {
	s, r := new(big.Int).DivMod(n.big(), big.NewInt(1e9), new(big.Int))
	return time.Unix(s.Int64(), r.Int64())
}

func (r *timeRec) ask(tp *iotago.TimeProvider) {
	switch r.Op {
	case "time":
		r.Res = map[string]Num{"slot": N(uint64(tp.SlotFromTime(fromNs(r.X))))}
	case "slot":
		s := iotago.SlotIndex(r.X.U64())
		r.Res = map[string]Num{
			"start": ns(tp.SlotStartTime(s)), "end": ns(tp.SlotEndTime(s)), "epoch": N(uint64(tp.EpochFromSlot(s))),
			"before": N(uint64(tp.SlotsBeforeNextEpoch(s))), "since": N(uint64(tp.SlotsSinceEpochStart(s))),
		}
	case "epoch":
		e := iotago.EpochIndex(r.X.U64())
		r.Res = map[string]Num{"start": N(uint64(tp.EpochStart(e))), "end": N(uint64(tp.EpochEnd(e)))}
	case "now":
		r.X = ns(time.Now())
		r.Res = map[string]Num{"slot": N(uint64(tp.CurrentSlot())), "epoch": N(uint64(tp.CurrentEpoch()))}
		r.Y = ns(time.Now())
	case "params":
		r.Res = map[string]Num{
			"gs": N(uint64(tp.GenesisSlot())), "gt": N(uint64(tp.GenesisUnixTime())), "gtime": ns(tp.GenesisTime()), "dur": N(uint64(tp.SlotDurationSeconds())),
			"exp": N(uint64(tp.SlotsPerEpochExponent())), "eslots": N(uint64(tp.EpochDurationSlots())), "esecs": N(uint64(tp.EpochDurationSeconds())),
		}
	}
}

const maxU32 = 1<<32 - 1

func init() { commands["time"] = timeCmd }

// timeCmd: -in cases printed by MC_Time, then n random queries.
func timeCmd(in, out, _ string, seed int64, n int) {
	var tps []any
	var recs []any
	known := map[string]int{}
	add := func(t tpar, r *timeRec) {
		b, _ := json.Marshal(t)
		i, ok := known[string(b)]
		if !ok {
			i = len(tps)
			known[string(b)] = i
			tps = append(tps, t)
		}
		r.P = i
		r.ask(t.provider())
		recs = append(recs, r)
	}
	if in != "" {
		readLines(in, func(b []byte) {
			var c struct {
				Op string `json:"op"`
				TP tpar   `json:"tp"`
				X  Num    `json:"x"`
				Y  Num    `json:"y"`
			}
			must(json.Unmarshal(b, &c))
			add(c.TP, &timeRec{Op: c.Op, X: c.X, Y: c.Y})
		})
	}
	rng := rand.New(rand.NewSource(seed))
	pick := func(max uint64) uint64 {
		switch rng.Intn(4) {
		case 0:
			return uint64(rng.Int63n(20))
		case 1:
			return rng.Uint64() % (max + 1)
		case 2:
			return (uint64(1)<<uint(rng.Intn(33)) + uint64(rng.Intn(5)) - 2) % (max + 1)
		default:
			return max - uint64(rng.Int63n(20))
		}
	}
	for len(recs) < n {
		t := tpar{GS: N(pick(maxU32 - 100)), GT: N(uint64(1 + rng.Int63n(1<<33))), Dur: 1 + rng.Intn(255), Exp: rng.Intn(32)}
		if rng.Intn(3) == 0 {
			t = tpar{GS: N(uint64(rng.Intn(50))), GT: N(uint64(1700000000 + rng.Int63n(1e6))), Dur: 1 + rng.Intn(60), Exp: 3 + rng.Intn(12)}
		}
		if rng.Intn(3) > 0 && len(tps) > 200 { // reuse
			t = tps[rng.Intn(len(tps))].(tpar)
		}
		for _, s := range psets {
			if rng.Intn(200) == 0 {
				t = tpar{GS: N(uint64(s.Params.GenesisSlot())), GT: N(uint64(s.Params.GenesisUnixTimestamp())), Dur: int(s.Params.SlotDurationInSeconds()), Exp: int(s.Params.SlotsPerEpochExponent())}
			}
		}
		gs := t.GS.U64()
		switch rng.Intn(20) {
		case 0:
			add(t, &timeRec{Op: "params"})
			continue
		case 1:
			if t.GS.U64() < 1<<30 && t.GT.U64() < 1<<31 {
				add(t, &timeRec{Op: "now"})
			}
			continue
		}
		slot := pick(maxU32)
		if rng.Intn(3) > 0 {
			slot = gs + pick(maxU32-gs)
		}
		if rng.Intn(2) == 0 { // around an epoch boundary
			e := (slot - min(gs, slot)) >> uint(t.Exp)
			b := gs + e<<uint(t.Exp) + uint64(rng.Intn(4))
			if b >= 2 && b-2 <= maxU32 {
				slot = b - 2
			}
		}
		switch rng.Intn(5) {
		case 0, 1:
			add(t, &timeRec{Op: "slot", X: N(slot)})
		case 2:
			e := (slot - min(gs, slot)) >> uint(t.Exp)
			add(t, &timeRec{Op: "epoch", X: N(e)})
		default:
			// an instant around the boundary of a slot, or anywhere in it; slots after the last do not exist
			rel := slot - min(gs, slot)
			off := new(big.Int).Mul(new(big.Int).SetUint64(rel), big.NewInt(int64(t.Dur)*1e9))
			switch rng.Intn(4) {
			case 0:
			case 1:
				off.Sub(off, big.NewInt(1))
			case 2:
				off.Add(off, big.NewInt(1))
			default:
				off.Add(off, big.NewInt(rng.Int63n(int64(t.Dur)*1e9)))
			}
			if rng.Intn(10) == 0 { // before genesis
				off.Neg(new(big.Int).Rand(rng, new(big.Int).Mul(t.GT.big(), big.NewInt(1e9))))
			}
			x := new(big.Int).Mul(t.GT.big(), big.NewInt(1e9))
			x.Add(x, off)
			if x.Sign() < 0 || gs+rel >= maxU32 {
				continue
			}
			add(t, &timeRec{Op: "time", X: Num{x}})
		}
	}
	writeLines(out, recs)
	writeLines(out+".params", tps)
}
