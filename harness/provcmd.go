package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"
	"sync"
	"sync/atomic"

	iotago "github.com/iotaledger/iota.go/v4"
)

// Histories on the real EpochBasedProvider.

type provOp struct {
	Op  string `json:"op"`
	V   int    `json:"v"`
	X   int    `json:"x"`
	H   string `json:"h"`
	Inv int64  `json:"inv"`
	Ret int64  `json:"ret"`
	OK  int    `json:"ok"`
	R   int    `json:"r"`
}

type provKV struct {
	V int `json:"v"`
	E int `json:"e"`
}

type provObs struct {
	OK        int               `json:"ok"`
	Epoch     map[string]int    `json:"epoch"`
	Slot      map[string]int    `json:"slot"`
	Time      map[string]int    `json:"time"`
	VSlot     map[string]int    `json:"vslot"`
	Version   map[string]int    `json:"version"`
	Params    map[string]int    `json:"params"`
	Start     map[string]int    `json:"start"`
	PHash     map[string]string `json:"phash"`
	Latest    int               `json:"latest"`
	Committed int               `json:"committed"`
	Known     []provKV          `json:"known"`
	Hash      string            `json:"hash"`
}

type provRec struct {
	H []*provOp  `json:"h"`
	O []*provObs `json:"o"`
}

// every version has parameters of its own, recognisable by the network name
var provParams = sync.OnceValue(func() map[int]iotago.ProtocolParameters {
	out := map[int]iotago.ProtocolParameters{}
	for v := 2; v <= 6; v++ {
		out[v] = iotago.NewV3SnapshotProtocolParameters(
			iotago.WithVersion(iotago.Version(v)),
			iotago.WithNetworkOptions("net"+strconv.Itoa(v), "tst"),
			iotago.WithTimeProviderOptions(7, 1700000000, 10, 3),
			iotago.WithLivenessOptions(5, 10, 2, 4, 6),
		)
	}
	return out
})

var bogusHash = iotago.IdentifierFromData([]byte("bogus"))

func newProv() *iotago.EpochBasedProvider {
	return iotago.NewEpochBasedProvider(iotago.WithAPIForMissingVersionCallback(func(p iotago.ProtocolParameters) (iotago.API, error) {
		return iotago.V3API(p), nil
	}))
}

// apiVersion names the rules an API stands for: 0 none, -2 mixed up
func apiVersion(a iotago.API) int {
	if a == nil {
		return 0
	}
	var v int
	if _, err := fmt.Sscanf(a.ProtocolParameters().NetworkName(), "net%d", &v); err != nil {
		return -2
	}
	if int(a.Version()) != v || int(a.ProtocolParameters().Version()) != v {
		return -2
	}
	return v
}

func provDo(p *iotago.EpochBasedProvider, o *provOp) bool {
	err, _ := guard(func() error {
		switch o.Op {
		case "params":
			p.AddProtocolParameters(provParams()[o.V])
		case "version":
			p.AddVersion(iotago.Version(o.V), iotago.EpochIndex(o.X))
		case "add":
			p.AddProtocolParametersAtEpoch(provParams()[o.V], iotago.EpochIndex(o.X))
		case "future":
			h := bogusHash
			if o.H == "P" {
				h, _ = provParams()[o.V].Hash()
			}
			p.AddFutureVersion(iotago.Version(o.V), h, iotago.EpochIndex(o.X))
		case "commit":
			p.SetCommittedSlot(iotago.SlotIndex(o.X))
		default:
			panic(o.Op)
		}
		return nil
	})
	return err == nil
}

func provAPI(f func() (iotago.API, error)) int {
	var a iotago.API
	err, _ := guard(func() (e error) { a, e = f(); return })
	if err != nil {
		return -1
	}
	return apiVersion(a)
}

func provObserve(p *iotago.EpochBasedProvider) *provObs {
	o := &provObs{Epoch: map[string]int{}, Slot: map[string]int{}, Time: map[string]int{}, VSlot: map[string]int{}, Version: map[string]int{}, Params: map[string]int{}, Start: map[string]int{}, PHash: map[string]string{}, Known: []provKV{}}
	for e := 0; e <= 5; e++ {
		e := e
		o.Epoch[strconv.Itoa(e)] = provAPI(func() (iotago.API, error) { return p.APIForEpoch(iotago.EpochIndex(e)), nil })
	}
	tp := iotago.NewTimeProvider(7, 1700000000, 10, 3)
	for _, s := range []int{0, 7, 8, 14, 15, 22, 23, 30, 31, 39, 200} {
		k, s := strconv.Itoa(s), iotago.SlotIndex(s)
		o.Slot[k] = provAPI(func() (iotago.API, error) { return p.APIForSlot(s), nil })
		o.Time[k] = provAPI(func() (iotago.API, error) { return p.APIForTime(tp.SlotEndTime(s)), nil })
		v := -1
		_, pan := guard(func() error { v = int(p.VersionForSlot(s)); return nil })
		if pan {
			v = -1
		}
		o.VSlot[k] = v
	}
	for v := 2; v <= 6; v++ {
		k, v := strconv.Itoa(v), iotago.Version(v)
		o.Version[k] = provAPI(func() (iotago.API, error) { return p.APIForVersion(v) })
		if pp := p.ProtocolParameters(v); pp != nil {
			o.Params[k] = int(pp.Version())
			if pp != provParams()[int(v)] {
				o.Params[k] = -2
			}
		} else {
			o.Params[k] = 0
		}
		if e, ok := p.EpochForVersion(v); ok {
			o.Start[k] = int(e)
		} else {
			o.Start[k] = -1
		}
		ph, _ := provParams()[int(v)].Hash()
		switch h := p.ProtocolParametersHash(v); h {
		case ph:
			o.PHash[k] = "P"
		case bogusHash:
			o.PHash[k] = "X"
		case iotago.EmptyIdentifier:
			o.PHash[k] = ""
		default:
			o.PHash[k] = "?"
		}
	}
	o.Latest = provAPI(func() (iotago.API, error) { return p.LatestAPI(), nil })
	o.Committed = provAPI(func() (iotago.API, error) { return p.CommittedAPI(), nil })
	for _, v := range p.ProtocolEpochVersions() {
		o.Known = append(o.Known, provKV{int(v.Version), int(v.StartEpoch)})
	}
	if h, err := p.VersionsAndProtocolParametersHash(); err == nil {
		o.Hash = hex.EncodeToString(h[:])
	}
	return o
}

func init() {
	commands["prov"] = provCmd
	commands["provconc"] = provConcCmd
}

func (r *provRec) replay() {
	p := newProv()
	for _, op := range r.H {
		ok := provDo(p, op)
		o := provObserve(p)
		if ok {
			o.OK = 1
		}
		r.O = append(r.O, o)
	}
}

func provRandom(rng *rand.Rand, length int) (h []*provOp) {
	slot := 0
	for j := 0; j < length; j++ {
		o := &provOp{V: 2 + rng.Intn(5), X: rng.Intn(6)}
		if rng.Intn(3) > 0 {
			o.V = 3 + rng.Intn(3)
		}
		switch rng.Intn(8) {
		case 0:
			o.Op, o.X = "params", 0
		case 1:
			o.Op = "version"
		case 2, 3:
			o.Op = "add"
		case 4:
			o.Op, o.H = "future", []string{"P", "P", "X"}[rng.Intn(3)]
		default:
			o.Op, o.V = "commit", 0
			slot += rng.Intn(12)
			o.X = slot
			if rng.Intn(12) == 0 {
				o.X = rng.Intn(45)
			}
		}
		h = append(h, o)
	}
	return
}

// provCmd replays the histories of -in and n random ones.
func provCmd(in, out, focus string, seed int64, n int) {
	var recs []*provRec
	if in != "" {
		readLines(in, func(b []byte) {
			r := &provRec{}
			must(json.Unmarshal(b, r))
			r.O = nil
			recs = append(recs, r)
		})
	}
	rng := rand.New(rand.NewSource(seed))
	if focus != "" { // sample of the given histories
		k, _ := strconv.Atoi(focus)
		rng.Shuffle(len(recs), func(i, j int) { recs[i], recs[j] = recs[j], recs[i] })
		if k < len(recs) {
			recs = recs[:k]
		}
	}
	for k := 0; k < n; k++ {
		recs = append(recs, &provRec{H: provRandom(rng, 3+rng.Intn(9))})
	}
	parallel(len(recs), func(k int) { recs[k].replay() })
	vs := make([]any, len(recs))
	for k := range recs {
		vs[k] = recs[k]
	}
	writeLines(out, vs)
}

func parallel(n int, f func(int)) {
	var wg sync.WaitGroup
	var next atomic.Int64
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				k := int(next.Add(1)) - 1
				if k >= n {
					return
				}
				f(k)
			}
		}()
	}
	wg.Wait()
}

// provConcCmd records concurrent histories for ProviderLin.tla.
func provConcCmd(_, out, _ string, seed int64, n int) {
	rng := rand.New(rand.NewSource(seed))
	var recs []any
	for k := 0; k < n; k++ {
		p := newProv()
		// version 3 is in force from the start, so that slot queries mean something
		pre := []*provOp{{Op: "params", V: 3}, {Op: "version", V: 3, X: 0}}
		var clock atomic.Int64
		run := func(o *provOp) {
			o.Inv = clock.Add(1)
			switch o.Op {
			case "latest":
				o.R, o.OK = provAPI(func() (iotago.API, error) { return p.LatestAPI(), nil }), 1
			case "committed":
				o.R, o.OK = provAPI(func() (iotago.API, error) { return p.CommittedAPI(), nil }), 1
			case "forslot":
				o.R, o.OK = provAPI(func() (iotago.API, error) { return p.APIForSlot(iotago.SlotIndex(o.X)), nil }), 1
			case "start":
				o.R, o.OK = -1, 1
				if e, ok := p.EpochForVersion(iotago.Version(o.V)); ok {
					o.R = int(e)
				}
			case "known":
				o.R, o.OK = len(p.ProtocolEpochVersions()), 1
			default:
				if provDo(p, o) {
					o.OK = 1
				}
			}
			o.Ret = clock.Add(1)
		}
		for _, o := range pre {
			run(o)
		}
		all := append([]*provOp{}, pre...)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for t := 0; t < 3; t++ {
			var mine []*provOp
			slot := 0
			for j := 0; j < 3; j++ {
				o := &provOp{V: 4 + rng.Intn(2), X: rng.Intn(4)}
				if t == 0 || (t == 1 && rng.Intn(2) == 0) {
					switch rng.Intn(4) {
					case 0:
						o.Op, o.X = "params", 0
					case 1:
						o.Op = "version"
					case 2:
						o.Op, o.H = "future", "P"
					default:
						o.Op, o.V = "commit", 0
						slot += rng.Intn(12)
						o.X = slot
					}
				} else {
					o.Op = []string{"latest", "committed", "forslot", "start", "known", "committed"}[rng.Intn(6)]
					if o.Op == "forslot" {
						o.X = []int{7, 15, 23, 31}[rng.Intn(4)]
					}
				}
				mine = append(mine, o)
			}
			all = append(all, mine...)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, o := range mine {
					run(o)
				}
			}()
		}
		close(start)
		wg.Wait()
		recs = append(recs, map[string]any{"h": all})
	}
	writeLines(out, recs)
}
