package main

import (
	"bytes"
	"context"
	"crypto"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash"
	"math"
	"math/bits"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/crypto/blake2b"

	"github.com/iotaledger/iota.go/v4/blockissuer/pow"
)

// Runs of the miner, for PowConform.tla.

func init() { commands["pow"] = powCmd }

type powRec struct {
	Op        string   `json:"op"`
	Workers   int      `json:"workers"`
	Target    int      `json:"target"`
	Plan      string   `json:"plan"`
	Cancelled int      `json:"cancelled"`
	Res       string   `json:"res"`
	Tail      []int    `json:"tail"`
	Left      int      `json:"left"`
	Changed   int      `json:"changed"`
	Together  int      `json:"together"`
	Outcomes  []string `json:"outcomes"`
	Err       string   `json:"err"`
}

// last eight bytes of the hash of a digest and a nonce
func powTail(digest []byte, nonce uint64) []byte {
	h := blake2b.Sum256(binary.LittleEndian.AppendUint64(append([]byte{}, digest...), nonce))
	return h[24:]
}

func powZeros(digest []byte, nonce uint64) int {
	return bits.TrailingZeros64(binary.LittleEndian.Uint64(powTail(digest, nonce)))
}

type powJob struct {
	workers  int
	target   int
	plan     string
	delay    time.Duration
	data     []byte
	outcomes []string
}

// The miner takes its hash function from the registry: the one registered here lets the
// workers of a miner wait for each other in their first evaluations, which is the schedule
// in which all of them are past looking whether another has found something.
type powBarrier struct {
	mutex sync.Mutex
	left  int
	met   chan struct{}
}

func (b *powBarrier) wait() {
	b.mutex.Lock()
	b.left--
	if b.left == 0 {
		close(b.met)
	}
	b.mutex.Unlock()
	select {
	case <-b.met:
	case <-time.After(100 * time.Millisecond):
	}
}

var powGate atomic.Pointer[powBarrier]

type powHash struct {
	hash.Hash
	n int
}

func (h *powHash) Write(p []byte) (int, error) {
	h.n += len(p)
	return h.Hash.Write(p)
}

func (h *powHash) Sum(b []byte) []byte {
	out := h.Hash.Sum(b)
	if g := powGate.Load(); g != nil && h.n == 40 {
		select {
		case <-g.met:
		default:
			g.wait()
		}
	}
	return out
}

const powPatience = 30 * time.Second

// runs the jobs at the same time on one miner
func powRun(w *pow.Worker, gated bool, jobs []powJob) (out []*powRec, hang bool) {
	base := runtime.NumGoroutine()
	if gated && len(jobs) == 1 {
		powGate.Store(&powBarrier{left: jobs[0].workers, met: make(chan struct{})})
		defer powGate.Store(nil)
	}
	recs := make([]*powRec, len(jobs))
	var wg sync.WaitGroup
	for i, j := range jobs {
		rec := &powRec{Op: "mine", Workers: j.workers, Target: j.target, Plan: j.plan, Tail: []int{}, Together: len(jobs), Outcomes: j.outcomes}
		if rec.Outcomes == nil {
			rec.Outcomes = []string{}
		}
		recs[i] = rec
		ctx, cancel := context.WithCancel(context.Background())
		if j.plan == "before" {
			cancel()
			rec.Cancelled = 1
		}
		keep := append([]byte{}, j.data...)
		type answer struct {
			nonce uint64
			err   error
			p     bool
		}
		ch := make(chan answer, 1)
		go func() {
			var a answer
			a.err, a.p = guard(func() (e error) { a.nonce, e = w.Mine(ctx, j.data, j.target); return })
			ch <- a
		}()
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer cancel()
			var timer <-chan time.Time
			if j.plan == "during" {
				timer = time.After(j.delay)
			}
			limit := time.After(powPatience)
			for {
				select {
				case a := <-ch:
					switch {
					case a.p:
						rec.Res = "panic"
					case a.err != nil:
						rec.Res, rec.Err = "error", a.err.Error()
					default:
						rec.Res = "nonce"
						d := blake2b.Sum256(keep)
						rec.Tail = bts(powTail(d[:], a.nonce))
					}
					rec.Changed = flag01(!bytes.Equal(keep, j.data))
					return
				case <-timer:
					rec.Cancelled = 1
					cancel()
					timer = nil
				case <-limit:
					rec.Res = "hang"
					return
				}
			}
		}()
	}
	wg.Wait()
	for _, r := range recs {
		hang = hang || r.Res == "hang"
	}
	if !hang {
		for t := time.Now(); runtime.NumGoroutine() > base && time.Since(t) < powPatience/3; {
			time.Sleep(50 * time.Microsecond)
		}
		recs[0].Left = maxi(0, runtime.NumGoroutine()-base)
	}
	return recs, hang
}

// data whose first satisfying nonce, for each worker, is at the given place; -1: not soon
func powData(g *rand.Rand, workers, target int, first []int) []byte {
	width := uint64(math.MaxUint64) / uint64(workers)
	for {
		data := randBytes(g, 1+g.Intn(80))
		d := blake2b.Sum256(data)
		ok := true
		for w := 0; w < workers && ok; w++ {
			n := first[w]
			if n < 0 {
				n = 40
			}
			for k := 0; k < n && ok; k++ {
				ok = powZeros(d[:], uint64(w)*width+uint64(k)) < target
			}
			if first[w] >= 0 {
				ok = ok && powZeros(d[:], uint64(w)*width+uint64(n)) >= target
			}
		}
		if ok {
			return data
		}
	}
}

func powCmd(in, out, _ string, seed int64, n int) {
	g := rand.New(rand.NewSource(seed))
	var all []any
	stop := false
	crypto.RegisterHash(crypto.BLAKE2b_256, func() hash.Hash {
		h, err := blake2b.New256(nil)
		must(err)
		return &powHash{Hash: h}
	})
	gated := false
	run := func(w *pow.Worker, js ...powJob) {
		if stop {
			return
		}
		recs, hang := powRun(w, gated, js)
		stop = hang
		for _, r := range recs {
			all = append(all, r)
		}
	}
	delay := func() time.Duration {
		return []time.Duration{0, time.Microsecond, 10 * time.Microsecond, 100 * time.Microsecond, time.Millisecond, 5 * time.Millisecond}[g.Intn(6)]
	}
	if in != "" {
		type situation struct {
			First    []int  `json:"first"`
			Possible int    `json:"possible"`
			Plan     string `json:"plan"`
			Outcome  string `json:"outcome"`
		}
		seen := map[string]*situation{}
		outs := map[string][]string{}
		var keys []string
		readLines(in, func(b []byte) {
			c := &situation{}
			must(json.Unmarshal(b, c))
			k := fmt.Sprint(c.First, c.Possible, c.Plan)
			if seen[k] == nil {
				keys = append(keys, k)
			}
			seen[k] = c
			outs[k] = append(outs[k], c.Outcome)
		})
		sort.Strings(keys)
		for _, k := range keys {
			c := seen[k]
			sort.Strings(outs[k])
			for t := 0; t < 4; t++ {
				j := powJob{workers: len(c.First), plan: c.Plan, outcomes: outs[k], delay: delay(), target: 3 + g.Intn(3)}
				hits := false
				for _, f := range c.First {
					hits = hits || f >= 0
				}
				if hits {
					j.data = powData(g, j.workers, j.target, c.First)
				} else {
					j.data, j.target = randBytes(g, g.Intn(80)), 50+g.Intn(15)
				}
				if c.Possible == 0 {
					j.target = 65 + g.Intn(100)
				}
				gated = t%2 == 1
				run(pow.New(j.workers), j)
			}
		}
	}
	for i := 0; i < n && !stop; i++ {
		procs := runtime.GOMAXPROCS(1 + g.Intn(8))
		workers := []int{1, 2, 3, 5, 8, 9, 16, 33, 64}[g.Intn(9)]
		arg := []int{workers}
		if g.Intn(10) == 0 {
			workers = 1
			arg = [][]int{{}, {0}, {-4}}[g.Intn(3)]
		}
		w := pow.New(arg...)
		var js []powJob
		for k := []int{1, 1, 1, 2, 4}[g.Intn(5)]; k > 0; k-- {
			j := powJob{workers: workers, plan: []string{"never", "never", "never", "during", "before"}[g.Intn(5)], delay: delay(), data: randBytes(g, g.Intn(200)),
				target: []int{0, 1, 2, 4, 6, 8, 9, 10, 11, -1}[g.Intn(10)]}
			switch g.Intn(8) {
			case 0:
				j.target = 65 + g.Intn(2)*g.Intn(1000)
			case 1:
				j.target = 41 + g.Intn(24)
				if j.plan == "never" {
					j.plan = "during"
				}
			}
			js = append(js, j)
		}
		if len(js) > 1 && g.Intn(2) == 0 { // the same data
			for k := range js {
				js[k].data = js[0].data
			}
		}
		gated = g.Intn(3) == 0
		if gated && g.Intn(2) == 0 {
			js[0].target = g.Intn(2)
		}
		run(w, js...)
		runtime.GOMAXPROCS(procs)
		for k := 0; k < 4; k++ {
			msg, nonce := randBytes(g, g.Intn(70)), g.Uint64()
			if g.Intn(3) == 0 {
				nonce = uint64(g.Intn(300))
			}
			got := -1
			_, _ = guard(func() error { got = pow.TrailingZeros(msg, nonce); return nil })
			all = append(all, map[string]any{"op": "zeros", "got": got, "tail": bts(powTail(msg, nonce))})
		}
	}
	writeLines(out, all)
}
