package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"

	"github.com/iotaledger/hive.go/ierrors"
	nodeapi "github.com/iotaledger/iota.go/v4/api"
)

// Reasons of failed transactions and states of blocks and transactions, for ReasonsConform.tla.

func init() { commands["reasons"] = reasonsCmd }

type reasonTree struct {
	O string       `json:"o"`
	E string       `json:"e"`
	S []reasonTree `json:"s"`
}

type reasonRec struct {
	K     string     `json:"k"`
	T     reasonTree `json:"t"`
	Kind  string     `json:"kind"`
	V     int        `json:"v"`
	X     string     `json:"x"`
	Got   int        `json:"got"`
	Again int        `json:"again"`
	Bytes []int      `json:"bytes"`
	Back  int        `json:"back"`
	Used  int        `json:"used"`
	Long  int        `json:"long"`
	Short int        `json:"short"`
	Str   string     `json:"str"`
	JSON  string     `json:"json"`
	JBack int        `json:"jback"`
	Odd   int        `json:"odd"`
}

type errList struct{ es []error }

func (e *errList) Error() string   { return "several" }
func (e *errList) Unwrap() []error { return e.es }

type errNode struct{ e error }

func (e errNode) Error() string { return "node" }
func (e errNode) Unwrap() error { return e.e }

// errNone wraps nothing although it could.
type errNone struct{ text string }

func (e *errNone) Error() string { return e.text }
func (e *errNone) Unwrap() error { return nil }

var errOther = errors.New("other")

func (t reasonTree) build() error {
	if t.O == "leaf" {
		if t.E == "nil" {
			return nil
		}
		for _, s := range sentinels {
			if s.name == t.E {
				return s.err
			}
		}
		if t.E != "other" {
			panic("no error " + t.E)
		}
		return errOther
	}
	s := []error{}
	for _, c := range t.S {
		s = append(s, c.build())
	}
	switch t.O {
	case "wrap":
		return ierrors.Wrap(s[0], "context")
	case "text":
		return ierrors.WithMessagef(s[0], "no %s %d", "more", 1)
	case "chain":
		return ierrors.Chain(s...)
	case "join":
		return ierrors.Join(s...)
	case "with":
		return ierrors.WithMessagef(s[0], "because %d: %w", 7, s[1])
	case "wrapf":
		// the message comes first
		return ierrors.Wrapf(s[1], "%w here", s[0])
	case "list":
		return &errList{s}
	case "custom":
		return errNode{s[0]}
	case "none":
		return &errList{[]error{&errNone{"none"}, s[0], &errNone{"none"}}}
	default:
		panic("kind " + t.O)
	}
}

func bytesOf(b []byte, err error) []int {
	if err != nil {
		return []int{-1}
	}
	out := []int{}
	for _, x := range b {
		out = append(out, int(x))
	}
	return out
}

func (r *reasonRec) run() {
	r.Bytes = []int{}
	if r.T.S == nil {
		r.T.S = []reasonTree{}
	}
	switch r.K {
	case "err":
		e := r.T.build()
		r.Got = int(nodeapi.DetermineTransactionFailureReason(e))
		r.Again = int(nodeapi.DetermineTransactionFailureReason(e))
	case "value":
		name := func(s fmt.Stringer, x any, err error) {
			r.Str = fmt.Sprint(s)
			r.JSON = "error"
			if err == nil {
				r.JSON, _ = x.(string)
			}
		}
		flag := func(err error) int {
			if err == nil {
				return 1
			}
			return 0
		}
		r.JBack = -1
		one, more := []byte{byte(r.V)}, []byte{byte(r.V), byte(r.V + 1), 3}
		switch r.Kind {
		case "block":
			s := nodeapi.BlockState(r.V)
			r.Bytes = bytesOf(s.Bytes())
			r.Back, r.Used, r.Long = r.V, 1, r.V // there is no decoder
			if j, err := s.EncodeJSON(); true {
				name(s, j, err)
				var q nodeapi.BlockState = 77
				if q.DecodeJSON(j) == nil {
					r.JBack = int(q)
				}
			}
		case "tx":
			s := nodeapi.TransactionState(r.V)
			r.Bytes = bytesOf(s.Bytes())
			q, n, err := nodeapi.TransactionStateFromBytes(one)
			r.Back, r.Used = int(q), n+2*(1-flag(err))
			l, _, _ := nodeapi.TransactionStateFromBytes(more)
			r.Long = int(l)
			_, _, err = nodeapi.TransactionStateFromBytes(nil)
			r.Short = flag(err)
			if j, err := s.EncodeJSON(); true {
				name(s, j, err)
				var q nodeapi.TransactionState = 77
				if q.DecodeJSON(j) == nil {
					r.JBack = int(q)
				}
			}
		case "reason":
			s := nodeapi.TransactionFailureReason(r.V)
			r.Bytes = bytesOf(s.Bytes())
			q, n, err := nodeapi.TransactionFailureReasonFromBytes(one)
			r.Back, r.Used = int(q), n+2*(1-flag(err))
			l, _, _ := nodeapi.TransactionFailureReasonFromBytes(more)
			r.Long = int(l)
			_, _, err = nodeapi.TransactionFailureReasonFromBytes([]byte{})
			r.Short = flag(err)
		}
	case "text":
		r.Got = -1
		var dec func(any) (int, error)
		if r.Kind == "block" {
			dec = func(x any) (int, error) { var q nodeapi.BlockState; err := q.DecodeJSON(x); return int(q), err }
		} else {
			dec = func(x any) (int, error) { var q nodeapi.TransactionState; err := q.DecodeJSON(x); return int(q), err }
		}
		if v, err := dec(r.X); err == nil {
			r.Got = v
		}
		for _, x := range []any{nil, 1.0, true, []any{r.X}, map[string]any{r.X: r.X}, []byte(r.X)} {
			if _, err := dec(x); err == nil {
				r.Odd = 1
			}
		}
	}
}

func randTree(r *rand.Rand, depth int) reasonTree {
	if depth == 0 || r.Intn(5) == 0 {
		e := "other"
		if r.Intn(3) > 0 {
			for {
				e = sentinels[r.Intn(len(sentinels))].name
				if sentinelIsReason(e) {
					break
				}
			}
		}
		return reasonTree{"leaf", e, []reasonTree{}}
	}
	ops := []struct {
		o string
		n int
	}{{"wrap", 1}, {"text", 1}, {"chain", 2}, {"chain", 3}, {"join", 2}, {"join", 4}, {"with", 2}, {"wrapf", 2}, {"list", 3}, {"custom", 1}, {"none", 1}}
	o := ops[r.Intn(len(ops))]
	t := reasonTree{O: o.o}
	for range o.n {
		t.S = append(t.S, randTree(r, depth-1))
	}
	return t
}

// sentinelIsReason tells whether the bare error has a reason of its own.
func sentinelIsReason(name string) bool {
	return nodeapi.DetermineTransactionFailureReason(ierrors.Wrap(reasonTree{O: "leaf", E: name}.build(), "x")) != 255
}

func reasonsCmd(in, out, focus string, seed int64, n int) {
	recs := []any{}
	if in != "" {
		readLines(in, func(b []byte) {
			r := &reasonRec{}
			must(json.Unmarshal(b, r))
			recs = append(recs, r)
		})
	}
	r := rand.New(rand.NewSource(seed))
	for range n {
		recs = append(recs, &reasonRec{K: "err", T: randTree(r, 1+r.Intn(6))})
	}
	parallel(len(recs), func(k int) { recs[k].(*reasonRec).run() })
	writeLines(out, recs)
}
