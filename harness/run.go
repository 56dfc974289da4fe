package main

import (
	"bytes"
	"fmt"
	"reflect"
	"slices"
	"strings"
	"time"

	"github.com/iotaledger/hive.go/serializer/v2/serix"

	iotago "github.com/iotaledger/iota.go/v4"
	nodeapi "github.com/iotaledger/iota.go/v4/api"
	"github.com/iotaledger/iota.go/v4/vm"
	"github.com/iotaledger/iota.go/v4/vm/nova"
)

// classify names the sentinel error behind err, for attribution only.
func classify(err error) string {
	if err == nil {
		return "ok"
	}
	for _, s := range sentinels {
		if errorsIs(err, s.err) {
			return s.name
		}
	}
	return "other"
}

func guard(f func() error) (err error, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
			panicked = true
		}
	}()
	return f(), false
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	s := err.Error()
	if len(s) > 400 {
		s = s[:400]
	}
	return strings.Map(func(r rune) rune {
		if r < 32 || r > 126 {
			return '?'
		}
		return r
	}, s)
}

// execute runs the real code on a record and fills in rec.Res.
func execute1(rec *Rec) {
	rec.normalize()
	b := newBinder(rec)
	b.rankAll()
	res := &Res{Syn: "none", Dec: "none", Vm: "none", Reason: -1, OSize: []int{}, OLen: []int{}, Score: []Num{}}
	rec.Res = res
	api := b.ps.API

	var st *iotago.SignedTransaction
	err, p := guard(func() (e error) { st, e = b.signed(); return })
	if p || err != nil {
		res.Syn, res.Err = "encode", errStr(err)
		if p {
			res.Panic = 1
		}
		return
	}

	// encoding with validation
	var enc []byte
	err, p = guard(func() (e error) { enc, e = api.Encode(st, serix.WithValidation()); return })
	res.Syn = classify(err)
	if p {
		res.Panic, res.Syn = 1, "panic"
	}
	if err != nil {
		res.Err = errStr(err)
	}
	// decoding the bytes with validation must give the same verdict
	var raw []byte
	err, p = guard(func() (e error) { raw, e = api.Encode(st); return })
	if p || err != nil {
		res.Dec = "encode"
		if p {
			res.Panic = 1
			res.Err += errStr(err)
		}
	} else {
		dec := &iotago.SignedTransaction{}
		err, p = guard(func() error {
			n, e := api.Decode(raw, dec, serix.WithValidation())
			if e == nil && n != len(raw) {
				return fmt.Errorf("decoded %d of %d bytes", n, len(raw))
			}
			return e
		})
		res.Dec = classify(err)
		if p {
			res.Panic, res.Dec = 1, "panic"
			res.Err += errStr(err)
		}
		if err == nil {
			re, e2 := api.Encode(dec)
			if e2 == nil && bytes.Equal(re, raw) && (enc == nil || bytes.Equal(enc, raw)) && sameTx(dec, st) {
				res.RT = 1
			}
		} else if res.Err == "" {
			res.Err = errStr(err)
		}
		res.Len = len(raw)
	}
	_, p = guard(func() error {
		res.Size = st.Size()
		for _, o := range st.Transaction.Outputs {
			ob, e := api.Encode(o)
			if e != nil {
				return e
			}
			res.OLen = append(res.OLen, len(ob))
			res.OSize = append(res.OSize, o.Size())
			res.Score = append(res.Score, N(uint64(o.StorageScore(api.StorageScoreStructure(), nil))))
		}
		w, e := st.WorkScore(b.ps.Params.WorkScoreParameters())
		if e == nil {
			res.Work = N(uint64(w))
		}
		return nil
	})
	if p {
		res.Panic = 1
	}
	if res.Syn != "ok" {
		return
	}
	// ledger rules
	var ri vm.ResolvedInputs
	err, p = guard(func() error { ri = b.resolved(); return nil })
	if p {
		res.Syn, res.Err, res.Panic = "encode", errStr(err), 1
		return
	}
	run := func() error {
		v := nova.NewVirtualMachine()
		unlocked, e := v.ValidateUnlocks(st, ri)
		if e != nil {
			return e
		}
		outs, e := v.Execute(st.Transaction, ri, unlocked)
		if e != nil {
			return e
		}
		if len(outs) != len(st.Transaction.Outputs) {
			return fmt.Errorf("executed transaction returns %d outputs", len(outs))
		}
		for i := range outs {
			if outs[i] != iotago.Output(st.Transaction.Outputs[i]) {
				return fmt.Errorf("executed transaction returns another output %d", i)
			}
		}
		return nil
	}
	print := func() (b []byte) {
		ids := make([]iotago.OutputID, 0, len(ri.InputSet))
		for id := range ri.InputSet {
			ids = append(ids, id)
		}
		slices.SortFunc(ids, func(a, b iotago.OutputID) int { return bytes.Compare(a[:], b[:]) })
		for _, id := range ids {
			raw, e := api.Encode(ri.InputSet[id])
			b = append(append(append(b, id[:]...), raw...), fmt.Sprint(e)...)
		}
		return append(b, fmt.Sprint(ri.CommitmentInput, ri.BlockIssuanceCreditInputSet, ri.RewardsInputSet)...)
	}
	before := print()
	err, p = guard(run)
	res.Vm = classify(err)
	if p {
		res.Panic, res.Vm = 1, "panic"
	}
	if err != nil {
		res.Err = errStr(err)
		if !p {
			res.Reason = int(nodeapi.DetermineTransactionFailureReason(err))
		}
	}
	// the verdict must not depend on the order of a map, nor validation alter what it validates
	for k := 0; k < 2 && !p; k++ {
		err2, p2 := guard(run)
		if p2 || (err2 == nil) != (err == nil) {
			res.Nondet = 1
			res.Err += " / again: " + errStr(err2)
		}
	}
	if after, e := api.Encode(st); e != nil || !bytes.Equal(after, raw) || !bytes.Equal(before, print()) {
		res.Mut = 1
	}
}

// execute runs a record with a time limit: validation must end in a verdict.
func execute(rec *Rec) {
	done := make(chan *Res, 1)
	cp := clone(*rec)
	go func() {
		execute1(&cp)
		done <- cp.Res
	}()
	select {
	case <-done:
		*rec = cp
	case <-time.After(30 * time.Second):
		rec.Res = &Res{Syn: "hang", Dec: "hang", Vm: "hang", Panic: 1, Err: "no verdict within 30 s", OSize: []int{}, OLen: []int{}, Score: []Num{}}
	}
}

// sameTx compares decoded and original transactions structurally.
func sameTx(a, b *iotago.SignedTransaction) bool {
	ida, e1 := a.ID()
	idb, e2 := b.ID()
	ta, e3 := a.Transaction.ID()
	tb, e4 := b.Transaction.ID()
	if e1 != nil || e2 != nil || e3 != nil || e4 != nil || ida != idb || ta != tb {
		return false
	}
	if len(a.Transaction.Outputs) != len(b.Transaction.Outputs) {
		return false
	}
	for i := range a.Transaction.Outputs {
		if !a.Transaction.Outputs[i].Equal(b.Transaction.Outputs[i]) {
			return false
		}
	}
	return reflect.DeepEqual(a.Unlocks, b.Unlocks)
}
