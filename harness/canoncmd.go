package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"runtime/debug"
	"time"

	"github.com/iotaledger/hive.go/serializer/v2/serix"

	iotago "github.com/iotaledger/iota.go/v4"
)

// Byte strings near encodings of valid objects, for CanonConform.tla.

type canonRec struct {
	Kind  string `json:"kind"`
	Mut   string `json:"mut"`
	Len   int    `json:"len"`
	N     int    `json:"n"`
	OK    int    `json:"ok"`
	Panic int    `json:"panic"`
	Re    int    `json:"re"`    // encodes to the bytes consumed
	Size  int    `json:"size"`  // reported size, -1 if the object has none
	Same  int    `json:"same"`  // the mutation is the original
	ID    int    `json:"id"`    // identifier is that of the original
	JSON  int    `json:"json"`  // JSON round trip gives the same bytes
	Late  int    `json:"late"`  // the issuing time is beyond 2^63-1 ns
	Over  int    `json:"over"`  // more bytes consumed than given
	Bytes string `json:"bytes"` // hex, kept on disagreement
}

// blankOf returns a pointer to a zero object of the type of o.
func blankOf(o any) any { return reflect.New(reflect.TypeOf(o).Elem()).Interface() }

func canonID(o any) string {
	switch x := o.(type) {
	case *iotago.SignedTransaction:
		return x.MustID().ToHex() + x.Transaction.MustID().ToHex()
	case *iotago.Block:
		return x.MustID().ToHex()
	case *iotago.Attestation:
		id, err := x.BlockID()
		must(err)
		return id.ToHex()
	case *iotago.Commitment:
		return x.MustID().ToHex()
	}
	return ""
}

func canonSize(o any) int {
	switch x := o.(type) {
	case *iotago.SignedTransaction:
		return x.Size()
	case *iotago.Block:
		return x.Size()
	case iotago.Output:
		return x.Size()
	}
	return -1
}

func canonDecode(api iotago.API, like any, b []byte) (o any, n int, err error) {
	o = blankOf(like)
	n, err = api.Decode(b, o, serix.WithValidation())
	return
}

func mutateBytes(g *rand.Rand, b []byte) (out []byte, what string) {
	out = append([]byte{}, b...)
	for k := 1 + g.Intn(2)*g.Intn(2); k > 0; k-- {
		if len(out) == 0 {
			break
		}
		i := g.Intn(len(out))
		switch g.Intn(11) {
		case 0:
			what = "bit"
			out[i] ^= 1 << uint(g.Intn(8))
		case 1:
			what = "byte"
			out[i] = byte(g.Intn(256))
		case 2:
			what = "increment"
			out[i]++
		case 3:
			what = "decrement"
			out[i]--
		case 4:
			what = "insert"
			out = append(out[:i:i], append([]byte{byte(g.Intn(3))}, out[i:]...)...)
		case 5:
			what = "delete"
			out = append(out[:i:i], out[i+1:]...)
		case 6:
			what = "truncate"
			out = out[:i]
		case 7:
			what = "append"
			out = append(out, byte(g.Intn(3)))
		case 8:
			what = "swap"
			n := 1 + g.Intn(80)
			j := i + n + g.Intn(8)*g.Intn(2)
			if j+n <= len(out) {
				tmp := append([]byte{}, out[i:i+n]...)
				copy(out[i:], out[j:j+n])
				copy(out[j:], tmp)
			}
		case 9:
			what = "duplicate" // with a count in front of it
			n := 1 + g.Intn(80)
			if i > 0 && i+n <= len(out) {
				out[i-1]++
				out = append(out[:i+n:i+n], out[i:]...)
			}
		case 10:
			what = "zero"
			for e := i + 1 + g.Intn(40); i < e && i < len(out); i++ {
				out[i] = 0
			}
		}
	}
	return
}

// hugeData tells whether a tagged data payload starting near one of the given
// offsets announces more than 1 MB of data.  The deserializer of hive.go (a
// dependency) allocates what the length prefix announces, up to 4 GB, before it
// looks at how much there is; such inputs are left out.
func hugeData(b []byte, at []int) bool {
	for _, a := range at {
		for d := -3; d <= 3; d++ {
			i := a + d
			if i < 0 || i+2 > len(b) {
				continue
			}
			j := i + 2 + int(b[i+1])
			if j+4 <= len(b) && (b[j+3] != 0 || b[j+2] > 15) {
				return true
			}
		}
	}
	return false
}

func payloadOffsets(api iotago.API, o any, raw []byte) (at []int) {
	add := func(p any) {
		if pb, err := api.Encode(p); err == nil {
			if i := bytes.Index(raw, pb); i >= 0 {
				at = append(at, i)
			}
		}
	}
	tx := func(st *iotago.SignedTransaction) {
		if p := st.Transaction.Payload; p != nil {
			add(p)
		}
	}
	switch x := o.(type) {
	case *iotago.SignedTransaction:
		tx(x)
	case *iotago.Block:
		if b, ok := x.Body.(*iotago.BasicBlockBody); ok && b.Payload != nil {
			add(b.Payload)
			if st, ok := b.Payload.(*iotago.SignedTransaction); ok {
				tx(st)
			}
		}
	}
	return
}

// reorder swaps two neighbours in some lists of an object.
func reorder(g *rand.Rand, v reflect.Value, depth int) (n int) {
	if depth > 12 {
		return 0
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			return reorder(g, v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() && v.Type().Field(i).Name != "API" {
				n += reorder(g, v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return 0
		}
		if l := v.Len(); l > 1 && v.CanInterface() && v.Index(0).CanSet() && g.Intn(3) == 0 {
			i := g.Intn(l - 1)
			reflect.Swapper(v.Interface())(i, i+1)
			return 1
		}
		for i := 0; i < v.Len(); i++ {
			n += reorder(g, v.Index(i), depth+1)
		}
	}
	return
}

// swapEntries exchanges two entries of a metadata feature in the encoding.
func swapEntries(g *rand.Rand, o any, raw []byte) []byte {
	var outs []iotago.Output
	switch x := o.(type) {
	case *iotago.SignedTransaction:
		for _, u := range x.Transaction.Outputs {
			outs = append(outs, u)
		}
	case iotago.Output:
		outs = append(outs, x)
	}
	for _, u := range outs {
		m := u.FeatureSet().Metadata()
		if m == nil || len(m.Entries) < 2 {
			continue
		}
		var es [][]byte
		for k, v := range m.Entries {
			e := append([]byte{byte(len(k))}, k...)
			es = append(es, append(append(e, byte(len(v)), byte(len(v)>>8)), v...))
		}
		i, j := 0, 1+g.Intn(len(es)-1)
		for _, p := range [][2][]byte{{es[i], es[j]}, {es[j], es[i]}} {
			if w := append(append([]byte{}, p[0]...), p[1]...); bytes.Contains(raw, w) {
				return bytes.Replace(append([]byte{}, raw...), w, append(append([]byte{}, p[1]...), p[0]...), 1)
			}
		}
	}
	return nil
}

func init() { commands["canon"] = canonCmd }

func canonCmd(_, out, _ string, seed int64, n int) {
	debug.SetMemoryLimit(4 << 30)
	g := rand.New(rand.NewSource(seed))
	type obj struct {
		kind string
		api  iotago.API
		o    any
	}
	var objs []obj
	nt := maxi(20, n/150)
	var txs []*Rec
	for _, f := range []string{"S05", "V06", "V08", "V02", "V10", "V04"} {
		txs = append(txs, generate(f, seed, nt)...)
	}
	for _, r := range txs {
		r.normalize()
		b := newBinder(r)
		_, _ = guard(func() error {
			b.rankAll()
			st, err := b.signed()
			if err != nil {
				return err
			}
			objs = append(objs, obj{"tx", b.ps.API, st})
			for _, o := range st.Transaction.Outputs {
				if g.Intn(3) == 0 {
					objs = append(objs, obj{"output", b.ps.API, o})
				}
			}
			return nil
		})
	}
	for k := 0; k < nt*3; k++ {
		r := randomBlock(g)
		if late := psets[r.P].API.TimeProvider().SlotFromTime(time.Unix(0, math.MaxInt64)); k%10 == 0 {
			// issued at the last representable time
			r.T = N(math.MaxInt64)
			r.PK, r.Commit = "none", N(uint64(late-psets[r.P].Params.MinCommittableAge()))
		}
		_, _ = guard(func() error {
			b := r.build()
			a := iotago.NewAttestation(b.API, b)
			objs = append(objs, obj{"block", b.API, b}, obj{"attestation", b.API, a})
			return nil
		})
		if k%4 == 0 {
			ps := psets[r.P]
			objs = append(objs, obj{"commitment", ps.API, &iotago.Commitment{ProtocolVersion: ps.Params.Version(), Slot: iotago.SlotIndex(g.Uint32()), PreviousCommitmentID: commitmentID(g.Uint32()),
				RootsID: iotago.Identifier(hash32([]byte(fmt.Sprint(k)))), CumulativeWeight: g.Uint64(), ReferenceManaCost: iotago.Mana(g.Uint64() >> uint(g.Intn(64)))}})
		}
	}
	g.Shuffle(len(objs), func(i, j int) { objs[i], objs[j] = objs[j], objs[i] })
	per := maxi(2, n/len(objs))
	seeds := make([]int64, len(objs))
	for i := range seeds {
		seeds[i] = g.Int63()
	}
	res := make([][]any, len(objs))
	gate := make(chan struct{}, 2) // see hugeData
	parallel(len(objs), func(k int) {
		x := objs[k]
		g := rand.New(rand.NewSource(seeds[k]))
		var raw []byte
		err, p := guard(func() (e error) {
			raw, e = x.api.Encode(x.o, serix.WithValidation())
			return
		})
		if err != nil || p {
			return
		}
		origID := ""
		_, _ = guard(func() error { origID = canonID(x.o); return nil })
		var at []int
		_, _ = guard(func() error { at = payloadOffsets(x.api, x.o, raw); return nil })
		for j := 0; j < per; j++ {
			b, what := raw, "original"
			if j > 0 {
				switch g.Intn(8) {
				case 0:
					o2 := blankOf(x.o)
					e2, p2 := guard(func() (e error) {
						if _, e = x.api.Decode(raw, o2); e == nil && reorder(g, reflect.ValueOf(o2), 0) > 0 {
							b, e = x.api.Encode(o2)
						}
						return
					})
					if what = "reorder"; e2 != nil || p2 {
						continue
					}
				case 2:
					b, what = mutateBytes(g, raw)
					if x.kind == "block" || x.kind == "attestation" {
						what, b = "late", append([]byte{}, raw...)
						b[16] |= 0x80
					}
				case 1:
					b, what = nil, "entries"
					_, _ = guard(func() error { b = swapEntries(g, x.o, raw); return nil })
					if b == nil {
						b, what = mutateBytes(g, raw)
					}
				default:
					b, what = mutateBytes(g, raw)
				}
				if hugeData(b, at) {
					continue
				}
			}
			r := &canonRec{Kind: x.kind, Mut: what, Len: len(b), Size: -1, Same: flag01(bytes.Equal(b, raw))}
			var o any
			gate <- struct{}{}
			err, p := guard(func() (e error) { o, r.N, e = canonDecode(x.api, x.o, b); return })
			<-gate
			if p {
				r.Panic = 1
			}
			if (x.kind == "block" || x.kind == "attestation") && len(b) > 16 {
				r.Late = int(b[16] >> 7)
			}
			r.Over = flag01(err == nil && (r.N < 0 || r.N > len(b)))
			if err == nil && r.Over == 0 {
				r.OK = 1
				_, p := guard(func() error {
					var re []byte
					var e error
					re, e = x.api.Encode(o, serix.WithValidation())
					r.Re = flag01(e == nil && bytes.Equal(re, b[:r.N]))
					r.Size = canonSize(o)
					r.ID = flag01(x.kind != "output" && canonID(o) == origID)
					js, e := x.api.JSONEncode(o)
					if e != nil {
						return e
					}
					q := blankOf(x.o)
					if e = x.api.JSONDecode(js, q, serix.WithValidation()); e != nil {
						return e
					}
					re, e = x.api.Encode(q)
					r.JSON = flag01(e == nil && bytes.Equal(re, b[:r.N]))
					return e
				})
				if p {
					r.Panic = 1
				}
			}
			if r.Panic == 1 || r.Over == 1 || r.OK == 1 && (r.Re == 0 || r.JSON == 0) {
				r.Bytes = fmt.Sprintf("%x", b)
			}
			res[k] = append(res[k], r)
		}
	})
	var all []any
	for _, r := range res {
		all = append(all, r...)
	}
	writeLines(out, all)
}
