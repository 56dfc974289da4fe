package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
)

// Messages of the node API in bytes and JSON, for MessagesConform.tla.

func init() { commands["msgs"] = msgCmd }

var msgTypes = map[string]reflect.Type{}

func msgReg(xs ...any) {
	for _, x := range xs {
		msgTypes[reflect.TypeOf(x).Name()] = reflect.TypeOf(x)
	}
}

func init() {
	msgReg(api.InfoResponse{}, api.InfoResProtocolParameters{}, api.InfoResNodeStatus{}, api.InfoResBaseToken{}, api.NetworkHealthResponse{}, api.NetworkMetricsResponse{},
		api.IssuanceBlockHeaderResponse{}, api.BlockCreatedResponse{}, api.BlockMetadataResponse{}, api.BlockWithMetadataResponse{}, api.TransactionMetadataResponse{},
		api.OutputResponse{}, api.OutputWithID{}, api.OutputInclusionMetadata{}, api.OutputConsumptionMetadata{}, api.OutputMetadata{}, api.OutputWithMetadataResponse{},
		api.UTXOChangesResponse{}, api.UTXOChangesFullResponse{}, api.CongestionResponse{}, api.ValidatorResponse{}, api.ValidatorsResponse{}, api.ManaRewardsResponse{},
		api.CommitteeMemberResponse{}, api.CommitteeResponse{}, api.BlockIssuerInfo{}, api.AddPeerRequest{}, api.PeerInfo{}, api.PeerGossipMetrics{}, api.PeersResponse{},
		api.PruneDatabaseRequest{}, api.PruneDatabaseResponse{}, api.HealthResponse{}, api.RoutesResponse{}, api.IndexerResponse{})
}

// msgPool holds objects specified elsewhere, by type.
var msgPool struct {
	once    sync.Once
	blocks  []*iotago.Block
	outputs []iotago.TxEssenceOutput
	proofs  []*iotago.OutputIDProof
	commits []*iotago.Commitment
	params  []iotago.ProtocolParameters
}

func msgPoolInit() {
	msgPool.once.Do(func() {
		p := &msgPool
		g := rand.New(rand.NewSource(77))
		for k := 0; k < 12; k++ {
			p.outputs = append(p.outputs, merkleOutput(k))
		}
		a := psets[0].API
		for n := 1; n <= 6; n++ {
			tx := &iotago.Transaction{API: a, TransactionEssence: &iotago.TransactionEssence{
				NetworkID: a.ProtocolParameters().NetworkID(), CreationSlot: iotago.SlotIndex(n), ContextInputs: iotago.TxEssenceContextInputs{},
				Inputs: iotago.TxEssenceInputs{&iotago.UTXOInput{TransactionID: iotago.TransactionIDRepresentingData(3, []byte{byte(n)})}}, Allotments: iotago.Allotments{}}}
			for k := 0; k < n; k++ {
				tx.Outputs = append(tx.Outputs, merkleOutput(k+n))
			}
			for k := 0; k < n; k++ {
				pr, err := iotago.OutputIDProofFromTransaction(tx, uint16(k))
				must(err)
				p.proofs = append(p.proofs, pr)
			}
		}
		for k := 0; k < 8; k++ {
			c := iotago.NewCommitment(a.ProtocolParameters().Version(), iotago.SlotIndex(g.Uint32()>>uint(g.Intn(32))), iotago.CommitmentID{byte(k)}, iotago.Identifier{1, byte(k)}, g.Uint64()>>uint(g.Intn(64)), iotago.Mana(g.Uint64()>>uint(g.Intn(64))))
			p.commits = append(p.commits, c)
		}
		for len(p.blocks) < 12 {
			r := randomBlock(g)
			var b *iotago.Block
			if err, _ := guard(func() error {
				b = r.build()
				raw, err := cAPI().Encode(b, serix.WithValidation())
				if err != nil {
					return err
				}
				back := &iotago.Block{}
				_, err = cAPI().Decode(raw, back, serix.WithValidation())
				return err
			}); err == nil && b.API == cAPI() {
				p.blocks = append(p.blocks, b)
			}
		}
		for _, ps := range psets {
			p.params = append(p.params, ps.API.ProtocolParameters())
		}
	})
}

func msgRaw(t reflect.Type, k int) reflect.Value {
	p := &msgPool
	switch t {
	case reflect.TypeOf((*iotago.Block)(nil)):
		return reflect.ValueOf(p.blocks[k%len(p.blocks)])
	case reflect.TypeOf((*iotago.Commitment)(nil)):
		return reflect.ValueOf(p.commits[k%len(p.commits)])
	case reflect.TypeOf((*iotago.OutputIDProof)(nil)):
		return reflect.ValueOf(p.proofs[k%len(p.proofs)])
	case reflect.TypeOf((*iotago.TxEssenceOutput)(nil)).Elem():
		return reflect.ValueOf(p.outputs[k%len(p.outputs)])
	case reflect.TypeOf((*iotago.ProtocolParameters)(nil)).Elem():
		return reflect.ValueOf(p.params[k%len(p.params)])
	}
	return reflect.Value{}
}

func msgBytes(b []byte) []int {
	out := make([]int, len(b))
	for k, x := range b {
		out[k] = int(x)
	}
	return out
}

// jsonTree is JSON as the specification has it.
func jsonTree(raw []byte) any {
	d := json.NewDecoder(bytes.NewReader(raw))
	d.UseNumber()
	var walk func() any
	walk = func() any {
		t, err := d.Token()
		must(err)
		switch x := t.(type) {
		case json.Delim:
			if x == '[' {
				l := []any{}
				for d.More() {
					l = append(l, walk())
				}
				_, err := d.Token()
				must(err)
				return []any{"a", l}
			}
			l := []any{}
			for d.More() {
				k, err := d.Token()
				must(err)
				l = append(l, []any{k.(string), walk()})
			}
			_, err := d.Token()
			must(err)
			return []any{"o", l}
		case string:
			return []any{"s", msgBytes([]byte(x))}
		case json.Number:
			if b, ok := new(big.Int).SetString(x.String(), 10); ok && b.Sign() >= 0 {
				return []any{"n", NB(b)}
			}
			return []any{"x", msgBytes([]byte(x.String()))}
		case bool:
			return []any{"b", b2i(x)}
		}
		return []any{"z", 0}
	}
	return walk()
}

var msgTimeType = reflect.TypeOf(time.Time{})

// msgDump is a value as the specification has it.
func msgDump(v reflect.Value, optional bool) any {
	t := v.Type()
	if msgRaw(t, 0).IsValid() {
		if v.IsNil() {
			return map[string]any{"b": []int{}, "j": []any{"z", 0}}
		}
		b, err := cAPI().Encode(v.Interface())
		must(err)
		j, err := cAPI().JSONEncode(v.Interface())
		must(err)
		return map[string]any{"b": msgBytes(b), "j": jsonTree(j)}
	}
	if t == msgTimeType {
		ns := v.Interface().(time.Time).UnixNano()
		if ns < 0 { // the zero time
			ns = 0
		}
		return N(uint64(ns))
	}
	switch t.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			if optional {
				return []any{}
			}
			return map[string]any{"nil": 1}
		}
		if optional {
			return []any{msgDump(v.Elem(), false)}
		}
		return msgDump(v.Elem(), false)
	case reflect.Struct:
		m := map[string]any{}
		for k := 0; k < t.NumField(); k++ {
			m[t.Field(k).Name] = msgDump(v.Field(k), strings.Contains(t.Field(k).Tag.Get("serix"), "optional"))
		}
		return m
	case reflect.String:
		return msgBytes([]byte(v.String()))
	case reflect.Array:
		b := make([]byte, v.Len())
		reflect.Copy(reflect.ValueOf(b), v)
		return msgBytes(b)
	case reflect.Slice:
		l := []any{}
		for k := 0; k < v.Len(); k++ {
			l = append(l, msgDump(v.Index(k), false))
		}
		return l
	case reflect.Bool:
		return b2i(v.Bool())
	case reflect.Float64:
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], math.Float64bits(v.Float()))
		return map[string]any{"b": msgBytes(b[:]), "s": msgBytes([]byte(strconv.FormatFloat(v.Float(), 'g', -1, 64)))}
	case reflect.Int64:
		neg, abs := 0, new(big.Int).SetInt64(v.Int())
		if abs.Sign() < 0 {
			neg = 1
			abs.Neg(abs)
		}
		return map[string]any{"neg": neg, "abs": NB(abs)}
	}
	if t == reflect.TypeOf(api.BlockState(0)) || t == reflect.TypeOf(api.TransactionState(0)) {
		return int(v.Uint())
	}
	return N(v.Uint())
}

func numOf(x any) (n Num) {
	b, err := json.Marshal(x)
	must(err)
	must(json.Unmarshal(b, &n))
	return
}

// msgLoad sets v to a value of the specification.
func msgLoad(v reflect.Value, x any, optional bool) {
	t := v.Type()
	if msgRaw(t, 0).IsValid() {
		v.Set(msgRaw(t, int(x.(map[string]any)["b"].([]any)[0].(float64))))
		return
	}
	if t == msgTimeType {
		v.Set(reflect.ValueOf(time.Unix(0, int64(numOf(x).U64())).UTC()))
		return
	}
	list := func() []any {
		if l, ok := x.([]any); ok {
			return l
		}
		return nil // an empty sequence
	}
	switch t.Kind() {
	case reflect.Pointer:
		if optional {
			if len(list()) == 0 {
				return
			}
			x = list()[0]
		}
		v.Set(reflect.New(t.Elem()))
		msgLoad(v.Elem(), x, false)
	case reflect.Struct:
		for k := 0; k < t.NumField(); k++ {
			msgLoad(v.Field(k), x.(map[string]any)[t.Field(k).Name], strings.Contains(t.Field(k).Tag.Get("serix"), "optional"))
		}
	case reflect.String:
		b := []byte{}
		for _, c := range list() {
			b = append(b, byte(c.(float64)))
		}
		v.SetString(string(b))
	case reflect.Array:
		for k, c := range list() {
			v.Index(k).SetUint(uint64(c.(float64)))
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(t, len(list()), len(list())))
		for k, c := range list() {
			msgLoad(v.Index(k), c, false)
		}
	case reflect.Bool:
		v.SetBool(x.(float64) == 1)
	case reflect.Float64:
	case reflect.Int64:
		m := x.(map[string]any)
		n := int64(numOf(m["abs"]).U64())
		if m["neg"].(float64) == 1 {
			n = -n
		}
		v.SetInt(n)
	default:
		if f, ok := x.(float64); ok {
			v.SetUint(uint64(f))
		} else {
			v.SetUint(numOf(x).U64())
		}
	}
}

var msgTexts = []string{"", "a", "rms1abc", "ünïcodé", "日本語", "\"quoted\"\\", "<&>", "line\nbreak", "0x00", " ", "null", "0", "\x01\u2028"}

// msgFill sets v at random.
func msgFill(g *rand.Rand, v reflect.Value, tag string) {
	t := v.Type()
	if msgRaw(t, 0).IsValid() {
		v.Set(msgRaw(t, g.Intn(1000)))
		return
	}
	if t == msgTimeType {
		ns := g.Int63() >> uint(g.Intn(64))
		v.Set(reflect.ValueOf(time.Unix(0, ns).UTC()))
		return
	}
	switch t.Kind() {
	case reflect.Pointer:
		if strings.Contains(tag, "optional") && g.Intn(2) == 0 {
			return
		}
		v.Set(reflect.New(t.Elem()))
		msgFill(g, v.Elem(), "")
	case reflect.Struct:
		for k := 0; k < t.NumField(); k++ {
			msgFill(g, v.Field(k), t.Field(k).Tag.Get("serix"))
		}
	case reflect.String:
		s := msgTexts[g.Intn(len(msgTexts))]
		if g.Intn(12) == 0 {
			s = strings.Repeat("x", []int{254, 255}[g.Intn(2)])
			if strings.Contains(tag, "uint16") {
				s = strings.Repeat("y", 256+g.Intn(400))
			}
		}
		v.SetString(s)
	case reflect.Array:
		if g.Intn(4) > 0 {
			for k := 0; k < v.Len(); k++ {
				v.Index(k).SetUint(uint64(g.Intn(256)))
			}
		}
	case reflect.Slice:
		n := []int{0, 1, 2, 3, 7}[g.Intn(5)]
		if t.Elem().Kind() == reflect.Pointer && n > 2 && g.Intn(4) > 0 {
			n = 2
		}
		if t == reflect.TypeOf(iotago.BlockIDs{}) {
			ids := iotago.BlockIDs{}
			for k := 0; k < n; k++ {
				var id iotago.BlockID
				msgFill(g, reflect.ValueOf(&id).Elem(), "")
				ids = append(ids, id)
			}
			ids = ids.RemoveDupsAndSort()
			sort.Slice(ids, func(a, b int) bool { return bytes.Compare(ids[a][:], ids[b][:]) < 0 })
			v.Set(reflect.ValueOf(ids))
			return
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for k := 0; k < n; k++ {
			msgFill(g, v.Index(k), "")
		}
	case reflect.Bool:
		v.SetBool(g.Intn(2) == 1)
	case reflect.Float64:
		v.SetFloat([]float64{0, 1, 0.1, -2.5, 1e300, 5e-324, 123456789.125, g.NormFloat64(), math.Float64frombits(g.Uint64() >> 2), 1e21, 1e-7}[g.Intn(11)])
	case reflect.Int64:
		v.SetInt([]int64{0, 1, -1, math.MaxInt64, math.MinInt64, int64(g.Uint64())}[g.Intn(6)])
	default:
		bits := t.Bits()
		x := g.Uint64() >> uint(64-bits) >> uint(g.Intn(bits))
		switch g.Intn(6) {
		case 0:
			x = 0
		case 1:
			x = math.MaxUint64 >> uint(64-bits)
		}
		switch t {
		case reflect.TypeOf(api.BlockState(0)):
			x %= uint64(api.BlockStateOrphaned) + 1
		case reflect.TypeOf(api.TransactionState(0)):
			x %= uint64(api.TransactionStateFailed) + 1
		}
		v.SetUint(x)
	}
}

func msgRun(name, from string, v reflect.Value) map[string]any {
	a := cAPI()
	t := v.Type()
	none := []any{}
	rec := map[string]any{"t": name, "from": from, "v": msgDump(v, false), "b": []int{}, "j": []any{"o", none}, "back": 0, "used": 0, "jback": 0, "short": none, "drops": none, "panic": "", "err": ""}
	step := func(what string, f func() error) bool {
		err, p := guard(f)
		if p {
			rec["panic"] = what
		}
		if err != nil && rec["err"] == "" {
			rec["err"] = what + ": " + errStr(err)
		}
		return err == nil
	}
	ptr := v.Addr().Interface()
	fresh := func() reflect.Value { return reflect.New(t) }
	var b, j []byte
	if step("Encode", func() (err error) { b, err = a.Encode(ptr, serix.WithValidation()); return }) {
		rec["b"] = msgBytes(b)
		x := fresh()
		var n int
		if step("Decode", func() (err error) { n, err = a.Decode(b, x.Interface(), serix.WithValidation()); return }) {
			rec["back"], rec["used"] = msgDump(x.Elem(), false), n
		}
		short := []int{}
		for n := 0; n < len(b); n++ {
			if len(b) > 600 && n > 64 && n < len(b)-64 && n%7 != 0 {
				continue
			}
			err, p := guard(func() error { _, err := a.Decode(b[:n], fresh().Interface(), serix.WithValidation()); return err })
			if p {
				rec["panic"] = fmt.Sprintf("Decode of %d bytes", n)
			} else if err == nil {
				short = append(short, n)
			}
		}
		rec["short"] = short
	}
	if step("JSONEncode", func() (err error) { j, err = a.JSONEncode(ptr, serix.WithValidation()); return }) {
		rec["j"] = jsonTree(j)
		x := fresh()
		if step("JSONDecode", func() error { return a.JSONDecode(j, x.Interface(), serix.WithValidation()) }) {
			rec["jback"] = msgDump(x.Elem(), false)
		}
		var m map[string]json.RawMessage
		must(json.Unmarshal(j, &m))
		keys := []string{}
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		drops := []any{}
		for _, k := range keys {
			rest := map[string]json.RawMessage{}
			for k2, x := range m {
				if k2 != k {
					rest[k2] = x
				}
			}
			raw, err := json.Marshal(rest)
			must(err)
			x := fresh()
			err, p := guard(func() error { return a.JSONDecode(raw, x.Interface(), serix.WithValidation()) })
			if p {
				rec["panic"] = "JSONDecode without " + k
			}
			d := map[string]any{"key": k, "ok": b2i(err == nil), "v": 0}
			if err == nil {
				d["v"] = msgDump(x.Elem(), false)
			}
			drops = append(drops, d)
		}
		rec["drops"] = drops
	}
	return rec
}

func msgCmd(in, out, _ string, seed int64, n int) {
	msgPoolInit()
	type job struct {
		t, from string
		v       reflect.Value
	}
	jobs := []job{}
	if in != "" {
		readLines(in, func(b []byte) {
			c := struct {
				T string
				V any
			}{}
			must(json.Unmarshal(b, &c))
			v := reflect.New(msgTypes[c.T]).Elem()
			msgLoad(v, c.V, false)
			jobs = append(jobs, job{c.T, "enumerated", v})
		})
	}
	names := []string{}
	for k := range msgTypes {
		names = append(names, k)
	}
	sort.Strings(names)
	g := rand.New(rand.NewSource(seed))
	for k := 0; k < n; k++ {
		t := names[k%len(names)]
		v := reflect.New(msgTypes[t]).Elem()
		msgFill(g, v, "")
		jobs = append(jobs, job{t, "random", v})
	}
	recs := make([]any, len(jobs))
	parallel(len(jobs), func(k int) { recs[k] = msgRun(jobs[k].t, jobs[k].from, jobs[k].v) })
	writeLines(out, recs)
}
