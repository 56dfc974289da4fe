package main

import (
	"bytes"
	"context"
	"crypto/ed25519"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net/http"
	"net/url"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/crypto/blake2b"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
	"github.com/iotaledger/iota.go/v4/builder"
	"github.com/iotaledger/iota.go/v4/nodeclient"
)

// Calls of the node clients against a scripted node, for ClientConform.tla.

func init() { commands["client"] = clientCmd }

type cCall struct {
	Op    string      `json:"op"`
	M     string      `json:"m"`
	Arg   string      `json:"arg"`
	QA    [][2]string `json:"qa"`
	Body  string      `json:"body"`
	Kind  string      `json:"kind"`
	Max   int         `json:"max"`
	Fetch int         `json:"fetch"`
	Via   string      `json:"via"`
}
type cReply struct {
	St     int      `json:"st"`
	B      string   `json:"b"`
	Items  []string `json:"items"`
	Cursor string   `json:"cursor"`
	Slot   string   `json:"slot"`
	C      string   `json:"c"`
	P      string   `json:"p"`
	Alt    string   `json:"alt"`
	Target int      `json:"target"`
	Addr   string   `json:"addr"`
	N      int      `json:"n"`
}
type cAsk struct {
	Verb   string      `json:"verb"`
	Path   string      `json:"path"`
	Q      [][2]string `json:"q"`
	Accept string      `json:"accept"`
	Ctype  string      `json:"ctype"`
	Body   string      `json:"body"`
	Host   string      `json:"host"`
	Auth   string      `json:"auth"`
	Zeros  int         `json:"zeros"`
	Commit string      `json:"commit"`
}
type cOut struct {
	Ok  int      `json:"ok"`
	Err string   `json:"err"`
	Val []string `json:"val"`
}
type cRec struct {
	C     cCall    `json:"c"`
	Rs    []cReply `json:"rs"`
	F     []string `json:"f"`
	Seed  int64    `json:"seed"`
	Asked []cAsk   `json:"asked"`
	Out   cOut     `json:"out"`
	Why   string   `json:"why"`
	At    string   `json:"at"` // package that panicked
}

// ------------------------------------------------------------------ node ---

var errLost = errors.New("connection lost")

type lostBody struct{ r io.Reader }

func (l *lostBody) Read(p []byte) (int, error) {
	n, err := l.r.Read(p)
	if err == io.EOF {
		return n, errLost
	}
	return n, err
}
func (l *lostBody) Close() error { return nil }

// scripted is a node that answers as told
type scripted struct {
	handle func(req *http.Request, body []byte) (st int, h http.Header, out []byte, kind string)
}

func (s *scripted) RoundTrip(req *http.Request) (*http.Response, error) {
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	st, h, out, kind := s.handle(req, body)
	if kind == "dead" {
		return nil, errLost
	}
	if h == nil {
		h = http.Header{}
	}
	var rd io.ReadCloser = io.NopCloser(bytes.NewReader(out))
	if kind == "hang" {
		rd = &lostBody{bytes.NewReader(out[:len(out)/2])}
	}
	return &http.Response{StatusCode: st, Status: strconv.Itoa(st), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: rd, ContentLength: -1, Request: req}, nil
}

const cBase = "http://node:14265"

// ---------------------------------------------------------------- values ---

type cNode struct {
	name     string
	list     bool
	opt      bool
	typ      string
	children []*cNode
}

// cTree reads field descriptions such as "a.b[]?.c:type"
func cTree(f []string) *cNode {
	root := &cNode{}
	for _, s := range f {
		i := strings.LastIndex(s, ":")
		if i < 0 {
			continue
		}
		path, typ := s[:i], s[i+1:]
		opt := strings.HasSuffix(typ, "?")
		typ = strings.TrimSuffix(typ, "?")
		at := root
		parts := strings.Split(path, ".")
		for k, p := range parts {
			o := strings.HasSuffix(p, "?")
			p = strings.TrimSuffix(p, "?")
			l := strings.HasSuffix(p, "[]")
			p = strings.TrimSuffix(p, "[]")
			var c *cNode
			for _, x := range at.children {
				if x.name == p {
					c = x
				}
			}
			if c == nil {
				c = &cNode{name: p, list: l, opt: o}
				at.children = append(at.children, c)
			}
			if k == len(parts)-1 {
				c.typ = typ
				c.opt = c.opt || opt
			}
			at = c
		}
	}
	return root
}

var cBlockStates = []string{"unknown", "pending", "accepted", "confirmed", "finalized", "dropped", "orphaned"}
var cTxStates = []string{"unknown", "pending", "accepted", "committed", "finalized", "failed"}

type cGen struct {
	r      *rand.Rand
	leaves []string
}

func (g *cGen) bytes(n int) []byte {
	b := make([]byte, n)
	g.r.Read(b)
	b[0] |= 1
	return b
}
func cHex(b []byte) string { return "0x" + hex.EncodeToString(b) }

func (g *cGen) leaf(path, typ string) json.RawMessage {
	say := func(v string) { g.leaves = append(g.leaves, path+"="+v) }
	str := func(v string) json.RawMessage { b, _ := json.Marshal(v); return b }
	bits := func(n int) uint64 {
		switch g.r.Intn(4) {
		case 0:
			return 1
		case 1:
			return ^uint64(0) >> (64 - n)
		default:
			return 1 + g.r.Uint64()>>(64-n)/2
		}
	}
	switch typ {
	case "u8", "u32":
		n := 8
		if typ == "u32" {
			n = 32
		}
		v := strconv.FormatUint(bits(n), 10)
		say(v)
		return json.RawMessage(v)
	case "u64":
		v := strconv.FormatUint(bits(64), 10)
		say(v)
		return str(v)
	case "i64":
		v := strconv.FormatInt(int64(bits(64)), 10)
		say(v)
		return str(v)
	case "bool":
		v := strconv.FormatBool(g.r.Intn(2) == 0)
		say(v)
		return json.RawMessage(v)
	case "str":
		v := []string{"a", "rms1xyz", "with \"quotes\" & ünï", strings.Repeat("x", 255)}[g.r.Intn(4)]
		say(v)
		return str(v)
	case "32", "36", "38":
		n, _ := strconv.Atoi(typ)
		v := cHex(g.bytes(n))
		say(v)
		return str(v)
	case "time":
		v := strconv.FormatInt(1_000_000_000*int64(1+g.r.Intn(2_000_000_000))+int64(g.r.Intn(1_000_000_000)), 10)
		say(v)
		return str(v)
	case "f64":
		v := strconv.FormatFloat([]float64{0.5, 1.1, 1e-3, 12345.678, 1}[g.r.Intn(5)], 'g', -1, 64)
		say(v)
		return str(v)
	case "bstate":
		i := g.r.Intn(len(cBlockStates))
		say(strconv.Itoa(i))
		return str(cBlockStates[i])
	case "tstate":
		i := g.r.Intn(len(cTxStates))
		say(strconv.Itoa(i))
		return str(cTxStates[i])
	case "output":
		o := cLedger().outs[cNames[g.r.Intn(len(cNames))]]
		j, err := cAPI().JSONEncode(o.out)
		must(err)
		say(o.enc)
		return j
	case "params":
		p := psets[g.r.Intn(3)].Params
		j, err := cAPI().JSONEncode(p)
		must(err)
		h, err := p.Hash()
		must(err)
		say(cHex(h[:]))
		return j
	}
	panic("type " + typ)
}

// object renders the children of a node; drop, wrong and null name a child path to spoil
func (g *cGen) object(n *cNode, path, spoil, how string) json.RawMessage {
	var b bytes.Buffer
	b.WriteByte('{')
	first := true
	for _, c := range n.children {
		p := strings.TrimPrefix(path+"."+c.name, ".")
		if c.opt && p != spoil && g.r.Intn(2) == 0 {
			continue
		}
		if p == spoil && how == "missing" {
			continue
		}
		one := func(q string) json.RawMessage {
			if c.typ != "" {
				return g.leaf(q, c.typ)
			}
			return g.object(c, q, spoil, how)
		}
		var v json.RawMessage
		if c.list {
			var l bytes.Buffer
			l.WriteByte('[')
			k := g.r.Intn(4)
			if c.opt && k == 0 {
				k = 1
			}
			if c.typ == "params" || (len(c.children) > 0 && c.children[len(c.children)-1].typ == "params") {
				k = 1 + g.r.Intn(2)
			}
			for i := 0; i < k; i++ {
				if i > 0 {
					l.WriteByte(',')
				}
				l.Write(one(p + "[" + strconv.Itoa(i) + "]"))
			}
			l.WriteByte(']')
			v = l.Bytes()
		} else {
			v = one(p)
		}
		if p == spoil {
			if how == "null" {
				v = json.RawMessage("null")
			} else if how == "wrong" {
				if v[0] == '{' {
					v = json.RawMessage("17")
				} else {
					v = json.RawMessage(`{"a":1}`)
				}
			}
		}
		if !first {
			b.WriteByte(',')
		}
		first = false
		b.WriteString(strconv.Quote(c.name) + ":")
		b.Write(v)
	}
	if how == "more" && path == "" {
		if !first {
			b.WriteByte(',')
		}
		b.WriteString(`"somethingNew":{"a":[1,"2"]}`)
	}
	b.WriteByte('}')
	return b.Bytes()
}

// spoilable lists the paths that must be there
func (n *cNode) spoilable(path string) (out []string) {
	for _, c := range n.children {
		if c.opt {
			continue
		}
		p := strings.TrimPrefix(path+"."+c.name, ".")
		out = append(out, p)
		if !c.list && c.typ == "" {
			out = append(out, c.spoilable(p)...)
		}
	}
	return
}

// cLeaves reads a value the way a tree describes it
func cLeaves(n *cNode, v reflect.Value, path string, out *[]string) {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			*out = append(*out, path+"=nil")
			return
		}
		v = v.Elem()
	}
	for _, c := range n.children {
		p := strings.TrimPrefix(path+"."+c.name, ".")
		name := c.name
		fv := reflect.Value{}
		for i := 0; i < v.NumField(); i++ {
			if fn := v.Type().Field(i).Name; strings.EqualFold(fn, name) || (name == "address" && fn == "AddressBech32") {
				fv = v.Field(i)
			}
		}
		if !fv.IsValid() {
			*out = append(*out, p+" not there")
			continue
		}
		one := func(q string, x reflect.Value) {
			if c.typ == "" {
				cLeaves(c, x, q, out)
			} else if !(c.opt && !c.list && x.IsZero()) {
				*out = append(*out, q+"="+cLeaf(c.typ, x))
			}
		}
		if c.list {
			for i := 0; i < fv.Len(); i++ {
				one(p+"["+strconv.Itoa(i)+"]", fv.Index(i))
			}
		} else if c.opt && c.typ == "" && fv.Kind() == reflect.Ptr && fv.IsNil() {
			continue
		} else {
			one(p, fv)
		}
	}
}

func cLeaf(typ string, x reflect.Value) string {
	switch typ {
	case "time":
		return strconv.FormatInt(x.Interface().(time.Time).UnixNano(), 10)
	case "32", "36", "38":
		b := make([]byte, x.Len())
		reflect.Copy(reflect.ValueOf(b), x)
		return cHex(b)
	case "f64":
		return strconv.FormatFloat(x.Float(), 'g', -1, 64)
	case "bstate", "tstate":
		return strconv.FormatUint(x.Uint(), 10)
	case "output":
		b, err := cAPI().Encode(x.Interface())
		if err != nil {
			return "?" + err.Error()
		}
		return cHex(b)
	case "params":
		h, err := x.Interface().(iotago.ProtocolParameters).Hash()
		if err != nil {
			return "?" + err.Error()
		}
		return cHex(h[:])
	}
	switch x.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(x.Uint(), 10)
	case reflect.Int64:
		return strconv.FormatInt(x.Int(), 10)
	}
	return fmt.Sprint(x.Interface())
}

func cDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "-", "-"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return x + " / " + y
		}
	}
	return ""
}

// ---------------------------------------------------------------- ledger ---

var cAPI = sync.OnceValue(func() iotago.API { return psets[0].API })

type cOutput struct {
	out     iotago.Output
	enc     string
	content string
	id      iotago.OutputID
	proof   *iotago.OutputIDProof
}
type cWorld struct {
	outs map[string]*cOutput
	byID map[string]string // hex identifier -> name
	what map[string]string // encoding -> content
}

var cNames = []string{"o1", "o2", "o3", "o4", "o5", "o6", "o7", "o8", "o9"}

var cLedger = sync.OnceValue(func() *cWorld {
	w := &cWorld{map[string]*cOutput{}, map[string]string{}, map[string]string{}}
	addr := func(n int) *iotago.Ed25519Address { a := iotago.Ed25519Address(keyHash(n)); return &a }
	mk := func(c string) iotago.TxEssenceOutput {
		acc := iotago.AccountID(hash32([]byte("acc")))
		switch c {
		case "basicA", "basicB":
			return &iotago.BasicOutput{Amount: 1000000 + iotago.BaseToken(c[5]), Mana: 5, UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: addr(1)}}, Features: iotago.BasicOutputFeatures{}}
		case "account":
			return &iotago.AccountOutput{Amount: 2000000, AccountID: acc, UnlockConditions: iotago.AccountOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: addr(2)}}, Features: iotago.AccountOutputFeatures{}, ImmutableFeatures: iotago.AccountOutputImmFeatures{}}
		case "nft":
			return &iotago.NFTOutput{Amount: 3000000, NFTID: iotago.NFTID(acc), UnlockConditions: iotago.NFTOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: addr(3)}}, Features: iotago.NFTOutputFeatures{}, ImmutableFeatures: iotago.NFTOutputImmFeatures{}}
		case "foundry":
			return &iotago.FoundryOutput{Amount: 4000000, SerialNumber: 1, TokenScheme: &iotago.SimpleTokenScheme{MintedTokens: big.NewInt(5), MeltedTokens: big.NewInt(0), MaximumSupply: big.NewInt(9)},
				UnlockConditions: iotago.FoundryOutputUnlockConditions{&iotago.ImmutableAccountUnlockCondition{Address: acc.ToAddress().(*iotago.AccountAddress)}}, Features: iotago.FoundryOutputFeatures{}, ImmutableFeatures: iotago.FoundryOutputImmFeatures{}}
		case "anchor":
			return &iotago.AnchorOutput{Amount: 5000000, AnchorID: iotago.AnchorID(acc), UnlockConditions: iotago.AnchorOutputUnlockConditions{&iotago.StateControllerAddressUnlockCondition{Address: addr(4)}, &iotago.GovernorAddressUnlockCondition{Address: addr(5)}}, Features: iotago.AnchorOutputFeatures{}, ImmutableFeatures: iotago.AnchorOutputImmFeatures{}}
		case "delegation":
			return &iotago.DelegationOutput{Amount: 6000000, DelegatedAmount: 6000000, ValidatorAddress: acc.ToAddress().(*iotago.AccountAddress), StartEpoch: 3, UnlockConditions: iotago.DelegationOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: addr(1)}}}
		}
		panic(c)
	}
	o := 0
	for t, cs := range [][]string{{"basicA", "basicA", "account"}, {"nft", "basicA", "foundry", "anchor", "delegation"}, {"basicB"}} {
		tx := &iotago.Transaction{API: cAPI(), TransactionEssence: &iotago.TransactionEssence{NetworkID: cAPI().ProtocolParameters().NetworkID(), CreationSlot: iotago.SlotIndex(10 + t), ContextInputs: iotago.TxEssenceContextInputs{},
			Inputs: iotago.TxEssenceInputs{&iotago.UTXOInput{TransactionOutputIndex: uint16(t)}}, Allotments: iotago.Allotments{}, Capabilities: iotago.TransactionCapabilitiesBitMask{}}, Outputs: iotago.TxEssenceOutputs{}}
		for _, c := range cs {
			tx.Outputs = append(tx.Outputs, mk(c))
		}
		id, err := tx.ID()
		must(err)
		for k, c := range cs {
			p, err := iotago.OutputIDProofFromTransaction(tx, uint16(k))
			must(err)
			e, err := cAPI().Encode(tx.Outputs[k])
			must(err)
			oid := iotago.OutputID(binary.LittleEndian.AppendUint16(append([]byte{}, id[:]...), uint16(k)))
			x := &cOutput{tx.Outputs[k], cHex(e), c, oid, p}
			w.outs[cNames[o]] = x
			w.byID[cHex(oid[:])] = cNames[o]
			w.what[x.enc] = c
			o++
		}
	}
	return w
})

func (w *cWorld) contentOf(o iotago.Output) string {
	if o == nil {
		return "nothing"
	}
	b, err := cAPI().Encode(o)
	if err != nil {
		return "?"
	}
	if c, ok := w.what[cHex(b)]; ok {
		return c
	}
	return "unknown"
}

// body of a reply carrying content r.C with the proof of r.P; asked: the output asked for
func (w *cWorld) response(r *cReply, asked *cOutput) []byte {
	p := *w.outs[r.P].proof
	switch r.Alt {
	case "slot":
		p.Slot++
	case "index":
		p.OutputIndex = asked.id.Index()
	case "commitment":
		p.TransactionCommitment[5] ^= 1
	}
	content, err := cAPI().Encode(w.outs[r.C].out)
	must(err)
	proof, err := cAPI().Encode(&p)
	must(err)
	if r.Alt == "hash" {
		proof[len(proof)-1] ^= 1
	}
	return append(content, proof...)
}

// ---------------------------------------------------------------- client ---

type cWorker struct {
	s       *scripted
	clients map[string]*nodeclient.Client
	idx     map[string]nodeclient.IndexerClient
	mgmt    map[string]nodeclient.ManagementClient
	iss     map[string]nodeclient.BlockIssuerClient
}

func cInfoJSON(params string, commitment []byte) string {
	return `{"name":"n","version":"1","status":{"isHealthy":true,"isNetworkHealthy":true,"acceptedTangleTime":"1","relativeAcceptedTangleTime":"1","confirmedTangleTime":"1","relativeConfirmedTangleTime":"1","latestCommitmentId":"` + cHex(commitment) +
		`","latestFinalizedSlot":1,"latestAcceptedBlockSlot":1,"latestConfirmedBlockSlot":1,"pruningEpoch":0},"protocolParameters":[` + params + `],"baseToken":{"name":"t","tickerSymbol":"t","unit":"t","decimals":6}}`
}

func (w *cWorker) dial(via string) (*nodeclient.Client, error) {
	opts := []nodeclient.ClientOption{nodeclient.WithHTTPClient(&http.Client{Transport: w.s})}
	if via == "user" || via == "both" {
		opts = append(opts, nodeclient.WithUserInfo(url.UserPassword("me", "secret")))
	}
	if via == "hook" || via == "both" {
		opts = append(opts, nodeclient.WithRequestURLHook(func(u string) string { return strings.Replace(u, cBase, "http://proxy:99/x", 1) }))
	}
	return nodeclient.New(cBase, opts...)
}

func newCWorker() *cWorker {
	w := &cWorker{&scripted{}, map[string]*nodeclient.Client{}, map[string]nodeclient.IndexerClient{}, map[string]nodeclient.ManagementClient{}, map[string]nodeclient.BlockIssuerClient{}}
	pj, err := cAPI().JSONEncode(psets[0].Params)
	must(err)
	w.s.handle = func(req *http.Request, _ []byte) (int, http.Header, []byte, string) {
		if strings.HasSuffix(req.URL.Path, "/info") {
			return 200, nil, []byte(cInfoJSON(`{"startEpoch":0,"parameters":`+string(pj)+`}`, make([]byte, 36))), ""
		}
		return 200, nil, []byte(`{"routes":["indexer/v2","management/v1","blockissuer/v1","mqtt/v2"]}`), ""
	}
	for _, via := range []string{"plain", "user", "hook", "both"} {
		c, err := w.dial(via)
		must(err)
		w.clients[via] = c
		w.idx[via], err = c.Indexer(context.Background())
		must(err)
		w.mgmt[via], err = c.Management(context.Background())
		must(err)
		w.iss[via], err = c.BlockIssuer(context.Background())
		must(err)
	}
	return w
}

var cErrors = []struct {
	e error
	s string
}{{nodeclient.ErrHTTPBadRequest, "bad request"}, {nodeclient.ErrHTTPInternalServerError, "internal server error"}, {nodeclient.ErrHTTPNotFound, "not found"}, {nodeclient.ErrHTTPUnauthorized, "unauthorized"},
	{nodeclient.ErrHTTPUnknownError, "unknown"}, {nodeclient.ErrHTTPNotImplemented, "not implemented"}, {nodeclient.ErrHTTPServiceUnavailable, "service unavailable"}, {nodeclient.ErrIndexerNotFound, "no result"},
	{nodeclient.ErrManagementPluginNotAvailable, "Management not available"}, {nodeclient.ErrIndexerPluginNotAvailable, "Indexer not available"}, {nodeclient.ErrMQTTPluginNotAvailable, "EventAPI not available"}, {nodeclient.ErrBlockIssuerPluginNotAvailable, "BlockIssuer not available"}}

func cErr(err error) string {
	out := []string{}
	for _, x := range cErrors {
		if errors.Is(err, x.e) {
			out = append(out, x.s)
		}
	}
	if len(out) == 0 {
		return "other"
	}
	return strings.Join(out, " and ")
}

// world of one run: what identifiers stand for
type cRun struct {
	w      *cWorker
	rec    *cRec
	g      *cGen
	argS   string // the real form of the argument
	names  map[string]string
	sent   []string // leaves of the good reply
	raw    string   // encoding of the object a good raw reply carries
	meta   string
	expect []byte // body expected
	commit string
	vals   map[string]string // validator address -> name
	extra  func(b []byte, h http.Header, a *cAsk)
	issuer string
	rmc    uint64
	slotN  iotago.SlotIndex
}

func (u *cRun) tree() *cNode { return cTree(u.rec.F) }

func (u *cRun) randBlock() *iotago.Block {
	r := u.g.r
	slot := iotago.SlotIndex(100 + r.Intn(1000))
	latest := slot - iotago.SlotIndex(10+r.Intn(11))
	com := append(u.g.bytes(32), latest.MustBytes()...)
	bb := builder.NewBasicBlockBuilder(cAPI()).IssuingTime(cAPI().TimeProvider().SlotStartTime(slot).Add(time.Duration(r.Intn(1000)))).
		SlotCommitmentID(iotago.CommitmentID(com)).LatestFinalizedSlot(latest - iotago.SlotIndex(r.Intn(5))).
		Payload(&iotago.TaggedData{Tag: u.g.bytes(1 + r.Intn(9)), Data: u.g.bytes(1 + r.Intn(40))}).MaxBurnedMana(iotago.Mana(r.Uint64())).
		StrongParents(iotago.BlockIDs{iotago.BlockID(u.g.bytes(36))})
	b, err := bb.Sign(iotago.AccountID(keyHash(2)), privKeys[2]).Build()
	must(err)
	return b
}

// good body of a reply to a method
func (u *cRun) goodBody(how string, n int) []byte {
	dec := ""
	if len(u.rec.F) == 1 && !strings.Contains(u.rec.F[0], ":") {
		dec = u.rec.F[0]
	}
	switch dec {
	case "block", "blockmeta":
		b, err := cAPI().Encode(u.randBlock())
		must(err)
		u.raw = cHex(b)
		if dec == "blockmeta" {
			id := u.g.bytes(36)
			st := u.g.r.Intn(len(cBlockStates))
			u.meta = cHex(id) + "/" + strconv.Itoa(st)
			b = append(append(b, id...), byte(st))
		}
		return b
	case "tx":
		tx := &iotago.Transaction{API: cAPI(), TransactionEssence: &iotago.TransactionEssence{NetworkID: cAPI().ProtocolParameters().NetworkID(), CreationSlot: iotago.SlotIndex(u.g.r.Uint32()), ContextInputs: iotago.TxEssenceContextInputs{},
			Inputs: iotago.TxEssenceInputs{&iotago.UTXOInput{TransactionID: iotago.TransactionID(u.g.bytes(36)), TransactionOutputIndex: uint16(u.g.r.Intn(100))}}, Allotments: iotago.Allotments{}, Capabilities: iotago.TransactionCapabilitiesBitMask{}},
			Outputs: iotago.TxEssenceOutputs{cLedger().outs[cNames[u.g.r.Intn(len(cNames))]].out.(iotago.TxEssenceOutput)}}
		b, err := cAPI().Encode(tx)
		must(err)
		u.raw = cHex(b)
		return b
	}
	t := u.tree()
	if len(t.children) == 0 {
		return []byte(`{}`)
	}
	spoil := ""
	if how == "missing" || how == "wrong" || how == "null" {
		ps := t.spoilable("")
		spoil = ps[n%len(ps)]
		u.rec.Why = how + " " + spoil
	}
	u.g.leaves = nil
	b := u.g.object(t, "", spoil, how)
	u.sent = u.g.leaves
	return b
}

func (u *cRun) reply(k int, req *http.Request) (int, http.Header, []byte, string) {
	if k >= len(u.rec.Rs) {
		return 599, nil, []byte("beyond the script"), ""
	}
	r := &u.rec.Rs[k]
	h := http.Header{}
	var body []byte
	kind := ""
	switch r.B {
	case "good", "more", "missing", "wrong", "null":
		if u.rec.C.M == "SubmitBlock" {
			id := u.g.bytes(36)
			u.raw = cHex(id)
			h.Set("Location", u.raw)
		} else {
			body = u.goodBody(r.B, r.N)
		}
	case "hang":
		body = []byte(`{"error":{"code":"1","message":"abc"}}`)
		if r.St == 200 || r.St == 201 {
			body = u.goodBody("good", 0)
		}
		kind = "hang"
	case "dead":
		kind = "dead"
	case "empty":
	case "html":
		body = []byte("<html><body>Service Unavailable</body></html>")
	case "array":
		body = []byte(`["a",1]`)
	case "errenv":
		body = []byte(`{"error":{"code":"400","message":"something"}}`)
	case "output":
		var asked *cOutput
		for id, n := range cLedger().byID {
			if strings.Contains(req.URL.Path, id) {
				asked = cLedger().outs[n]
			}
		}
		if asked == nil {
			asked = cLedger().outs["o1"]
		}
		body = cLedger().response(r, asked)
		if strings.HasSuffix(req.URL.Path, "/full") {
			m, l := u.metadata()
			body = append(body, m...)
			u.meta = l
		}
	case "page":
		if strings.HasSuffix(req.URL.Path, "/validators") {
			l := []string{}
			for _, it := range r.Items {
				l = append(l, `{"address":"addr-`+it+`","stakingEndEpoch":1,"poolStake":"2","validatorStake":"3","fixedCost":"4","active":true,"latestSupportedProtocolVersion":3,"latestSupportedProtocolHash":"`+cHex(make([]byte, 32))+`"}`)
			}
			body = []byte(`{"validators":[` + strings.Join(l, ",") + `],"pageSize":10`)
		} else {
			l := []string{}
			for _, it := range r.Items {
				if it == "bad" {
					l = append(l, `"0x1234"`)
				} else {
					id := cLedger().outs[it].id
					l = append(l, strconv.Quote(cHex(id[:])))
				}
			}
			body = []byte(`{"committedSlot":` + r.Slot + `,"pageSize":10,"items":[` + strings.Join(l, ",") + `]`)
		}
		if r.Cursor != "" {
			body = append(body, []byte(`,"cursor":`+strconv.Quote(r.Cursor))...)
		}
		body = append(body, '}')
	case "routes":
		l := []string{}
		for _, it := range r.Items {
			l = append(l, strconv.Quote(it))
		}
		body = []byte(`{"routes":[` + strings.Join(l, ",") + `]}`)
	case "issuer":
		a := iotago.AccountID(keyHash(3)).ToAddress().Bech32("rms")
		if r.Addr == "ed" {
			x := iotago.Ed25519Address(keyHash(3))
			a = x.Bech32("rms")
		} else if r.Addr == "junk" {
			a = "rms1junk"
		}
		body = []byte(`{"blockIssuerAddress":"` + a + `","powTargetTrailingZeros":` + strconv.Itoa(r.Target) + `}`)
	case "info":
		l := []string{}
		for _, it := range r.Items {
			p, ver := map[byte]int{'a': 0, 'b': 1, 'c': 2, 'x': 0}[it[0]], `"version":3`
			if it[0] == 'x' {
				ver = `"version":4`
			}
			j, err := cAPI().JSONEncode(psets[p].Params)
			must(err)
			if !bytes.Contains(j, []byte(`"version":3`)) {
				panic("version not found in " + string(j))
			}
			l = append(l, `{"startEpoch":`+it[1:]+`,"parameters":`+strings.Replace(string(j), `"version":3`, ver, 1)+`}`)
		}
		s, _ := strconv.ParseUint(r.Slot, 10, 32)
		body = []byte(cInfoJSON(strings.Join(l, ","), append(u.g.bytes(32), iotago.SlotIndex(s).MustBytes()...)))
	case "issuance":
		u.rmc = uint64(u.g.r.Intn(3))
		s, _ := strconv.Atoi(r.Slot)
		u.slotN = iotago.SlotIndex(s)
		c := iotago.NewCommitment(3, u.slotN, iotago.CommitmentID(u.g.bytes(36)), iotago.Identifier(u.g.bytes(32)), u.g.r.Uint64(), iotago.Mana(u.rmc))
		id, err := c.ID()
		must(err)
		u.commit = cHex(id[:])
		body = []byte(`{"strongParents":[],"latestParentBlockIssuingTime":"1000000000","latestFinalizedSlot":1,"latestCommitment":{"protocolVersion":3,"slot":` + r.Slot + `,"previousCommitmentId":"` + cHex(c.PreviousCommitmentID[:]) + `","rootsId":"` + cHex(c.RootsID[:]) +
			`","cumulativeWeight":"` + strconv.FormatUint(c.CumulativeWeight, 10) + `","referenceManaCost":"` + strconv.FormatUint(u.rmc, 10) + `"}}`)
	case "created":
		id := u.g.bytes(36)
		u.raw = cHex(id)
		body = []byte(`{"blockId":"` + u.raw + `"}`)
	default:
		panic("body " + r.B)
	}
	return r.St, h, body, kind
}

// metadata of an output: bytes and the leaves
func (u *cRun) metadata() ([]byte, string) {
	g := u.g
	m := &api.OutputMetadata{OutputID: iotago.OutputID(g.bytes(38)), BlockID: iotago.BlockID(g.bytes(36)), LatestCommitmentID: iotago.CommitmentID(g.bytes(36)),
		Included: &api.OutputInclusionMetadata{Slot: iotago.SlotIndex(g.r.Uint32()), TransactionID: iotago.TransactionID(g.bytes(36)), CommitmentID: iotago.CommitmentID(g.bytes(36))}}
	if g.r.Intn(2) == 0 {
		m.Spent = &api.OutputConsumptionMetadata{Slot: iotago.SlotIndex(g.r.Uint32()), TransactionID: iotago.TransactionID(g.bytes(36))}
	}
	b, err := cAPI().Encode(m)
	must(err)
	return b, cMeta(m)
}
func cMeta(m *api.OutputMetadata) string {
	if m == nil || m.Included == nil {
		return "none"
	}
	s := fmt.Sprintf("%x %x %d %x %x %x", m.OutputID[:], m.BlockID[:], m.Included.Slot, m.Included.TransactionID[:], m.Included.CommitmentID[:], m.LatestCommitmentID[:])
	if m.Spent != nil {
		s += fmt.Sprintf(" %d %x %x", m.Spent.Slot, m.Spent.TransactionID[:], m.Spent.CommitmentID[:])
	}
	return s
}

func (u *cRun) handle(req *http.Request, body []byte) (int, http.Header, []byte, string) {
	if len(u.rec.Asked) > 60 { // a client that never stops
		panic("asked for more than sixty replies")
	}
	a := cAsk{Verb: req.Method, Path: req.URL.Path, Accept: req.Header.Get("Accept"), Ctype: req.Header.Get("Content-Type"), Q: [][2]string{}, Host: req.URL.Scheme + "://" + req.URL.Host, Zeros: -1}
	if strings.HasPrefix(a.Path, "/x/") && req.URL.Host == "proxy:99" {
		a.Path = a.Path[2:]
	}
	if usr := req.URL.User; usr != nil {
		a.Auth = usr.String()
	}
	if x := req.Header.Get("Authorization"); x != "" {
		if n, p, ok := req.BasicAuth(); ok {
			a.Auth = n + ":" + p
		} else {
			a.Auth = x
		}
	}
	for id, n := range u.names {
		a.Path = strings.ReplaceAll(a.Path, id, n)
	}
	q, err := url.ParseQuery(req.URL.RawQuery)
	if err != nil {
		a.Q = append(a.Q, [2]string{"?", req.URL.RawQuery})
	}
	for k, vs := range q {
		for _, v := range vs {
			if n, ok := u.names[v]; ok && v != "" {
				v = n
			}
			a.Q = append(a.Q, [2]string{k, v})
		}
	}
	sort.Slice(a.Q, func(i, j int) bool { return a.Q[i][0]+a.Q[i][1] < a.Q[j][0]+a.Q[j][1] })
	if len(body) > 0 {
		a.Body = "other"
		if u.expect != nil && bytes.Equal(body, u.expect) {
			a.Body = u.rec.C.Body
		} else if a.Ctype == "application/json" {
			var m map[string]string
			if json.Unmarshal(body, &m) == nil {
				ks := []string{}
				for k, v := range m {
					ks = append(ks, k+"="+v)
				}
				sort.Strings(ks)
				a.Body = strings.Join(ks, ",")
			}
		}
	}
	if u.extra != nil {
		u.extra(body, req.Header, &a)
	}
	k := len(u.rec.Asked)
	u.rec.Asked = append(u.rec.Asked, a)
	return u.reply(k, req)
}

// setQuery sets the filters of a query by the names they have in a request
func setQuery(q any, qa [][2]string) {
	var walk func(v reflect.Value, name, val string) bool
	walk = func(v reflect.Value, name, val string) bool {
		for i := 0; i < v.NumField(); i++ {
			f, t := v.Field(i), v.Type().Field(i)
			if t.Anonymous {
				if walk(f, name, val) {
					return true
				}
				continue
			}
			n := strings.ToLower(t.Name[:1]) + t.Name[1:]
			if strings.TrimSuffix(n, "Bech32") != name {
				continue
			}
			switch f.Kind() {
			case reflect.String:
				f.SetString(val)
			case reflect.Int:
				x, _ := strconv.ParseInt(val, 10, 64)
				f.SetInt(x)
			case reflect.Uint32:
				x, _ := strconv.ParseUint(val, 10, 64)
				f.SetUint(x)
			case reflect.Ptr:
				x := val == "true"
				f.Set(reflect.ValueOf(&x))
			}
			return true
		}
		return false
	}
	for _, p := range qa {
		if !walk(reflect.ValueOf(q).Elem(), p[0], p[1]) {
			panic("no filter " + p[0])
		}
	}
}

func cQuery(kind string, qa [][2]string) (q nodeclient.IndexerQuery) {
	switch kind {
	case "outputs":
		q = &api.OutputsQuery{}
	case "basic":
		q = &api.BasicOutputsQuery{}
	case "account":
		q = &api.AccountsQuery{}
	case "anchor":
		q = &api.AnchorsQuery{}
	case "foundry":
		q = &api.FoundriesQuery{}
	case "nft":
		q = &api.NFTsQuery{}
	case "delegation":
		q = &api.DelegationOutputsQuery{}
	}
	setQuery(q, qa)
	return q
}

func (u *cRun) run() (val []string, err error) {
	c := u.rec.C
	ctx := context.Background()
	cl, ix, mg, is := u.w.clients[c.Via], u.w.idx[c.Via], u.w.mgmt[c.Via], u.w.iss[c.Via]
	g := u.g
	qa := map[string]string{}
	for _, p := range c.QA {
		qa[p[0]] = p[1]
	}
	for n, o := range cLedger().outs {
		u.names[cHex(o.id[:])] = n
	}
	arg36 := g.bytes(36)
	arg38 := g.bytes(38)
	argOut := iotago.OutputID(arg38)
	if o, ok := cLedger().outs[c.Arg]; ok {
		argOut = o.id
	} else if c.Arg == "@" {
		u.names[cHex(arg36)] = "@"
		u.names[cHex(arg38)] = "@"
	}
	acc := iotago.AccountAddress(g.bytes(32))
	u.names[acc.Bech32(cl.CommittedAPI().ProtocolParameters().Bech32HRP())] = "@"
	com := g.bytes(36)
	u.names[cHex(com)] = "#"
	slot := iotago.SlotIndex(1000000000 + g.r.Uint32()%3000000000)
	u.names[strconv.FormatUint(uint64(slot), 10)] = "@"
	peer := "12D3KooWPeer" + strconv.Itoa(g.r.Int())
	u.names[peer] = "@"
	said := func(v any, e error) ([]string, error) {
		if e != nil {
			return nil, e
		}
		got := []string{}
		cLeaves(u.tree(), reflect.ValueOf(v), "", &got)
		if d := cDiff(u.sent, got); d != "" {
			return []string{"said/got " + d}, nil
		}
		return []string{"said"}, nil
	}
	rawIs := func(v any, e error) ([]string, error) {
		if e != nil {
			return nil, e
		}
		b, e := cAPI().Encode(v)
		if e != nil {
			return []string{"unencodable"}, nil
		}
		if cHex(b) != u.raw {
			return []string{"other than said"}, nil
		}
		return []string{"said"}, nil
	}
	yes := func(b bool, e error) ([]string, error) { return []string{strconv.FormatBool(b)}, e }
	blk := iotago.BlockID(arg36)
	txID := iotago.TransactionID(arg36)
	cID := iotago.CommitmentID(arg36)
	switch c.Op {
	case "call":
		switch c.M {
		case "Health":
			return yes(cl.Health(ctx))
		case "NetworkHealth":
			return yes(cl.NetworkHealth(ctx))
		case "Routes":
			v, e := cl.Routes(ctx)
			return said(v, e)
		case "Info":
			v, e := cl.Info(ctx)
			return said(v, e)
		case "NetworkMetrics":
			v, e := cl.NetworkMetrics(ctx)
			return said(v, e)
		case "SubmitBlock":
			b := u.randBlock()
			u.expect, err = cAPI().Encode(b)
			must(err)
			id, e := cl.SubmitBlock(ctx, b)
			if e != nil {
				return nil, e
			}
			if cHex(id[:]) != u.raw {
				return []string{"another identifier"}, nil
			}
			return []string{"said"}, nil
		case "BlockByBlockID":
			return rawIs(wrap(cl.BlockByBlockID(ctx, blk)))
		case "BlockMetadataByBlockID":
			v, e := cl.BlockMetadataByBlockID(ctx, blk)
			return said(v, e)
		case "BlockWithMetadataByBlockID":
			v, e := cl.BlockWithMetadataByBlockID(ctx, blk)
			if e != nil {
				return nil, e
			}
			if m := cHex(v.Metadata.BlockID[:]) + "/" + strconv.Itoa(int(v.Metadata.BlockState)); m != u.meta {
				return []string{"metadata " + m}, nil
			}
			return rawIs(v.Block, nil)
		case "BlockIssuance":
			v, e := cl.BlockIssuance(ctx)
			return said(v, e)
		case "OutputByID":
			o, e := cl.OutputByID(ctx, argOut)
			return []string{cLedger().contentOf(o)}, e
		case "OutputWithMetadataByID":
			o, m, e := cl.OutputWithMetadataByID(ctx, argOut)
			if e == nil && cMeta(m) != u.meta {
				return []string{"metadata " + cMeta(m)}, nil
			}
			return []string{cLedger().contentOf(o)}, e
		case "OutputMetadataByID":
			v, e := cl.OutputMetadataByID(ctx, argOut)
			return said(v, e)
		case "TransactionByID":
			return rawIs(wrap(cl.TransactionByID(ctx, txID)))
		case "TransactionIncludedBlock":
			return rawIs(wrap(cl.TransactionIncludedBlock(ctx, txID)))
		case "TransactionIncludedBlockMetadata":
			v, e := cl.TransactionIncludedBlockMetadata(ctx, txID)
			return said(v, e)
		case "TransactionMetadata":
			v, e := cl.TransactionMetadata(ctx, txID)
			return said(v, e)
		case "CommitmentByID":
			v, e := cl.CommitmentByID(ctx, cID)
			return said(v, e)
		case "CommitmentUTXOChangesByID":
			v, e := cl.CommitmentUTXOChangesByID(ctx, cID)
			return said(v, e)
		case "CommitmentUTXOChangesFullByID":
			v, e := cl.CommitmentUTXOChangesFullByID(ctx, cID)
			return said(v, e)
		case "CommitmentBySlot":
			v, e := cl.CommitmentBySlot(ctx, slot)
			return said(v, e)
		case "CommitmentUTXOChangesBySlot":
			v, e := cl.CommitmentUTXOChangesBySlot(ctx, slot)
			return said(v, e)
		case "CommitmentUTXOChangesFullBySlot":
			v, e := cl.CommitmentUTXOChangesFullBySlot(ctx, slot)
			return said(v, e)
		case "Congestion":
			ws, _ := strconv.ParseUint(qa["workScore"], 10, 32)
			var opt []iotago.CommitmentID
			if _, ok := qa["commitmentId"]; ok {
				opt = append(opt, iotago.CommitmentID(com))
			}
			v, e := cl.Congestion(ctx, &acc, iotago.WorkScore(ws), opt...)
			return said(v, e)
		case "Validators":
			ps, _ := strconv.ParseUint(qa["pageSize"], 10, 64)
			var opt []string
			if x, ok := qa["cursor"]; ok {
				opt = append(opt, x)
			}
			v, e := cl.Validators(ctx, ps, opt...)
			return said(v, e)
		case "Validator":
			v, e := cl.Validator(ctx, &acc)
			return said(v, e)
		case "Rewards":
			v, e := cl.Rewards(ctx, argOut)
			return said(v, e)
		case "Committee":
			var opt []iotago.EpochIndex
			if x, ok := qa["epoch"]; ok {
				n, _ := strconv.ParseUint(x, 10, 32)
				opt = append(opt, iotago.EpochIndex(n))
			}
			v, e := cl.Committee(ctx, opt...)
			return said(v, e)
		case "PeerByID":
			v, e := mg.PeerByID(ctx, peer)
			return said(v, e)
		case "RemovePeerByID":
			return []string{}, mg.RemovePeerByID(ctx, peer)
		case "Peers":
			v, e := mg.Peers(ctx)
			return said(v, e)
		case "AddPeer":
			var opt []string
			if strings.HasPrefix(c.Body, "alias=") {
				opt = append(opt, "me")
			}
			v, e := mg.AddPeer(ctx, "/ip4/x", opt...)
			return said(v, e)
		case "BlockIssuerInfo":
			v, e := is.Info(ctx)
			return said(v, e)
		}
		panic(c.M)
	case "validators":
		var opt []int
		if c.Max >= 0 {
			opt = append(opt, c.Max)
		}
		v, all, e := cl.ValidatorsAll(ctx, opt...)
		if e != nil {
			return nil, e
		}
		out := []string{}
		for _, x := range v.Validators {
			out = append(out, strings.TrimPrefix(x.AddressBech32, "addr-"))
		}
		if all {
			return append(out, "all"), nil
		}
		return append(out, "part"), nil
	case "pages":
		out := []string{}
		rs, e := ix.Outputs(ctx, cQuery(c.Kind, c.QA))
		if e != nil {
			return out, e
		}
		for n := 0; rs.Next(); n++ {
			if n > 50 {
				return append(out, "..."), nil
			}
			for _, it := range rs.Response.Items {
				if nm, ok := u.names[string(it)]; ok {
					out = append(out, nm)
				} else {
					out = append(out, "bad")
				}
			}
			out = append(out, "|")
			if c.Fetch == 1 {
				os, e := rs.Outputs(ctx)
				if e != nil {
					return out, e
				}
				for _, o := range os {
					out = append(out, cLedger().contentOf(o))
				}
				out = append(out, "|")
			}
		}
		if rs.Error != nil {
			return out, rs.Error
		}
		return append(out, "end"), nil
	case "single":
		var id *iotago.OutputID
		var o iotago.Output
		var s iotago.SlotIndex
		switch c.Kind {
		case "account":
			id, o, s, err = single(ix.Account(ctx, &acc))
		case "anchor":
			a := iotago.AnchorAddress(g.bytes(32))
			u.names[a.Bech32(cl.CommittedAPI().ProtocolParameters().Bech32HRP())] = "@"
			id, o, s, err = single(ix.Anchor(ctx, &a))
		case "nft":
			a := iotago.NFTAddress(g.bytes(32))
			u.names[a.Bech32(cl.CommittedAPI().ProtocolParameters().Bech32HRP())] = "@"
			id, o, s, err = single(ix.NFT(ctx, &a))
		case "foundry":
			a := iotago.FoundryID(g.bytes(38))
			u.names[cHex(a[:])] = "@"
			id, o, s, err = single(ix.Foundry(ctx, a))
		case "delegation":
			a := iotago.DelegationID(g.bytes(32))
			u.names[cHex(a[:])] = "@"
			id, o, s, err = single(ix.Delegation(ctx, a))
		}
		if err != nil {
			return nil, err
		}
		return []string{u.names[cHex(id[:])], cLedger().contentOf(o), strconv.Itoa(int(s))}, nil
	case "plugin":
		switch c.M {
		case "Management":
			_, err = cl.Management(ctx)
		case "Indexer":
			_, err = cl.Indexer(ctx)
		case "EventAPI":
			_, err = cl.EventAPI(ctx)
		case "BlockIssuer":
			_, err = cl.BlockIssuer(ctx)
		}
		return []string{}, err
	case "init":
		n, e := u.w.dial(c.Via)
		if e != nil {
			return nil, e
		}
		a := n.CommittedAPI()
		if a == nil {
			return []string{"no rules"}, nil
		}
		for _, p := range psets {
			if a.ProtocolParameters().Equals(p.Params) {
				return []string{p.Name}, nil
			}
		}
		return []string{"other rules"}, nil
	case "issue":
		u.rec.C.Body = "payload"
		u.extra = func(body []byte, h http.Header, a *cAsk) {
			if a.Verb != "POST" {
				return
			}
			a.Commit = "other"
			if h.Get("X-IOTA-BlockIssuer-Commitment-ID") == u.commit {
				a.Commit = "told"
			}
			n, e := strconv.ParseUint(h.Get("X-IOTA-BlockIssuer-PoW-Nonce"), 10, 64)
			if e == nil {
				d := blake2b.Sum256(body)
				a.Zeros = powZeros(d[:], n)
			}
			if c.Kind == "builder" {
				a.Body = "other"
				if bytes.Equal(body, u.built()) {
					a.Body = "payload"
				}
			}
		}
		var res *api.BlockCreatedResponse
		if c.Kind == "payload" {
			p := &iotago.TaggedData{Tag: g.bytes(1 + g.r.Intn(9)), Data: g.bytes(1 + g.r.Intn(40))}
			u.expect, err = cAPI().Encode(p)
			must(err)
			u.commit = cHex(com)
			res, err = is.SendPayload(ctx, p, iotago.CommitmentID(com), 1+g.r.Intn(3))
		} else {
			var p iotago.ApplicationPayload
			p, res, err = is.SendPayloadWithTransactionBuilder(ctx, u.txBuilder(), 0, 1+g.r.Intn(3))
			if err == nil {
				b, e := cAPI().Encode(p)
				must(e)
				if !bytes.Equal(b, u.built()) {
					return []string{"another payload"}, nil
				}
			}
		}
		if err != nil {
			return nil, err
		}
		if cHex(res.BlockID[:]) != u.raw {
			return []string{"another block"}, nil
		}
		return []string{"b1"}, nil
	}
	panic(c.Op)
}

// a transaction being built that stores what mana is left in its only output
func (u *cRun) txBuilder() *builder.TransactionBuilder {
	a := iotago.Ed25519Address(keyHash(1))
	out := func(mana iotago.Mana) *iotago.BasicOutput {
		return &iotago.BasicOutput{Amount: 1000000, Mana: mana, UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: &a}}, Features: iotago.BasicOutputFeatures{}}
	}
	tb := builder.NewTransactionBuilder(cAPI(), iotago.NewInMemoryAddressSigner(iotago.AddressKeys{Address: &a, Keys: ed25519.PrivateKey(privKeys[1])}))
	tb.AddInput(&builder.TxInput{UnlockTarget: &a, InputID: iotago.OutputID(append(iotago.SlotIndex(2).MustBytes(), make([]byte, 34)...)), Input: out(1 << 40)}).AddOutput(out(0))
	if u.rec.Seed%2 == 0 {
		tb.SetCreationSlot(10)
	}
	return tb
}

func (u *cRun) built() []byte {
	tb := u.txBuilder()
	if tb.CreationSlot() == 0 {
		tb.SetCreationSlot(u.slotN)
	}
	tb.AllotMinRequiredManaAndStoreRemainingManaInOutput(tb.CreationSlot(), iotago.Mana(u.rmc), iotago.AccountID(keyHash(3)), 0)
	tx, err := tb.Build()
	must(err)
	b, err := cAPI().Encode(tx)
	must(err)
	return b
}

func wrap[T any](v T, err error) (any, error) { return v, err }
func single[T iotago.Output](id *iotago.OutputID, o T, s iotago.SlotIndex, err error) (*iotago.OutputID, iotago.Output, iotago.SlotIndex, error) {
	return id, o, s, err
}

// panickedIn names the package whose code panicked (not the runtime or reflection on its behalf)
func panickedIn() string {
	pcs := make([]uintptr, 64)
	fs := runtime.CallersFrames(pcs[:runtime.Callers(1, pcs)])
	for seen := false; ; {
		f, more := fs.Next()
		if f.Function == "runtime.gopanic" {
			seen = true
		} else if seen && !strings.HasPrefix(f.Function, "runtime.") && !strings.HasPrefix(f.Function, "reflect.") {
			p := f.Function
			i := strings.LastIndex(p, "/")
			return p[:i+1+strings.Index(p[i+1:], ".")]
		}
		if !more {
			return "?"
		}
	}
}

func (w *cWorker) execute(rec *cRec) {
	u := &cRun{w: w, rec: rec, g: &cGen{r: rand.New(rand.NewSource(rec.Seed))}, names: map[string]string{}, vals: map[string]string{}}
	if rec.F == nil {
		rec.F = []string{}
	}
	if rec.C.QA == nil {
		rec.C.QA = [][2]string{}
	}
	rec.Asked = []cAsk{}
	w.s.handle = u.handle
	var val []string
	err, panicked := guard(func() (e error) {
		defer func() {
			if x := recover(); x != nil {
				rec.At = panickedIn()
				panic(x)
			}
		}()
		val, e = u.run()
		return
	})
	rec.Out = cOut{Ok: 1, Val: val}
	if err != nil {
		rec.Out.Ok, rec.Out.Err = 0, cErr(err)
		if panicked {
			rec.Out.Err = "panic"
		}
		rec.Why = strings.TrimSpace(rec.Why + " " + errStr(err))
		if rec.C.Op != "pages" {
			rec.Out.Val = nil
		}
	}
	if rec.Out.Val == nil {
		rec.Out.Val = []string{}
	}
}

func clientCmd(in, out, _ string, seed int64, n int) {
	var recs []*cRec
	readLines(in, func(b []byte) {
		r := &cRec{}
		must(json.Unmarshal(b, r))
		if n > 0 && r.Seed == 0 {
			r.Seed = seed*1000003 + int64(len(recs)) + 1
		}
		recs = append(recs, r)
	})
	const lanes = 8
	parallel(lanes, func(l int) {
		w := newCWorker()
		for i := l; i < len(recs); i += lanes {
			w.execute(recs[i])
		}
	})
	vs := make([]any, len(recs))
	for i := range recs {
		vs[i] = recs[i]
	}
	writeLines(out, vs)
}
