package main

// Histories of the event client against a scripted broker.

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	mqtt "github.com/eclipse/paho.mqtt.golang"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
	"github.com/iotaledger/iota.go/v4/nodeclient"
)

func init() { commands["events"] = eventsCmd }

type evRes struct {
	V     string   `json:"v"`
	Msg   int      `json:"msg"`
	Topic []string `json:"topic"`
	QoS   int      `json:"qos"`
	Chan  int      `json:"chan"`
	Unsub int      `json:"unsub"`
	Err   string   `json:"err"`
}

type evOp struct {
	Op   string `json:"op"`
	M    string `json:"m"`
	Cond string `json:"cond"`
	Arg  int    `json:"arg"`
	S    int    `json:"s"`
	Cls  string `json:"cls"`
	Ans  string `json:"ans"`
	Res  evRes  `json:"res"`
}

type evRec struct {
	H     []*evOp `json:"h"`
	Stuck int     `json:"stuck"`
	Mute  int     `json:"mute"` // nobody reads the errors
	Slow  int     `json:"slow"` // a consumer takes its time
	Left  int     `json:"left"`
}

// evWait: how long what must happen is waited for; less once it did not a few times
func evWait() time.Duration {
	if evStuck.Load() > 4 {
		return 100 * time.Millisecond
	}
	return 15 * time.Second
}

var evStuck atomic.Int32


var errRefused = errors.New("refused")

type evToken struct{ err error }

func (t *evToken) Wait() bool                     { return true }
func (t *evToken) WaitTimeout(time.Duration) bool { return true }
func (t *evToken) Done() <-chan struct{}          { c := make(chan struct{}); close(c); return c }
func (t *evToken) Error() error                   { return t.err }

type evMsg struct {
	topic string
	b     []byte
}

func (m *evMsg) Duplicate() bool   { return false }
func (m *evMsg) Qos() byte         { return 2 }
func (m *evMsg) Retained() bool    { return false }
func (m *evMsg) Topic() string     { return m.topic }
func (m *evMsg) MessageID() uint16 { return 1 }
func (m *evMsg) Payload() []byte   { return m.b }
func (m *evMsg) Ack()              {}

// evBroker routes by topic; the last handler of a topic has it
type evBroker struct {
	mu       sync.Mutex
	up       bool
	ans      error
	handlers map[string]mqtt.MessageHandler
	asked    []string // topics of the call under way
	qos      byte
	unsub    []string
}

func (b *evBroker) IsConnected() bool      { return b.up }
func (b *evBroker) IsConnectionOpen() bool { return b.up }
func (b *evBroker) Connect() mqtt.Token {
	b.up = b.ans == nil
	if !b.up {
		b.handlers = map[string]mqtt.MessageHandler{}
	}
	return &evToken{b.ans}
}
func (b *evBroker) Disconnect(uint) {
	b.up = false
	b.handlers = map[string]mqtt.MessageHandler{}
}
func (b *evBroker) Publish(string, byte, bool, interface{}) mqtt.Token { return &evToken{errRefused} }
func (b *evBroker) Subscribe(topic string, qos byte, h mqtt.MessageHandler) mqtt.Token {
	b.asked, b.qos = append(b.asked, topic), qos
	if b.ans == nil {
		b.handlers[topic] = h
	}
	return &evToken{b.ans}
}
func (b *evBroker) SubscribeMultiple(f map[string]byte, h mqtt.MessageHandler) mqtt.Token {
	for t, q := range f {
		b.Subscribe(t, q, h)
	}
	return &evToken{b.ans}
}
func (b *evBroker) Unsubscribe(topics ...string) mqtt.Token {
	for _, t := range topics {
		b.unsub = append(b.unsub, t)
		if b.ans == nil {
			delete(b.handlers, t)
		}
	}
	return &evToken{b.ans}
}
func (b *evBroker) AddRoute(string, mqtt.MessageHandler)    {}
func (b *evBroker) OptionsReader() mqtt.ClientOptionsReader { return mqtt.ClientOptionsReader{} }

type evSub struct {
	ch      reflect.Value // channel of objects
	sub     *nodeclient.EventAPIClientSubscription
	topic   string
	handler mqtt.MessageHandler
	running atomic.Int32
}

func evBytes(n int, k ...int) []byte {
	h := hash32([]byte(fmt.Sprint("verif event", k)))
	out := h[:]
	for len(out) < n {
		out = append(out, h[:]...)
	}
	return append([]byte(nil), out[:n]...)
}

// evPayload: the binary form of message n of the event
func evPayload(typ string, n int) ([]byte, error) {
	a := cAPI()
	slot := iotago.SlotIndex(1000 + n)
	var x any
	switch typ {
	case "iotago.Commitment":
		x = iotago.NewCommitment(a.Version(), slot, iotago.CommitmentID(evBytes(36, n, 1)), iotago.Identifier(evBytes(32, n, 2)), uint64(n), iotago.Mana(n*n))
	case "iotago.Block":
		b := &iotago.Block{API: a, Header: iotago.BlockHeader{ProtocolVersion: a.Version(), NetworkID: a.ProtocolParameters().NetworkID(), IssuingTime: a.TimeProvider().SlotStartTime(slot),
			SlotCommitmentID: iotago.NewCommitmentID(slot-15, iotago.Identifier(evBytes(32, n))), IssuerID: iotago.AccountID(evBytes(32, n, 5))},
			Signature: &iotago.Ed25519Signature{}}
		if n%2 == 0 {
			b.Body = &iotago.BasicBlockBody{API: a, StrongParents: iotago.BlockIDs{iotago.BlockID(evBytes(36, n))}, WeakParents: iotago.BlockIDs{}, ShallowLikeParents: iotago.BlockIDs{},
				Payload: &iotago.TaggedData{Tag: evBytes(3, n), Data: evBytes(n%9+1, n)}, MaxBurnedMana: iotago.Mana(n)}
		} else {
			b.Body = &iotago.ValidationBlockBody{API: a, StrongParents: iotago.BlockIDs{iotago.BlockID(evBytes(36, n))}, WeakParents: iotago.BlockIDs{}, ShallowLikeParents: iotago.BlockIDs{},
				HighestSupportedVersion: a.Version(), ProtocolParametersHash: iotago.Identifier(evBytes(32, n))}
		}
		x = b
	case "api.TransactionMetadataResponse":
		x = &api.TransactionMetadataResponse{TransactionID: iotago.TransactionID(evBytes(36, n)), TransactionState: api.TransactionStatePending, EarliestAttachmentSlot: slot, TransactionFailureReason: api.TransactionFailureReason(n % 2), TransactionFailureDetails: strings.Repeat("x", n%4)}
	case "api.BlockMetadataResponse":
		x = &api.BlockMetadataResponse{BlockID: iotago.BlockID(evBytes(36, n)), BlockState: api.BlockStatePending}
	case "api.OutputWithMetadataResponse":
		o := &iotago.BasicOutput{Amount: iotago.BaseToken(1_000_000 + n), UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: iotago.Ed25519AddressFromPubKey(pubKey(1))}}, Features: iotago.BasicOutputFeatures{}}
		p, err := iotago.NewOutputIDProof(a, iotago.Identifier(evBytes(32, n)), slot, iotago.TxEssenceOutputs{o}, 0)
		if err != nil {
			return nil, err
		}
		id, err := p.OutputID(o)
		if err != nil {
			return nil, err
		}
		x = &api.OutputWithMetadataResponse{Output: o, OutputIDProof: p, Metadata: &api.OutputMetadata{OutputID: id, BlockID: iotago.BlockID(evBytes(36, n, 7)),
			Included: &api.OutputInclusionMetadata{Slot: slot, TransactionID: id.TransactionID(), CommitmentID: iotago.CommitmentID(evBytes(36, n, 8))}, LatestCommitmentID: iotago.CommitmentID(evBytes(36, n, 9))}}
	default:
		return nil, fmt.Errorf("event of kind %s", typ)
	}
	return a.Encode(x)
}

type evRun struct {
	rec    *evRec
	eac    *nodeclient.EventAPIClient
	br     *evBroker
	ctx    context.Context
	cancel context.CancelFunc
	subs   []*evSub
	sent   map[string]int // payload -> message
	wg     sync.WaitGroup
}

func evTag(n int) []byte { return evBytes(n*n*3, n) }

// arg: the argument of a subscription and how it is written in a topic
func (u *evRun) arg(o *evOp) (args []reflect.Value, text string) {
	hrp := cAPI().ProtocolParameters().Bech32HRP()
	id := func(x any, b []byte) {
		args, text = []reflect.Value{reflect.ValueOf(x)}, "0x"+hex.EncodeToString(b)
	}
	switch o.M {
	case "BlocksBasicWithTaggedDataByTag", "BlocksBasicWithTransactionsWithTaggedDataByTag":
		id(evTag(o.Arg), evTag(o.Arg))
	case "BlockMetadataTransactionIncludedBlocksByTransactionID", "TransactionMetadataByTransactionID":
		b := evBytes(36, o.Arg)
		id(iotago.TransactionID(b), b)
	case "BlockMetadataByBlockID":
		b := evBytes(36, o.Arg)
		id(iotago.BlockID(b), b)
	case "OutputWithMetadataByOutputID":
		b := evBytes(38, o.Arg)
		id(iotago.OutputID(b), b)
	case "OutputsWithMetadataByFoundryID":
		b := evBytes(38, o.Arg)
		id(iotago.FoundryID(b), b)
	case "OutputsWithMetadataByDelegationID":
		b := evBytes(32, o.Arg)
		id(iotago.DelegationID(b), b)
	case "OutputsWithMetadataByAccountID":
		b := evBytes(32, o.Arg)
		id(iotago.AccountID(b), b)
		a := iotago.AccountAddress(b)
		text = a.Bech32(hrp)
	case "OutputsWithMetadataByAnchorID":
		b := evBytes(32, o.Arg)
		id(iotago.AnchorID(b), b)
		a := iotago.AnchorAddress(b)
		text = a.Bech32(hrp)
	case "OutputsWithMetadataByNFTID":
		b := evBytes(32, o.Arg)
		id(iotago.NFTID(b), b)
		a := iotago.NFTAddress(b)
		text = a.Bech32(hrp)
	case "OutputsWithMetadataByUnlockConditionAndAddress":
		var a iotago.Address
		switch o.Arg {
		case 1:
			a = iotago.Ed25519AddressFromPubKey(pubKey(1))
		case 2:
			x := iotago.AccountAddress(evBytes(32, 2))
			a = &iotago.RestrictedAddress{Address: &x, AllowedCapabilities: iotago.AddressCapabilitiesBitMask{1}}
		default:
			x := iotago.ImplicitAccountCreationAddress(evBytes(32, 3))
			a = &x
		}
		args, text = []reflect.Value{reflect.ValueOf(api.EventAPIUnlockCondition(o.Cond)), reflect.ValueOf(a)}, a.Bech32(hrp)
	}
	return
}

func (u *evRun) subscribe(o *evOp) {
	s := &evSub{}
	u.subs = append(u.subs, s)
	u.br.asked, u.br.ans = nil, nil
	if o.Ans != "ok" {
		u.br.ans = errRefused
	}
	args, text := u.arg(o)
	var out []reflect.Value
	err, p := guard(func() (e error) {
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(error); ok && errorsIs(x, nodeclient.ErrEventAPIClientInactive) {
					e = x
					return
				}
				panic(r)
			}
		}()
		out = reflect.ValueOf(u.eac).MethodByName(o.M).Call(args)
		return nil
	})
	switch {
	case p:
		o.Res.V, o.Res.Err = "panic", errStr(err)
		return
	case err != nil:
		o.Res.V = "inactive"
		o.Res.Chan = flag01(len(u.br.asked) > 0)
		return
	}
	s.ch, s.sub = out[0], out[1].Interface().(*nodeclient.EventAPIClientSubscription)
	if e := s.sub.Error(); e != nil {
		o.Res.V, o.Res.Chan = "err", flag01(!s.ch.IsNil())
		if !errorsIs(e, errRefused) {
			o.Res.Err = errStr(e)
		}
		return
	}
	o.Res.V, o.Res.QoS = "ok", int(u.br.qos)
	if len(u.br.asked) == 1 {
		s.topic = u.br.asked[0]
		s.handler = u.br.handlers[s.topic]
		for _, x := range strings.Split(s.topic, "/") {
			if x == text {
				x = "<bech32>"
				if strings.HasPrefix(text, "0x") {
					x = "<hex>"
				}
			}
			o.Res.Topic = append(o.Res.Topic, x)
		}
	}
}

func (u *evRun) publish(n int, o *evOp) {
	s := u.subs[o.S-1]
	h := u.br.handlers[s.topic]
	if s.topic == "" || h == nil || reflect.ValueOf(h).Pointer() == 0 || !u.owns(s) {
		o.Res.V = "nobody"
		return
	}
	typ := s.ch.Type().Elem().Elem().String()
	raw, err := evPayload(typ, n)
	must(err)
	u.sent[string(raw)] = n
	switch o.Cls {
	case "cut":
		raw = raw[:len(raw)-1-n%3]
	case "empty":
		raw = nil
	case "version":
		raw = append([]byte{byte(90 + n)}, raw[1:]...)
	}
	done := make(chan struct{})
	s.running.Add(1)
	go func() {
		defer close(done)
		defer s.running.Add(-1)
		_, p := guard(func() error { h(u.br, &evMsg{s.topic, raw}); return nil })
		if p {
			o.Res.V = "panic"
		}
	}()
	if o.Cls == "valid" {
		if u.ctx.Err() != nil { // nobody waits for it any more: let it end
			select {
			case <-done:
			case <-time.After(evWait()):
				o.Res.V = "stuck"
			}
		}
		if o.Res.V == "" {
			o.Res.V = "ok"
		}
		return
	}
	select {
	case <-done:
	case <-time.After(evWait()):
		o.Res.V = "stuck"
		return
	}
	if o.Res.V == "panic" {
		return
	}
	o.Res.V = "silent"
	if u.rec.Mute == 1 { // nobody listens, so that it is enough that nothing hangs
		o.Res.V = "reported"
		return
	}
	for {
		select {
		case e := <-u.eac.Errors:
			if e != nil {
				o.Res.V = "reported"
			}
			continue
		default:
		}
		return
	}
}

// owns: the topic of s is still routed to s
func (u *evRun) owns(s *evSub) bool {
	for k := len(u.subs) - 1; k >= 0; k-- {
		if u.subs[k].topic == s.topic {
			return u.subs[k] == s
		}
	}
	return false
}

func (u *evRun) receive(o *evOp) {
	s := u.subs[o.S-1]
	if u.rec.Slow == 1 && s.running.Load() > 0 {
		time.Sleep(6 * time.Second)
		u.rec.Slow = 2
	}
	end := time.Now().Add(evWait())
	for {
		idle := s.running.Load() == 0
		v, ok := s.ch.TryRecv()
		if v.IsValid() && (ok || v.IsZero()) {
			if !ok {
				o.Res.V = "closed"
				return
			}
			raw, err := cAPI().Encode(v.Interface())
			o.Res.V, o.Res.Msg = "msg", -1
			if err == nil {
				if n, known := u.sent[string(raw)]; known {
					o.Res.Msg = n
				}
			}
			return
		}
		if idle {
			o.Res.V = "nothing"
			return
		}
		if time.Now().After(end) {
			o.Res.V = "stuck"
			return
		}
		time.Sleep(50 * time.Microsecond)
	}
}

// settle: all deliveries have ended
func (u *evRun) settle() bool {
	end := time.Now().Add(evWait())
	for {
		busy := false
		for _, s := range u.subs {
			busy = busy || s.running.Load() > 0
		}
		if !busy || time.Now().After(end) {
			return !busy
		}
		time.Sleep(50 * time.Microsecond)
	}
}

func (u *evRun) run() {
	for i, o := range u.rec.H {
		o.Res.Topic = []string{}
		switch o.Op {
		case "connect":
			u.br.ans = nil
			if o.Ans != "ok" {
				u.br.ans = errRefused
			}
			u.ctx, u.cancel = context.WithCancel(context.Background())
			o.Res.V = "ok"
			if err := u.eac.Connect(u.ctx); err != nil {
				o.Res.V = "err"
			}
		case "sub":
			u.subscribe(o)
		case "pub":
			u.publish(i+1, o)
		case "recv":
			u.receive(o)
		case "close":
			s := u.subs[o.S-1]
			u.br.unsub, u.br.ans = nil, nil
			if o.Ans != "ok" {
				u.br.ans = errRefused
			}
			o.Res.V = "err"
			if s.sub != nil {
				err, p := guard(s.sub.Close)
				if p {
					o.Res.V = "panic"
				} else if err == nil {
					o.Res.V = "ok"
					o.Res.Unsub = flag01(len(u.br.unsub) == 1 && u.br.unsub[0] == s.topic)
				}
			}
		case "cancel":
			u.cancel()
			o.Res.V = "ok"
			if !u.settle() {
				o.Res.V = "stuck"
			}
		case "disconnect":
			o.Res.V = "ok"
			if _, p := guard(func() error { u.eac.Close(); return nil }); p {
				o.Res.V = "panic"
			}
			if u.br.up {
				o.Res.V = "still connected"
			}
		}
		if o.Res.V == "stuck" {
			evStuck.Add(1)
			u.rec.Stuck = 1
			break
		}
		if o.Res.V == "panic" {
			break
		}
	}
	for _, o := range u.rec.H {
		if o.Res.Topic == nil {
			o.Res.Topic = []string{}
		}
	}
	u.cancel()
	if !u.settle() {
		u.rec.Left = 1
		evStuck.Add(1)
	}
}

type evBrokerRec struct {
	Scheme string   `json:"scheme"`
	Rest   string   `json:"rest"`
	Got    []string `json:"got"`
	Order  int      `json:"order"`
}

func eventsCmd(in, out, _ string, seed int64, n int) {
	var recs []*evRec
	readLines(in, func(b []byte) {
		r := &evRec{}
		must(json.Unmarshal(b, r))
		recs = append(recs, r)
	})
	w := newCWorker()
	client := w.clients["plain"]
	var slow sync.WaitGroup
	for i, r := range recs {
		r.Mute = (i + int(seed)) % 2
		if len(recs) > 1 {
			r.Slow = flag01((i+int(seed))%97 == 0)
		}
	}
	one := func(i int) {
		u := &evRun{rec: recs[i], br: &evBroker{handlers: map[string]mqtt.MessageHandler{}}, sent: map[string]int{}, cancel: func() {}}
		u.eac = &nodeclient.EventAPIClient{Client: client, MQTTClient: u.br, Errors: make(chan error, 1000*(1-recs[i].Mute))}
		u.run()
	}
	parallel(len(recs), func(i int) {
		if recs[i].Slow == 0 {
			one(i)
			return
		}
		slow.Add(1)
		go func() {
			defer slow.Done()
			one(i)
		}()
	})
	slow.Wait()
	vs := make([]any, len(recs))
	for i := range recs {
		vs[i] = recs[i]
	}
	for _, b := range [][2]string{{"http", "node:14265"}, {"https", "node.example"}, {"https", "node.example:443/sub"}, {"http", "127.0.0.1/https"}} {
		r := &evBrokerRec{Scheme: b[0], Rest: b[1], Got: []string{}}
		c, err := nodeclient.New(b[0]+"://"+b[1], nodeclient.WithHTTPClient(&http.Client{Transport: w.s}))
		must(err)
		e, err := c.EventAPI(context.Background())
		must(err)
		opts := e.MQTTClient.OptionsReader()
		for _, s := range opts.Servers() {
			r.Got = append(r.Got, s.String())
		}
		r.Order = flag01(opts.Order())
		vs = append(vs, r)
	}
	writeLines(out, vs)
}
