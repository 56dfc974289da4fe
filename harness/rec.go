package main

import (
	"encoding/json"
	"math"
	"reflect"
)

// The abstract vocabulary shared with the TLA+ specification. A Rec describes
// one transaction in context; the same JSON is produced by TLC (enumerated
// cases), by the random generators, and consumed by TLC (validation).

// maxTick stands for the maximum uint32 on the wire (TLC integers are 32 bit).
const maxTick = math.MaxInt32

type Addr struct {
	K    string // ed imp acc anc nft multi restr
	N    int    // key number / chain symbol
	In   *Addr  // restr
	Bm   []int  // restr bitmask bytes
	Thr  int    // multi
	Subs []Sub  // multi
}
type Sub struct {
	A Addr
	W int
	R int // rank of the address among the subs by its ID bytes (set by the harness)
}

func (a Addr) MarshalJSON() ([]byte, error) {
	m := map[string]any{"k": a.K}
	switch a.K {
	case "restr":
		m["in"] = a.In
		m["bm"] = ints(a.Bm)
	case "multi":
		m["thr"] = a.Thr
		subs := []map[string]any{}
		for _, s := range a.Subs {
			subs = append(subs, map[string]any{"a": s.A, "w": s.W, "r": s.R})
		}
		m["subs"] = subs
	default:
		m["n"] = a.N
	}
	return json.Marshal(m)
}

func ints(x []int) []int {
	if x == nil {
		return []int{}
	}
	return x
}

// UC is an unlock condition, k is its type number.
type UC struct {
	K    int
	A    Addr
	Amt  Num
	Slot int
}

func (u UC) MarshalJSON() ([]byte, error) {
	m := map[string]any{"k": u.K}
	switch u.K {
	case 0, 4, 5, 6:
		m["a"] = u.A
	case 1:
		m["a"] = u.A
		m["amt"] = u.Amt
	case 2:
		m["slot"] = u.Slot
	case 3:
		m["a"] = u.A
		m["slot"] = u.Slot
	}
	return json.Marshal(m)
}

type Ent struct {
	Key int `json:"key"` // content id of the key
	KL  int `json:"kl"`  // key length
	V   int `json:"v"`   // content id of the value
	VL  int `json:"vl"`  // value length
	Bad int `json:"bad"` // 1: key has non printable characters
}
type FID struct {
	Acc int `json:"acc"`
	Sn  int `json:"sn"`
	Sch int `json:"sch"`
}

type KeyR struct {
	N int `json:"n"`
	R int `json:"r"`
}

// Ft is a feature, k is its type number.
type Ft struct {
	K     int
	A     Addr
	Ents  []Ent
	Tag   int
	Len   int
	ID    FID
	Amt   Num
	Exp   int
	Keys  []KeyR
	Cost  Num
	Start int
	End   int
}

func (f Ft) MarshalJSON() ([]byte, error) {
	m := map[string]any{"k": f.K}
	switch f.K {
	case 0, 1:
		m["a"] = f.A
	case 2, 3:
		e := f.Ents
		if e == nil {
			e = []Ent{}
		}
		m["ents"] = e
	case 4:
		m["tag"] = f.Tag
		m["len"] = f.Len
	case 5:
		m["id"] = f.ID
		m["amt"] = f.Amt
	case 6:
		m["exp"] = f.Exp
		k := f.Keys
		if k == nil {
			k = []KeyR{}
		}
		m["keys"] = k
	case 7:
		m["amt"] = f.Amt
		m["cost"] = f.Cost
		m["start"] = f.Start
		m["end"] = f.End
	}
	return json.Marshal(m)
}

type Out struct {
	T      string // basic account anchor foundry nft deleg
	Amt    Num
	Mana   Num
	ID     int // chain symbol, 0 = unset
	UC     []UC
	Ft     []Ft
	Imf    []Ft
	Fc     int // account foundry counter
	Si     int // anchor state index
	Sn     int // foundry serial
	Sch    int
	Minted Num
	Melted Num
	Max    Num
	DAmt   Num // delegated amount
	Val    int // validator account symbol
	Start  int
	End    int
}

func (o Out) MarshalJSON() ([]byte, error) {
	uc, ft, imf := o.UC, o.Ft, o.Imf
	if uc == nil {
		uc = []UC{}
	}
	if ft == nil {
		ft = []Ft{}
	}
	if imf == nil {
		imf = []Ft{}
	}
	m := map[string]any{"t": o.T, "amt": o.Amt, "mana": o.Mana, "id": o.ID, "uc": uc, "ft": ft, "imf": imf}
	switch o.T {
	case "account":
		m["fc"] = o.Fc
	case "anchor":
		m["si"] = o.Si
	case "foundry":
		m["sn"] = o.Sn
		m["sch"] = o.Sch
		m["minted"] = o.Minted
		m["melted"] = o.Melted
		m["max"] = o.Max
	case "deleg":
		m["damt"] = o.DAmt
		m["val"] = o.Val
		m["start"] = o.Start
		m["end"] = o.End
	}
	return json.Marshal(m)
}

type In struct {
	Slot int `json:"slot"` // creation slot of the consumed output
	Tx   int `json:"tx"`   // number of the creating transaction
	Idx  int `json:"idx"`  // output index
	Own  int `json:"own"`  // chain symbol derived from this output's ID
	Out  Out `json:"out"`
}

type Ctx struct {
	K   string // cmt bic rew
	Acc int
	Idx int
	R   int // rank in lexical order of account ids (bic), set by the harness
}

func (c Ctx) MarshalJSON() ([]byte, error) {
	m := map[string]any{"k": c.K}
	switch c.K {
	case "bic":
		m["acc"] = c.Acc
		m["r"] = c.R
	case "rew":
		m["idx"] = c.Idx
	}
	return json.Marshal(m)
}

type Allot struct {
	Acc  int `json:"acc"`
	Mana Num `json:"mana"`
	R    int `json:"r"`
}
type Bic struct {
	Acc int `json:"acc"`
	V   int `json:"v"`
}
type Rew struct {
	I    int `json:"i"` // input (1-based) whose chain is rewarded
	Mana Num `json:"mana"`
}

// Unl is an unlock. Sig: key, bad (0 = correct signature over this transaction).
type Unl struct {
	K    string // sig ref acc anc nft multi empty
	Key  int
	Bad  int // 0 good; 1 other message; 2 bit flip; 3 signed by another key
	I    int // referenced index (0-based as on the wire)
	Subs []Unl
}

func (u Unl) MarshalJSON() ([]byte, error) {
	m := map[string]any{"k": u.K}
	switch u.K {
	case "sig":
		m["key"] = u.Key
		m["bad"] = u.Bad
	case "multi":
		s := u.Subs
		if s == nil {
			s = []Unl{}
		}
		m["subs"] = s
	case "empty":
	default:
		m["i"] = u.I
	}
	return json.Marshal(m)
}

type Tx struct {
	Slot  int     `json:"slot"`
	Net   int     `json:"net"` // 1: right network id
	Ctx   []Ctx   `json:"ctx"`
	Caps  []int   `json:"caps"`
	Allot []Allot `json:"allot"`
	Outs  []Out   `json:"outs"`
	PTag  int     `json:"ptag"`  // payload tag length, -1: no payload
	PData int     `json:"pdata"` // payload data length
}

type Res struct {
	Syn    string `json:"syn"` // ok / error class
	SynE   string `json:"-"`
	Dec    string `json:"dec"` // verdict of decoding the bytes with validation
	RT     int    `json:"rt"`  // 1: decoding gives back an object with the same encoding
	Size   int    `json:"size"`
	Len    int    `json:"len"`
	Vm     string `json:"vm"` // ok / error class / none
	Err    string `json:"err"`
	Panic  int    `json:"panic"`
	OSize  []int  `json:"osize"`  // reported sizes of the outputs
	OLen   []int  `json:"olen"`   // encoded lengths of the outputs
	Score  []Num  `json:"score"`  // reported storage scores
	Work   Num    `json:"work"`   // reported work score of the signed transaction
	Nondet int    `json:"nondet"` // 1: another run of the ledger rules had another verdict
	Mut    int    `json:"mut"`    // 1: validation changed the transaction
	Reason int    `json:"reason"` // failure reason of a rejection by the ledger rules, otherwise -1
}

type Rec struct {
	ID    int    `json:"i"`
	Kind  string `json:"kind"` // scenario and mutation labels, for coverage
	P     int    `json:"p"`
	Tx    Tx     `json:"tx"`
	Ins   []In   `json:"ins"`
	Cmt   int    `json:"cmt"` // slot of the resolved commitment, -1: none
	Bic   []Bic  `json:"bic"`
	Rew   []Rew  `json:"rew"`
	HasRw int    `json:"hasrew"`
	Unl   []Unl  `json:"unl"`
	Res   *Res   `json:"res,omitempty"`
}

func jsonInto(x, p any) error {
	b, err := json.Marshal(x)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, p)
}

// clamp keeps every number within what TLC can represent.
func clamp(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			clamp(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			clamp(v.Field(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			clamp(v.Index(i))
		}
	case reflect.Int:
		if v.Int() > maxTick {
			v.SetInt(maxTick)
		}
		if v.Int() < -maxTick {
			v.SetInt(-maxTick)
		}
	}
}

func (r *Rec) normalize() {
	clamp(reflect.ValueOf(r))
	normOut := func(o *Out) {
		if o.T == "foundry" || o.T == "deleg" {
			o.Mana = N(0)
		}
		if o.T == "foundry" {
			o.Sch = 0 // there is one token scheme
		}
	}
	for i := range r.Ins {
		normOut(&r.Ins[i].Out)
	}
	for i := range r.Tx.Outs {
		normOut(&r.Tx.Outs[i])
	}
	if r.Tx.PTag < 0 || r.Tx.PData < 0 {
		r.Tx.PData = 0
	}
	eachFt(r, func(f *Ft) {
		if f.Len < 0 {
			f.Len = 0
		}
		for i := range f.Ents {
			if f.Ents[i].KL < 0 {
				f.Ents[i].KL = 0
			}
			if f.Ents[i].VL < 0 {
				f.Ents[i].VL = 0
			}
		}
		if f.K == 4 && f.Len == 0 {
			f.Tag = 0
		}
		if f.K != 2 && f.K != 3 {
			return
		}
		seen := map[string]bool{}
		es := []Ent{}
		for _, e := range f.Ents {
			if e.VL == 0 {
				e.V = 0
			}
			if e.KL == 0 {
				e.Key, e.Bad = 0, 0
			}
			if (e.KL == 1 && e.Bad != 0) || e.Bad == 2 {
				e.Key = 0
			}
			e.Key = ((e.Key % 90) + 90) % 90
			e.V = ((e.V % 90) + 90) % 90
			if k := entKey(e); !seen[k] {
				seen[k] = true
				es = append(es, e)
			}
		}
		f.Ents = es
	})
	if r.Tx.Ctx == nil {
		r.Tx.Ctx = []Ctx{}
	}
	if r.Tx.Caps == nil {
		r.Tx.Caps = []int{}
	}
	if r.Tx.Allot == nil {
		r.Tx.Allot = []Allot{}
	}
	if r.Tx.Outs == nil {
		r.Tx.Outs = []Out{}
	}
	if r.Ins == nil {
		r.Ins = []In{}
	}
	if r.Bic == nil {
		r.Bic = []Bic{}
	}
	if r.Rew == nil {
		r.Rew = []Rew{}
	}
	if r.Unl == nil {
		r.Unl = []Unl{}
	}
}

func clone[T any](v T) T {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var out T
	if err := json.Unmarshal(b, &out); err != nil {
		panic(err)
	}
	return out
}
