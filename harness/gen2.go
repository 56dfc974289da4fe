package main

import (
	"fmt"
	"math/big"
	"reflect"
)

// ---- unlocks a wallet would put ----

type unlocker struct {
	g       *gen
	sigAt   map[int]int
	multSig map[int]bool
	chainAt map[Addr2]int
	multAt  map[string]int
}

func (u *unlocker) ref(a Addr2, dflt int) Unl {
	k := map[string]string{"acc": "acc", "anc": "anc", "nft": "nft"}[a.k]
	if i, ok := u.chainAt[a]; ok {
		return Unl{K: k, I: i}
	}
	return Unl{K: k, I: dflt}
}

func (g *gen) ownerOf(i *In) Addr {
	o := &i.Out
	own := Addr{K: "ed", N: 1}
	for _, u := range o.UC {
		if u.K == 0 || u.K == 6 {
			own = u.A
		}
	}
	if o.T == "anchor" && len(o.UC) > 0 {
		id := o.ID
		if id == 0 {
			id = i.Own
		}
		own = o.UC[len(o.UC)-1].A
		for _, n := range g.rec.Tx.Outs {
			if n.T == "anchor" && n.ID == id && n.Si == o.Si+1 {
				own = o.UC[0].A
			}
		}
	}
	for _, u := range o.UC {
		if u.K == 3 && g.rec.Cmt >= 0 && g.rec.Cmt+g.minca >= u.Slot {
			own = u.A
		}
	}
	if own.K == "restr" && own.In != nil {
		own = *own.In
	}
	return own
}

func (g *gen) autoUnlock() {
	u := &unlocker{g, map[int]int{}, map[int]bool{}, map[Addr2]int{}, map[string]int{}}
	r := g.rec
	r.Unl = nil
	for k := range r.Ins {
		i := &r.Ins[k]
		a := g.ownerOf(i)
		var x Unl
		switch a.K {
		case "ed", "imp":
			if at, ok := u.sigAt[a.N]; ok {
				x = Unl{K: "ref", I: at}
			} else {
				x = Unl{K: "sig", Key: a.N}
				u.sigAt[a.N] = k
			}
		case "multi":
			key := fmt.Sprint(clone(a))
			if at, ok := u.multAt[key]; ok {
				x = Unl{K: "ref", I: at}
				break
			}
			u.multAt[key] = k
			x = Unl{K: "multi"}
			sum := 0
			order := g.Perm(len(a.Subs))
			x.Subs = make([]Unl, len(a.Subs))
			for j := range x.Subs {
				x.Subs[j] = Unl{K: "empty"}
			}
			for _, j := range order {
				s := a.Subs[j]
				if sum >= a.Thr && g.p(0.7) {
					continue
				}
				switch s.A.K {
				case "ed", "imp":
					if at, ok := u.sigAt[s.A.N]; ok {
						x.Subs[j] = Unl{K: "ref", I: at}
					} else {
						x.Subs[j] = Unl{K: "sig", Key: s.A.N}
						u.multSig[s.A.N] = true
					}
					sum += s.W
				case "acc", "anc", "nft":
					if _, ok := u.chainAt[Addr2{s.A.K, s.A.N}]; ok {
						x.Subs[j] = u.ref(Addr2{s.A.K, s.A.N}, 0)
						sum += s.W
					}
				}
			}
		default:
			x = u.ref(Addr2{a.K, a.N}, 0)
		}
		r.Unl = append(r.Unl, x)
		id := i.Out.ID
		if id == 0 {
			id = i.Own
		}
		switch i.Out.T {
		case "account":
			u.chainAt[Addr2{"acc", id}] = k
		case "nft":
			u.chainAt[Addr2{"nft", id}] = k
		case "anchor":
			for _, n := range r.Tx.Outs {
				if n.T == "anchor" && n.ID == id && n.Si == i.Out.Si+1 {
					u.chainAt[Addr2{"anc", id}] = k
				}
			}
		}
	}
}

// ---- faults ----

type site struct {
	lab string
	f   func()
}

func (g *gen) boundarySlot() int {
	b := g.pick(g.c, g.past, g.fut, g.past+g.maxca, g.t, g.past, g.fut, g.c)
	return maxi(0, b+g.pick(-1, 0, 0, 1))
}
func (g *gen) boundaryEpoch(o int) int {
	e := g.pick(g.pastEpoch(), g.futEpoch(), g.pastEpoch()+g.unbond, g.pastEpoch()+g.unbond, o, g.pastEpoch()+2, g.futEpoch()+1)
	return maxi(0, e+g.pick(-1, 0, 0, 1))
}

func (g *gen) someAddr() Addr {
	var as []Addr
	eachAddr(g.rec, func(a *Addr) {
		as = append(as, *a)
		if a.K == "restr" {
			as = append(as, *a.In)
		}
		if a.K == "multi" && len(a.Subs) > 0 {
			as = append(as, a.Subs[0].A)
		}
	})
	as = append(as, g.chains...)
	switch {
	case g.p(0.6) && len(as) > 0:
		return clone(as[g.Intn(len(as))])
	case g.p(0.1):
		return Addr{K: "imp", N: g.key()}
	case g.p(0.1):
		return Addr{K: []string{"acc", "nft", "anc"}[g.Intn(3)], N: 0}
	case g.p(0.3):
		a := g.outAddrPlain()
		return Addr{K: "restr", In: &a, Bm: [][]int{{}, {1}, {255, 1}, {254, 1}, {0}, {255, 0}, {3}}[g.Intn(7)]}
	}
	return g.outAddr(g.Intn(512))
}

func (g *gen) num(n *Num) {
	v := n.big()
	one := big.NewInt(1)
	switch g.Intn(5) {
	case 0, 1:
		v = new(big.Int).Add(v, one)
	case 2, 3:
		v = new(big.Int).Sub(v, one)
	case 4:
		v = [](*big.Int){big.NewInt(0), one, new(big.Int).Rsh(v, 1), g.mag(1 << 40).big(), new(big.Int).SetUint64(uint64(1) << uint(g.ps.Params.ManaParameters().BitsCount-1))}[g.Intn(5)]
	}
	if v.Sign() < 0 {
		v = one
	}
	*n = NB(v)
}

// sites enumerates the places of a value where a fault can be put.
func (g *gen) sites(v reflect.Value, path string, s *[]site) {
	switch v.Type() {
	case reflect.TypeOf(Num{}):
		p := v.Addr().Interface().(*Num)
		*s = append(*s, site{path, func() { g.num(p) }})
		return
	case reflect.TypeOf(Addr{}):
		p := v.Addr().Interface().(*Addr)
		if p.K == "" {
			return
		}
		*s = append(*s, site{path, func() { *p = g.someAddr() }})
		if p.K == "restr" {
			*s = append(*s, site{path + ".Bm", func() {
				b := clone(p.Bm)
				if len(b) == 0 {
					b = []int{g.Intn(256)}
				} else if i := g.Intn(len(b)); g.p(0.9) {
					b[i] ^= 1 << g.Intn(8)
				} else {
					b = b[:i]
				}
				if g.p(0.85) {
					for len(b) > 0 && b[len(b)-1] == 0 {
						b = b[:len(b)-1]
					}
				}
				p.Bm = b
			}})
		}
		if p.K == "multi" {
			*s = append(*s, site{path + ".Thr", func() { p.Thr = maxi(0, p.Thr+g.pick(-1, 1)) }})
			*s = append(*s, site{path + ".W", func() { x := &p.Subs[g.Intn(len(p.Subs))]; x.W = maxi(0, x.W+g.pick(-1, 1)) }})
			*s = append(*s, site{path + ".Sub", func() { p.Subs[g.Intn(len(p.Subs))].A = g.someAddr() }})
			*s = append(*s, site{path + ".drop", func() { p.Subs = p.Subs[1:] }})
			*s = append(*s, site{path + ".dup", func() { p.Subs = append(p.Subs, clone(p.Subs[0])) }})
		}
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			n := t.Field(i).Name
			switch n {
			case "R", "Own", "Res", "Kind", "P", "Unl", "ID", "I", "Net", "Tx":
				if !(n == "Tx" && t.Name() == "Rec") && !(n == "ID" && t.Name() == "Out") && !(n == "ID" && t.Name() == "Ft") {
					continue
				}
				if n == "ID" && t.Name() == "Out" {
					p := v.Field(i).Addr().Interface().(*int)
					o := v.Addr().Interface().(*Out)
					if o.T == "account" || o.T == "anchor" || o.T == "nft" || o.T == "deleg" {
						*s = append(*s, site{path + ".ID", func() {
							*p = 0
							if len(g.rec.Ins) > 0 && g.p(0.6) {
								i := g.rec.Ins[g.Intn(len(g.rec.Ins))]
								*p = i.Out.ID
								if i.Own != 0 {
									*p = i.Own
								}
							} else if g.p(0.5) {
								*p = g.rng(20, 25)
							}
						}})
					}
					continue
				}
			}
			if !relevant(v, n) {
				continue
			}
			g.sites(v.Field(i), path+"."+n, s)
		}
	case reflect.Int:
		p := v.Addr().Interface().(*int)
		name := path[len(path)-minInt(len(path), 6):]
		*s = append(*s, site{path, func() {
			switch {
			case hasSuffix(name, ".Slot"), hasSuffix(name, ".Exp"), hasSuffix(name, ".Cmt"):
				if g.p(0.75) {
					*p = g.boundarySlot()
					return
				}
			case hasSuffix(name, ".Start"), hasSuffix(name, ".End"):
				if g.p(0.75) {
					*p = g.boundaryEpoch(*p)
					return
				}
			case hasSuffix(name, ".Bad"):
				*p = g.rng(0, 2)
				return
			case hasSuffix(name, ".KL"), hasSuffix(name, ".Len"):
				*p = g.pick(0, 1, 64, 65, 255, *p+1)
				if *p > 255 {
					*p = 255
				}
				return
			case hasSuffix(name, ".VL"):
				*p = g.pick(0, 1, 8191-*p, 8192, 8190, 9000, *p+1)
				return
			case hasSuffix(name, ".PTag"):
				*p = g.pick(-1, 0, 64, 65)
				return
			}
			switch g.Intn(6) {
			case 0, 1:
				if *p < maxTick {
					*p++
				}
			case 2, 3:
				if *p > 0 && *p < maxTick {
					*p--
				} else {
					*p = 0
				}
			case 4:
				*p = 0
			case 5:
				*p = g.rng(0, 60)
			}
			if hasSuffix(name, ".V") && g.p(0.5) {
				*p = -1 - g.Intn(5)
			}
			if (hasSuffix(name, ".Sch") || hasSuffix(name, ".W")) && *p > 255 {
				*p = 255
			}
		}})
	case reflect.Slice:
		n := v.Len()
		for i := 0; i < n; i++ {
			g.sites(v.Index(i), fmt.Sprintf("%s[%d]", path, i), s)
		}
		if v.Type().Elem().Kind() == reflect.Int {
			return
		}
		if n > 0 {
			*s = append(*s, site{path + ".drop", func() {
				i := g.Intn(n)
				v.Set(reflect.AppendSlice(v.Slice3(0, i, i), v.Slice(i+1, n)))
			}})
			*s = append(*s, site{path + ".dup", func() {
				c := reflect.ValueOf(clone(v.Index(g.Intn(n)).Interface()))
				x := reflect.New(v.Type().Elem()).Elem()
				b, _ := jsonRT(v.Index(g.Intn(n)).Interface(), v.Type().Elem())
				x.Set(b)
				_ = c
				v.Set(reflect.Append(v, x))
			}})
		}
		if n > 1 {
			*s = append(*s, site{path + ".swap", func() {
				i := g.Intn(n - 1)
				a, b := v.Index(i).Interface(), v.Index(i+1).Interface()
				v.Index(i).Set(reflect.ValueOf(b))
				v.Index(i + 1).Set(reflect.ValueOf(a))
			}})
		}
	}
}

func jsonRT(x any, t reflect.Type) (reflect.Value, error) {
	p := reflect.New(t)
	if err := jsonInto(x, p.Interface()); err != nil {
		return p.Elem(), err
	}
	return p.Elem(), nil
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func hasSuffix(s, x string) bool { return len(s) >= len(x) && s[len(s)-len(x):] == x }

// relevant tells whether a field of a record is in use.
func relevant(v reflect.Value, n string) bool {
	switch x := v.Interface().(type) {
	case UC:
		switch n {
		case "K":
			return false
		case "A":
			return x.K != 2
		case "Amt":
			return x.K == 1
		case "Slot":
			return x.K == 2 || x.K == 3
		}
	case Ft:
		ok := map[int]string{0: "A", 1: "A", 2: "Ents", 3: "Ents", 4: "Tag Len", 5: "ID Amt", 6: "Exp Keys", 7: "Amt Cost Start End"}[x.K]
		for _, w := range splitWords(ok) {
			if w == n {
				return true
			}
		}
		return false
	case Out:
		switch n {
		case "T":
			return false
		case "Fc":
			return x.T == "account"
		case "Si":
			return x.T == "anchor"
		case "Sn", "Sch", "Minted", "Melted", "Max":
			return x.T == "foundry"
		case "DAmt", "Val", "Start", "End":
			return x.T == "deleg"
		case "Mana":
			return x.T != "foundry" && x.T != "deleg"
		}
	case Ctx:
		switch n {
		case "K":
			return false
		case "Acc":
			return x.K == "bic"
		case "Idx":
			return x.K == "rew"
		}
	case Tx:
		if n == "PData" {
			return x.PTag >= 0
		}
	case Rec:
		return n == "Tx" || n == "Ins" || n == "Cmt" || n == "Bic" || n == "Rew"
	}
	return true
}

func splitWords(s string) (out []string) {
	w := ""
	for _, c := range s + " " {
		if c == ' ' {
			if w != "" {
				out = append(out, w)
			}
			w = ""
		} else {
			w += string(c)
		}
	}
	return
}

var focusPath = map[string][]string{
	"V01": {".Amt", ".UC"}, "V02": {".Minted", ".Melted", ".Max", ".Amt", ".Caps", ".ID"}, "V03": {".Mana", ".Slot", ".Allot", ".Caps", ".Rew"},
	"V05": {".Slot", ".UC", ".Cmt", ".Ctx"}, "V06": {".ID", ".Imf", ".Si", ".UC", ".Outs", ".Ft"}, "V07": {".Fc", ".Sn", ".swap", ".drop", ".dup"},
	"V08": {".Exp", ".V", ".Mana", ".Slot", ".Ft", ".Bic", ".Cmt", ".Keys"}, "V09": {".Start", ".End", ".Amt", ".Cost", ".Ft", ".Rew", ".Ctx"},
	"V10": {".Start", ".End", ".DAmt", ".Val", ".ID", ".Rew", ".Amt", ".Ctx"}, "V11": {".UC", ".ID", ".Exp", ".Bic", ".Ft"}, "V12": {".Caps", ".drop"}, "V13": {".A", ".Ft", ".Imf"},
}

func contains(s string, xs []string) bool {
	for _, x := range xs {
		for i := 0; i+len(x) <= len(s); i++ {
			if s[i:i+len(x)] == x {
				return true
			}
		}
	}
	return false
}

func (g *gen) mutate() string {
	if (g.focus == "V04" || g.focus == "S02") && g.p(0.8) || g.p(0.07) {
		return g.mutateUnlocks()
	}
	var ss []site
	g.sites(reflect.ValueOf(g.rec).Elem(), "", &ss)
	if fp := focusPath[g.focus]; fp != nil && g.p(0.65) {
		var f []site
		for _, s := range ss {
			if contains(s.lab, fp) {
				f = append(f, s)
			}
		}
		if len(f) > 0 {
			ss = f
		}
	}
	if len(ss) == 0 {
		return ""
	}
	lab := ""
	for n := g.pick(1, 1, 1, 2); n > 0; n-- {
		s := ss[g.Intn(len(ss))]
		func() { // a second fault may refer to a place that is gone
			defer func() { _ = recover() }()
			s.f()
			lab += s.lab
		}()
	}
	if g.p(0.05) {
		b := 1 << g.Intn(8)
		if len(g.rec.Tx.Caps) == 0 {
			g.rec.Tx.Caps = []int{b}
		} else {
			g.rec.Tx.Caps[0] ^= b
		}
	} else if (g.focus == "V12" || g.focus == "V02" || g.focus == "V03" || g.p(0.1)) && g.p(0.4) {
		g.rec.Tx.Caps = [][]int{{}, {63}, {62}, {61}, {59}, {55}, {47}, {31}}[g.Intn(8)]
	}
	if g.p(0.02) {
		g.rec.Tx.Net = 0
	}
	if len(g.rec.Rew) > 0 { // drop rewards of inputs that are gone
		var rw []Rew
		for _, x := range g.rec.Rew {
			if x.I <= len(g.rec.Ins) {
				rw = append(rw, x)
			}
		}
		g.rec.Rew = rw
	}
	switch x := g.Float64(); {
	case x < 0.6:
		g.balanceBase()
		g.balanceMana()
		newBinder(g.rec).canon()
		g.autoUnlock()
		lab += "!b"
	case x < 0.8:
		newBinder(g.rec).canon()
		g.autoUnlock()
		lab += "!u"
	}
	return lab
}

func (g *gen) mutateUnlocks() string {
	r := g.rec
	if len(r.Unl) == 0 {
		return ""
	}
	i := g.Intn(len(r.Unl))
	u := &r.Unl[i]
	lab := "unl:"
	for n := g.pick(1, 1, 2); n > 0; n-- {
		switch g.Intn(9) {
		case 0:
			if u.K == "sig" {
				u.Bad = g.rng(1, 3)
				lab += "badsig"
			} else if u.K == "multi" && len(u.Subs) > 0 {
				s := &u.Subs[g.Intn(len(u.Subs))]
				s.Bad = g.rng(1, 3)
				lab += "badsub"
			}
		case 1:
			if u.K == "sig" {
				u.Key = g.rng(1, 6)
				lab += "key"
			} else if u.K != "multi" && u.K != "empty" {
				u.I = g.pick(u.I+1, maxi(0, u.I-1), g.Intn(len(r.Unl)), i)
				lab += "ref"
			}
		case 2:
			if u.K != "sig" && u.K != "multi" {
				u.K = []string{"ref", "acc", "anc", "nft"}[g.Intn(4)]
				lab += "kind"
			}
		case 3:
			*u = Unl{K: []string{"ref", "acc", "anc", "nft", "sig", "empty"}[g.Intn(6)], I: g.Intn(len(r.Unl)), Key: g.key()}
			lab += "repl"
		case 4:
			if u.K == "multi" && len(u.Subs) > 0 {
				u.Subs[g.Intn(len(u.Subs))] = Unl{K: []string{"empty", "empty", "ref", "acc", "sig", "nft", "anc"}[g.Intn(7)], I: g.Intn(len(r.Unl)), Key: g.key()}
				lab += "sub"
			}
		case 5:
			if u.K == "multi" {
				if g.p(0.5) && len(u.Subs) > 0 {
					u.Subs = u.Subs[:len(u.Subs)-1]
				} else {
					u.Subs = append(u.Subs, Unl{K: "empty"})
				}
				lab += "sublen"
			}
		case 6:
			j := g.Intn(len(r.Unl))
			r.Unl[i], r.Unl[j] = r.Unl[j], r.Unl[i]
			lab += "swap"
		case 7: // inputs move, unlocks stay
			if len(r.Ins) > 1 && len(r.Rew) == 0 {
				j := g.Intn(len(r.Ins))
				k := g.Intn(len(r.Ins))
				r.Ins[j], r.Ins[k] = r.Ins[k], r.Ins[j]
				if g.p(0.6) {
					g.autoUnlock()
				}
				lab += "inswap"
			}
		case 8:
			if g.p(0.3) {
				r.Unl = r.Unl[:len(r.Unl)-1]
				return lab + "drop"
			}
			k := g.Intn(len(r.Ins))
			for j := range r.Ins[k].Out.UC {
				if c := &r.Ins[k].Out.UC[j]; c.K != 2 && c.K != 6 {
					c.A = g.someAddr()
					lab += "owner"
				}
			}
			if g.p(0.7) {
				newBinder(r).canon()
				g.autoUnlock()
			}
		}
	}
	return lab
}

// inputsOK keeps records whose consumed outputs could exist in a ledger.
func (g *gen) inputsOK() bool {
	r := g.rec
	b := newBinder(r)
	if len(r.Ins) == 0 || len(r.Tx.Outs) == 0 {
		return g.p(0.1)
	}
	if r.Cmt >= 0 && (r.Cmt < g.gs || r.Cmt > 1<<29) {
		return false
	}
	sum, mana := new(big.Int), new(big.Int)
	chains := map[Addr2]bool{}
	fnds := map[FID]bool{}
	okAddr := func(a Addr) bool { return wellFormed(b, a) }
	for k := range r.Ins {
		i := &r.Ins[k]
		o := &i.Out
		if i.Slot < g.gs || i.Slot > 1<<29 {
			return false
		}
		sum.Add(sum, o.Amt.big())
		mana.Add(mana, o.Mana.big())
		if o.Amt.big().Sign() <= 0 {
			return false
		}
		last := -1
		for _, u := range o.UC {
			if u.K <= last || (u.K != 2 && !okAddr(u.A)) || (u.K == 1 && (u.A.K == "imp" || u.Amt.Cmp(o.Amt) > 0 || u.Amt.big().Sign() <= 0)) || (u.K == 3 && (u.A.K == "imp" || u.Slot == 0)) || (u.K == 2 && u.Slot == 0) || ((u.K == 4 || u.K == 5) && u.A.K == "imp") {
				return false
			}
			last = u.K
		}
		want := map[string][]int{"basic": {0}, "nft": {0}, "account": {0}, "deleg": {0}, "anchor": {4, 5}, "foundry": {6}}[o.T]
		have := map[int]bool{}
		for _, u := range o.UC {
			have[u.K] = true
		}
		for _, w := range want {
			if !have[w] {
				return false
			}
		}
		if (o.T == "account" || o.T == "deleg" || o.T == "foundry") && len(o.UC) != 1 || o.T == "anchor" && len(o.UC) != 2 {
			return false
		}
		if o.T == "foundry" && o.UC[0].A.K != "acc" {
			return false
		}
		if o.UC[0].A.K == "imp" && (o.T != "basic" || len(o.UC) != 1) {
			return false
		}
		if o.T == "basic" {
			if o.UC[0].A.K != "imp" {
				i.Own = 0
			} else if i.Own == 0 {
				i.Own = 200 + k
			}
		} else if o.T == "foundry" {
			i.Own = 0
		} else if o.ID == 0 && i.Own == 0 {
			i.Own = 200 + k
		} else if o.ID != 0 {
			i.Own = 0
		}
		for _, fs := range [][]Ft{o.Ft, o.Imf} {
			last = -1
			for _, f := range fs {
				if f.K <= last || (f.K <= 1 && (!okAddr(f.A) || f.A.K == "imp" && false)) || (f.K == 5 && f.Amt.big().Sign() == 0) {
					return false
				}
				if f.K == 2 || f.K == 3 {
					sz := 1
					for _, e := range f.Ents {
						if e.Bad != 0 || e.KL == 0 {
							return false
						}
						sz += 3 + e.KL + e.VL
					}
					if len(f.Ents) == 0 || sz > 8192 {
						return false
					}
				}
				if f.K == 4 && (f.Len == 0 || f.Len > 64) {
					return false
				}
				if f.K == 6 && !distinctKeys(f.Keys) {
					return false
				}
				last = f.K
			}
		}
		if o.T == "account" {
			if ftOf(o, 7) != nil && (ftOf(o, 6) == nil || ftOf(o, 7).Amt.Cmp(o.Amt) > 0) || o.ID == 0 && o.Fc != 0 {
				return false
			}
			if f := ftOf(o, 7); f != nil && f.Start > f.End {
				return false
			}
		}
		if o.T == "anchor" && o.ID == 0 && o.Si != 0 {
			return false
		}
		if o.T == "deleg" && (o.Val == 0 || o.ID == 0 && (o.End != 0 || o.DAmt.Cmp(o.Amt) != 0)) {
			return false
		}
		if o.T == "foundry" {
			c := new(big.Int).Sub(o.Minted.big(), o.Melted.big())
			if c.Sign() < 0 || c.Cmp(o.Max.big()) > 0 || o.Max.big().Sign() == 0 || o.Max.big().BitLen() > 256 || o.Minted.big().BitLen() > 256 || o.Sch != 0 {
				return false
			}
			id := FID{o.UC[0].A.N, o.Sn, 0}
			if fnds[id] {
				return false
			}
			fnds[id] = true
			if f := ftOf(o, 5); f != nil && f.ID != id {
				return false
			}
		}
		id := o.ID
		if id == 0 {
			id = i.Own
		}
		if id != 0 && o.T != "foundry" {
			k := Addr2{o.T, id}
			if o.T == "basic" {
				k.k = "account"
			}
			if chains[k] {
				return false
			}
			chains[k] = true
		}
	}
	owns := map[int]bool{}
	for _, i := range r.Ins {
		if i.Own != 0 && owns[i.Own] {
			return false
		}
		owns[i.Own] = true
		for _, u := range i.Out.UC { // nothing owns itself
			if i.Out.ID != 0 && (i.Out.T == "account" && u.A.K == "acc" || i.Out.T == "nft" && u.A.K == "nft" || i.Out.T == "anchor" && u.A.K == "anc") && u.A.N == i.Out.ID {
				return false
			}
		}
	}
	bits := g.ps.Params.ManaParameters().BitsCount
	if sum.Cmp(new(big.Int).SetUint64(g.supply())) > 0 || mana.BitLen() > int(bits) {
		return false
	}
	for _, w := range r.Rew {
		if w.I > len(r.Ins) || r.Ins[w.I-1].Out.T != "deleg" && r.Ins[w.I-1].Out.T != "account" || w.Mana.big().BitLen() > 64 {
			return false
		}
	}
	seen := map[int]bool{}
	for _, w := range r.Rew {
		if seen[w.I] {
			return false
		}
		seen[w.I] = true
	}
	bs := map[int]bool{}
	for _, x := range r.Bic {
		if bs[x.Acc] {
			return false
		}
		bs[x.Acc] = true
	}
	// what is put on the wire has to fit its field
	ok := true
	for _, o := range r.Tx.Outs {
		for _, n := range []Num{o.Amt, o.Mana, o.DAmt} {
			if n.big().BitLen() > 64 {
				ok = false
			}
		}
		for _, n := range []Num{o.Minted, o.Melted, o.Max} {
			if n.big().BitLen() > 256 {
				ok = false
			}
		}
		for _, u := range o.UC {
			if u.Amt.big().BitLen() > 64 || (u.K == 6 && u.A.K != "acc") {
				ok = false
			}
		}
		for _, fs := range [][]Ft{o.Ft, o.Imf} {
			for _, f := range fs {
				if f.K == 5 && f.Amt.big().BitLen() > 256 || f.K == 7 && (f.Amt.big().BitLen() > 64 || f.Cost.big().BitLen() > 64) {
					ok = false
				}
			}
		}
	}
	for _, a := range r.Tx.Allot {
		if a.Mana.big().BitLen() > 64 {
			ok = false
		}
	}
	for _, i := range r.Ins {
		for _, n := range []Num{i.Out.Amt, i.Out.Mana, i.Out.DAmt} {
			if n.big().BitLen() > 64 {
				ok = false
			}
		}
		for _, f := range i.Out.Ft {
			if f.K == 5 && f.Amt.big().BitLen() > 256 {
				ok = false
			}
		}
	}
	return ok
}

func distinctKeys(ks []KeyR) bool {
	s := map[int]bool{}
	for _, k := range ks {
		if s[k.N] {
			return false
		}
		s[k.N] = true
	}
	return len(ks) > 0
}

func wellFormed(b *binder, a Addr) bool {
	switch a.K {
	case "restr":
		if a.In.K == "restr" || a.In.K == "imp" || len(a.Bm) > 2 || len(a.Bm) > 0 && a.Bm[len(a.Bm)-1] == 0 {
			return false
		}
		return wellFormed(b, *a.In)
	case "multi":
		if len(a.Subs) < 2 || len(a.Subs) > 10 {
			return false
		}
		sum := 0
		s := map[string]bool{}
		for _, x := range a.Subs {
			if x.W < 1 || x.A.K == "restr" || x.A.K == "multi" || x.A.K == "imp" {
				return false
			}
			id := string(b.addrID(x.A))
			if s[id] {
				return false
			}
			s[id] = true
			sum += x.W
		}
		return a.Thr >= 1 && a.Thr <= sum
	}
	return true
}
