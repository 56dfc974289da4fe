package main

import (
	"context"
	"fmt"
	"math/rand"
	"strings"

	"golang.org/x/crypto/blake2b"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/bech32"
)

// Textual addresses, for Bech32Conform.tla.

func init() { commands["bech32"] = bech32Cmd }

type bechAddr struct {
	Kind  int   `json:"kind"`
	Inner int   `json:"inner"`
	H     []int `json:"h"`
	Mask  []int `json:"mask"`
}

type bechRec struct {
	Op    string    `json:"op"`
	Mut   string    `json:"mut"`
	Hrp   []int     `json:"hrp"`
	Src   []int     `json:"src"`
	Text  []int     `json:"text"`
	A     *bechAddr `json:"a,omitempty"`
	OK    int       `json:"ok"`
	Panic int       `json:"panic"`
	Err   string    `json:"err"`
	RHrp  []int     `json:"rhrp"`
	RData []int     `json:"rdata"`
	Same  int       `json:"same"`
	Kind  int       `json:"rkind"`
}

func bts(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

func newBech(op, mut string) *bechRec {
	return &bechRec{Op: op, Mut: mut, Hrp: []int{}, Src: []int{}, Text: []int{}, RHrp: []int{}, RData: []int{}}
}

func bechGuard(r *bechRec, f func() error) {
	defer func() {
		if e := recover(); e != nil {
			r.Panic, r.OK = 1, 0
			r.Err = fmt.Sprint(e)
		}
	}()
	if err := f(); err != nil {
		r.Err = err.Error()
	} else {
		r.OK = 1
	}
}

const bechChars = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func bechHrp(g *rand.Rand) string {
	switch g.Intn(12) {
	case 0:
		return ""
	case 1:
		return "A1b"
	case 2:
		return "IOTA"
	case 3:
		return string([]byte{byte(g.Intn(256)), byte(33 + g.Intn(94))})
	case 4:
		return strings.Repeat("x", g.Intn(90))
	case 5:
		return "1"
	case 6, 7:
		b := make([]byte, 1+g.Intn(5))
		for i := range b {
			b[i] = byte(33 + g.Intn(94))
		}
		return string(b)
	case 8:
		return []string{"!", "~", " ", "\x7f", "a~", "!1"}[g.Intn(6)]
	default:
		return []string{"iota", "smr", "rms", "tst"}[g.Intn(4)]
	}
}

func randBytes(g *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch g.Intn(6) {
	case 0:
	case 1:
		for i := range b {
			b[i] = 255
		}
	default:
		g.Read(b)
	}
	return b
}

// bechTexts are texts near encoded ones.
func bechText(g *rand.Rand, base string) (string, string) {
	b := []byte(base)
	sep := strings.LastIndex(base, "1")
	repl := func(k int, any bool) {
		for _, p := range g.Perm(len(b) - sep - 1)[:min(k, len(b)-sep-1)] {
			i := sep + 1 + p
			for c := b[i]; b[i] == c; {
				if any {
					b[i] = byte(g.Intn(256))
				} else {
					b[i] = bechChars[g.Intn(32)]
				}
			}
		}
	}
	switch g.Intn(20) {
	case 0:
		return base, "none"
	case 1:
		return strings.ToUpper(base), "upper"
	case 2, 3:
		k := 1 + g.Intn(4)
		repl(k, false)
		return string(b), "replace"
	case 4:
		repl(1+g.Intn(2), true)
		return string(b), "byte"
	case 5:
		i := g.Intn(len(b))
		b[i] = []byte(strings.ToUpper(string(b[i])))[0]
		return string(b), "case"
	case 6:
		i := g.Intn(len(b))
		return string(b[:i]) + string(b[i+1:]), "delete"
	case 7:
		i := g.Intn(len(b) + 1)
		return string(b[:i]) + string(bechChars[g.Intn(32)]) + string(b[i:]), "insert"
	case 8:
		i := g.Intn(len(b) + 1)
		return string(b[:i]) + "1" + string(b[i:]), "separator"
	case 9:
		return strings.ReplaceAll(base, "1", ""), "separator"
	case 10: // letters that change case to or from ASCII
		up := g.Intn(2) == 0
		s := base
		if up {
			s = strings.ToUpper(base)
		}
		from := []string{"k", "K", "s", "S"}[g.Intn(4)]
		to := []string{"\u212a", "\u017f", "\u0130", "\u0131"}[g.Intn(4)]
		return strings.Replace(s, from, to, 1), "unicode"
	case 11:
		i := g.Intn(len(b) + 1)
		return string(b[:i]) + []string{"\u212a", "\u017f", "\xff", "\x80", " ", "\u00e9"}[g.Intn(6)] + string(b[i:]), "unicode"
	case 12:
		i, j := g.Intn(len(b)), g.Intn(len(b))
		b[i], b[j] = b[j], b[i]
		return string(b), "swap"
	case 13:
		return base[:g.Intn(len(base)+1)], "truncate"
	case 14:
		return string(b[:len(b)-7]) + "q" + string(b[len(b)-7:]), "insert"
	case 15: // the known weakness: q before a final p
		if b[len(b)-1] == 'p' {
			return base[:len(base)-1] + "qp", "q before p"
		}
		return base + "q", "insert"
	case 16:
		return strings.Repeat("q", g.Intn(80)) + base, "long"
	case 17:
		for i := range b[:sep] {
			if g.Intn(2) == 0 {
				b[i] = byte(g.Intn(256))
			}
		}
		return string(b), "prefix"
	case 18:
		return []string{"", "1", "a1", "1a", "a1qqqqqq", "A12UEL5L", "a12uel5l", "10a06t8", "1qzzfhee", "a1lqfn3a", "?1ezyfcl", "11qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqc8247j"}[g.Intn(12)], "vector"
	default:
		repl(1, false)
		i := sep + 1 + g.Intn(len(b)-sep-1)
		b[i] = []byte(strings.ToUpper(string(b[i])))[0]
		return string(b), "replace and case"
	}
}

// bechCode encodes digits of five bits each with a correct checksum, also
// those that are not the digits of a byte string.
func bechCode(hrp string, digits []byte) string {
	poly := func(vs []byte) int {
		gen := []int{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
		c := 1
		for _, v := range vs {
			t := c >> 25
			c = (c&0x1ffffff)<<5 ^ int(v)
			for i := range gen {
				if t>>uint(i)&1 == 1 {
					c ^= gen[i]
				}
			}
		}
		return c
	}
	var vs []byte
	for _, c := range []byte(hrp) {
		vs = append(vs, c>>5)
	}
	vs = append(vs, 0)
	for _, c := range []byte(hrp) {
		vs = append(vs, c&31)
	}
	vs = append(vs, digits...)
	p := poly(append(vs, 0, 0, 0, 0, 0, 0)) ^ 1
	s := hrp + "1"
	for _, d := range digits {
		s += string(bechChars[d])
	}
	for i := 0; i < 6; i++ {
		s += string(bechChars[p>>uint(5*(5-i))&31])
	}
	return s
}

func bechAddress(g *rand.Rand) (iotago.Address, *bechAddr) {
	var h [32]byte
	copy(h[:], randBytes(g, 32))
	plain := func(k int) (iotago.Address, []byte, int) {
		switch k {
		case 0:
			a := iotago.Ed25519Address(h)
			return &a, h[:], 0
		case 1:
			a := iotago.AccountAddress(h)
			return &a, h[:], 8
		case 2:
			a := iotago.NFTAddress(h)
			return &a, h[:], 16
		case 3:
			a := iotago.AnchorAddress(h)
			return &a, h[:], 24
		case 4:
			n := 2 + g.Intn(9)
			var subs iotago.AddressesWithWeight
			for i := 0; i < n; i++ {
				var x [32]byte
				g.Read(x[:])
				var a iotago.Address
				switch g.Intn(3) {
				case 0:
					y := iotago.Ed25519Address(x)
					a = &y
				case 1:
					y := iotago.AccountAddress(x)
					a = &y
				default:
					y := iotago.NFTAddress(x)
					a = &y
				}
				subs = append(subs, &iotago.AddressWithWeight{Address: a, Weight: byte(1 + g.Intn(255))})
			}
			subs.Sort()
			m := iotago.NewMultiAddress(subs, uint16(1+g.Intn(n)))
			// kind, count, addresses with weights, threshold
			raw := []byte{byte(iotago.AddressMulti), byte(n)}
			for _, s := range subs {
				raw = append(raw, s.Address.ID()...)
				raw = append(raw, s.Weight)
			}
			raw = append(raw, byte(m.Threshold), byte(m.Threshold>>8))
			d := blake2b.Sum256(raw)
			return m, d[:], 40
		default:
			a := iotago.ImplicitAccountCreationAddress(h)
			return &a, h[:], 32
		}
	}
	if g.Intn(3) == 0 {
		a, d, k := plain(g.Intn(5))
		mask := [][]byte{{}, {1}, {255}, {255, 1}, {0, 1}, {byte(1 + g.Intn(255))}, {byte(g.Intn(256)), 1}}[g.Intn(7)]
		return &iotago.RestrictedAddress{Address: a, AllowedCapabilities: mask}, &bechAddr{Kind: 48, Inner: k, H: bts(d), Mask: bts(mask)}
	}
	a, d, k := plain(g.Intn(6))
	return a, &bechAddr{Kind: k, Inner: -1, H: bts(d), Mask: []int{}}
}

func bechPayload(g *rand.Rand) ([]byte, string) {
	_, d := bechAddress(g)
	var p []byte
	add := func(x ...int) {
		for _, y := range x {
			p = append(p, byte(y))
		}
	}
	if d.Inner >= 0 {
		add(48, d.Inner)
		add(d.H...)
		add(len(d.Mask))
		add(d.Mask...)
	} else {
		add(d.Kind)
		add(d.H...)
	}
	kinds := []byte{0, 8, 16, 24, 32, 40, 48, 1, 7, 9, 41, 47, 49, 56, 255}
	switch g.Intn(12) {
	case 0:
		return p, "valid"
	case 1:
		p[0] = kinds[g.Intn(len(kinds))]
		return p, "kind"
	case 2:
		if len(p) > 1 {
			p[1] = kinds[g.Intn(len(kinds))]
		}
		return p, "inner kind"
	case 3:
		return p[:g.Intn(len(p))], "short"
	case 4, 5:
		return append(p, randBytes(g, 1+g.Intn(5))...), "long"
	case 6:
		return append([]byte{48}, p...), "nested"
	case 7, 8:
		p = append([]byte{48, kinds[g.Intn(6)]}, p[1:min(33, len(p))]...)
		m := [][]byte{{0}, {1, 0}, {2, 1, 0}, {2, 0, 0}, {3, 1, 1, 1}, {1}, {2, 1}, {0, 0}, {0, 1}, {1, 1, 1}, {255}, {2, 255, 3}, {}, {3, 0, 0, 1}, {4, 1, 2, 3, 4}}[g.Intn(15)]
		return append(p, m...), "mask"
	case 9:
		return append(p, p...)[:34+g.Intn(4)], "twice"
	case 10:
		return randBytes(g, g.Intn(46)), "random"
	default:
		return p[:len(p)-1], "short"
	}
}

func bech32One(g *rand.Rand) *bechRec {
	switch g.Intn(9) {
	case 0, 1:
		hrp := bechHrp(g)
		src := randBytes(g, []int{g.Intn(60), g.Intn(8), 33, 50 - len(hrp)*5/8 + g.Intn(4)}[g.Intn(4)]&63)
		r := newBech("enc", "none")
		r.Hrp, r.Src = bts([]byte(hrp)), bts(src)
		bechGuard(r, func() error {
			s, err := bech32.Encode(hrp, src)
			r.Text = bts([]byte(s))
			return err
		})
		return r
	case 2, 3, 4, 5:
		var base string
		hrp := []string{"iota", "smr", "rms", "tst", "a", "1", "x1y", "!", "0"}[g.Intn(9)]
		mut := ""
		if g.Intn(4) == 0 {
			d := make([]byte, g.Intn(64))
			for i := range d {
				d[i] = byte(g.Intn(32))
			}
			if len(d) > 0 && g.Intn(2) == 0 { // padding close to zero
				d[len(d)-1] = 1 << uint(g.Intn(5))
				if g.Intn(2) == 0 {
					d[len(d)-1] = 0
				}
			}
			base, mut = bechCode(hrp, d), "digits"
			if g.Intn(3) == 0 {
				base = strings.ToUpper(base)
			}
		} else {
			p, _ := bechPayload(g)
			if g.Intn(3) == 0 {
				p = randBytes(g, g.Intn(40))
			}
			s, err := bech32.Encode(hrp, p)
			if err != nil {
				s = "rms1qpllaj0pyveqfkwxmnngz2c488hfdtmfrj3wfkgxtk4gtyrax0jaxzt70zy"
			}
			base, mut = bechText(g, s)
		}
		r := newBech("dec", mut)
		r.Text = bts([]byte(base))
		bechGuard(r, func() error {
			h, d, err := bech32.Decode(base)
			r.RHrp, r.RData = bts([]byte(h)), bts(d)
			return err
		})
		return r
	case 6:
		a, d := bechAddress(g)
		hrp := bechHrp(g)
		r := newBech("addr", "none")
		r.A, r.Hrp = d, bts([]byte(hrp))
		bechGuard(r, func() error {
			r.Text = bts([]byte(a.Bech32(iotago.NetworkPrefix(hrp))))
			return nil
		})
		if r.OK == 1 {
			r.OK = 0
			bechGuard(r, func() error {
				s := make([]byte, len(r.Text))
				for i, x := range r.Text {
					s[i] = byte(x)
				}
				h, b, err := iotago.ParseBech32(string(s))
				if err != nil {
					return err
				}
				r.RHrp, r.RData, r.Kind = bts([]byte(h)), bts(b.ID()), int(b.Type())
				// what was parsed is the same address again, in every respect
				same := b.Key() == a.Key() && b.String() == a.String() && b.Bech32(h) == a.Bech32(h) && b.Clone().Equal(b)
				if d.Kind != 40 && d.Inner != 40 {
					raw, err := iotago.CommonSerixAPI().Encode(context.Background(), a, serix.WithValidation())
					if err != nil {
						return err
					}
					c, n, err := iotago.AddressFromBytes(raw)
					same = same && err == nil && n == len(raw) && a.Equal(b) && b.Equal(a) && a.Equal(c) && a.Clone().Equal(b) && len(raw) == a.Size()
				}
				r.Same = b2i(same)
				return nil
			})
		}
		return r
	default:
		p, mut := bechPayload(g)
		r := newBech("parse", mut)
		s, err := bech32.Encode("rms", p)
		if err != nil {
			p = p[:40]
			s, err = bech32.Encode("rms", p)
			must(err)
		}
		r.Text = bts([]byte(s))
		bechGuard(r, func() error {
			h, b, err := iotago.ParseBech32(s)
			if err != nil {
				return err
			}
			r.RHrp, r.RData, r.Kind = bts([]byte(h)), bts(b.ID()), int(b.Type())
			return nil
		})
		return r
	}
}

func bech32Cmd(in, out, focus string, seed int64, n int) {
	recs := make([]any, n)
	parallel(n, func(i int) {
		recs[i] = bech32One(rand.New(rand.NewSource(seed*1_000_003 + int64(i))))
	})
	writeLines(out, recs)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
