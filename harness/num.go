package main

import (
	"encoding/json"
	"math/big"
)

// Num is an arbitrary-size natural number. On the wire it is a little-endian
// sequence of base-10^4 limbs, the representation used by spec/BigNat.tla.
type Num struct{ B *big.Int }

var limbBase = big.NewInt(10000)

func N(v uint64) Num    { return Num{new(big.Int).SetUint64(v)} }
func NB(b *big.Int) Num { return Num{new(big.Int).Set(b)} }
func (n Num) big() *big.Int {
	if n.B == nil {
		return new(big.Int)
	}
	return n.B
}
func (n Num) U64() uint64 {
	return n.big().Uint64()
}
func (n Num) Add(m Num) Num { return Num{new(big.Int).Add(n.big(), m.big())} }
func (n Num) AddI(d int64) Num {
	r := new(big.Int).Add(n.big(), big.NewInt(d))
	if r.Sign() < 0 {
		r.SetInt64(0)
	}
	return Num{r}
}
func (n Num) SubSat(m Num) Num {
	r := new(big.Int).Sub(n.big(), m.big())
	if r.Sign() < 0 {
		r.SetInt64(0)
	}
	return Num{r}
}
func (n Num) Cmp(m Num) int { return n.big().Cmp(m.big()) }
func (n Num) Limbs() []int {
	out := []int{}
	v := new(big.Int).Set(n.big())
	r := new(big.Int)
	for v.Sign() > 0 {
		v.DivMod(v, limbBase, r)
		out = append(out, int(r.Int64()))
	}
	return out
}
func (n Num) MarshalJSON() ([]byte, error) { return json.Marshal(n.Limbs()) }
func (n *Num) UnmarshalJSON(b []byte) error {
	var l []int
	if err := json.Unmarshal(b, &l); err != nil {
		return err
	}
	v := new(big.Int)
	for i := len(l) - 1; i >= 0; i-- {
		v.Mul(v, limbBase)
		v.Add(v, big.NewInt(int64(l[i])))
	}
	n.B = v
	return nil
}
