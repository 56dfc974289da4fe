package main

import (
	"bytes"
	"context"
	"crypto/ed25519"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"

	hiveEd25519 "github.com/iotaledger/hive.go/crypto/ed25519"
	"github.com/iotaledger/hive.go/serializer/v2/serix"
	"github.com/iotaledger/iota-crypto-demo/pkg/bip39"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/wallet"
)

// Keys, signers, addresses, copies and comparisons, for KeysConform.tla.

func init() { commands["keys"] = keysCmd }

type kAddr struct {
	Kind string `json:"kind"`
	K    int    `json:"k"`
	Cap  int    `json:"cap"`
}
type kReg struct {
	A   kAddr `json:"a"`
	Key int   `json:"key"`
}
type kQuery struct {
	A     kAddr   `json:"a"`
	Sign  int     `json:"sign"`
	UID   int     `json:"uid"`
	Good  int     `json:"good"`
	Unl   [][]any `json:"unl"`
	Bad   int     `json:"bad"`
	Empty int     `json:"empty"`
}
type kOp struct {
	O string `json:"o"`
	K int    `json:"k"`
}

func (a kAddr) addr() iotago.Address {
	h := keyHash(a.K)
	ed := iotago.Ed25519Address(h)
	acc := iotago.AccountAddress(h)
	nft := iotago.NFTAddress(h)
	anc := iotago.AnchorAddress(h)
	imp := iotago.ImplicitAccountCreationAddress(h)
	mask := [][]byte{{}, {1}, {255, 1}}[a.Cap%3]
	switch a.Kind {
	case "ed":
		return &ed
	case "imp":
		return &imp
	case "res":
		return &iotago.RestrictedAddress{Address: &ed, AllowedCapabilities: mask}
	case "acc":
		return &acc
	case "nft":
		return &nft
	case "anc":
		return &anc
	case "resacc":
		return &iotago.RestrictedAddress{Address: &acc, AllowedCapabilities: mask}
	case "multi":
		return iotago.NewMultiAddress(iotago.AddressesWithWeight{{Address: &ed, Weight: 1}, {Address: &acc, Weight: 1}}, 1)
	}
	panic("address kind " + a.Kind)
}

func keyOfPub(pub []byte) int {
	for i := 0; i <= 20; i++ {
		if bytes.Equal(pub, pubKey(i)) {
			return i
		}
	}
	return 999
}

func kCode(err error, p bool) int {
	switch {
	case p:
		return -2
	case errorsIs(err, iotago.ErrAddressKeysNotMapped):
		return -1
	case errorsIs(err, iotago.ErrAddressKeysWrongType):
		return -3
	}
	return -2
}

func (r kReg) keys() iotago.AddressKeys {
	if r.Key == 0 {
		return iotago.AddressKeys{Address: r.A.addr(), Keys: "not a key"}
	}
	switch a := r.A.addr().(type) {
	case *iotago.Ed25519Address:
		return iotago.NewAddressKeysForEd25519Address(a, privKeys[r.Key])
	case *iotago.ImplicitAccountCreationAddress:
		return iotago.NewAddressKeysForImplicitAccountCreationAddress(a, privKeys[r.Key])
	case *iotago.RestrictedAddress:
		k, err := iotago.NewAddressKeysForRestrictedEd25519Address(a, privKeys[r.Key])
		must(err)
		return k
	}
	panic("no keys for " + r.A.Kind)
}

func signerRec(bulk int, regs []kReg, qs []kAddr) any {
	var s iotago.AddressSigner
	if bulk == 1 {
		var ks []ed25519.PrivateKey
		for _, r := range regs {
			if r.A.Kind == "ed" {
				ks = append(ks, privKeys[r.Key])
			}
		}
		s = iotago.NewInMemoryAddressSignerFromEd25519PrivateKeys(ks...)
	} else {
		var ks []iotago.AddressKeys
		for _, r := range regs {
			ks = append(ks, r.keys())
		}
		s = iotago.NewInMemoryAddressSigner(ks...)
	}
	out := []*kQuery{}
	for _, qa := range qs {
		a := qa.addr()
		q := &kQuery{A: qa, Unl: [][]any{}}
		out = append(out, q)
		msg := []byte("verif message " + fmt.Sprint(qa))
		var sig iotago.Signature
		err, p := guard(func() (e error) { sig, e = s.Sign(a, msg); return })
		if err != nil {
			q.Sign = kCode(err, p)
		} else {
			es, _ := sig.(*iotago.Ed25519Signature)
			q.Sign = keyOfPub(es.PublicKey[:])
			q.Good = flag01(ed25519.Verify(es.PublicKey[:], msg, es.Signature[:]))
			for k := 1; k <= 4; k++ {
				ed, imp := kAddr{"ed", k, 0}.addr().(*iotago.Ed25519Address), kAddr{"imp", k, 0}.addr().(*iotago.ImplicitAccountCreationAddress)
				if ed.Unlock(msg, sig) == nil {
					q.Unl = append(q.Unl, []any{"ed", k})
				}
				if imp.Unlock(msg, sig) == nil {
					q.Unl = append(q.Unl, []any{"imp", k})
				}
				if es.MatchesAddress(ed) != (k == q.Sign) || es.MatchesAddress(imp) != (k == q.Sign) || (es.Valid(msg, ed) == nil) != (k == q.Sign) {
					q.Bad = 1
				}
				if ed.Unlock(append(msg, 1), sig) == nil || imp.Unlock(msg[1:], sig) == nil {
					q.Bad = 1
				}
			}
			if q.Sign <= 20 && es.SignerUID() != iotago.Identifier(keyHash(q.Sign)) {
				q.Bad = 1
			}
		}
		var uid iotago.Identifier
		err, p = guard(func() (e error) { uid, e = s.SignerUIDForAddress(a); return })
		if err != nil {
			q.UID = kCode(err, p)
		} else {
			q.UID = 999
			for k := 0; k <= 20; k++ {
				if uid == iotago.Identifier(keyHash(k)) {
					q.UID = k
				}
			}
		}
		var e iotago.Signature
		err, _ = guard(func() (x error) { e, x = s.EmptySignatureForAddress(a); return })
		if err == nil && e != nil {
			es, is := e.(*iotago.Ed25519Signature)
			q.Empty = flag01(is && *es == iotago.Ed25519Signature{})
		}
	}
	if regs == nil {
		regs = []kReg{}
	}
	return map[string]any{"op": "signer", "bulk": bulk, "regs": regs, "qs": out}
}

func txSignRec(g *rand.Rand, regs []kReg) any {
	var ks []iotago.AddressKeys
	for _, r := range regs {
		ks = append(ks, r.keys())
	}
	st := simpleTx(psets[g.Intn(4)].API, g.Uint32(), nil, 1+g.Intn(3))
	ok, good, keys := 1, 1, []int{}
	var sigs []iotago.Signature
	err, _ := guard(func() (e error) { sigs, e = st.Transaction.Sign(ks...); return })
	if err != nil {
		ok = 0
	} else {
		msg, err := signingMessage(st.Transaction)
		must(err)
		for _, s := range sigs {
			es := s.(*iotago.Ed25519Signature)
			keys = append(keys, keyOfPub(es.PublicKey[:]))
			if !ed25519.Verify(es.PublicKey[:], msg, es.Signature[:]) {
				good = 0
			}
		}
	}
	if regs == nil {
		regs = []kReg{}
	}
	return map[string]any{"op": "txsign", "regs": regs, "ok": ok, "good": good, "keys": keys}
}

// ---- key managers ----

type kElem struct {
	N int `json:"n"`
	H int `json:"h"`
}
type kUse struct {
	MK       string  `json:"mk"`
	Seed     int     `json:"seed"`
	Path     []kElem `json:"path"`
	Idx      int     `json:"idx"`
	OK       int     `json:"ok"`
	Pub      int     `json:"pub"`
	Priv     int     `json:"priv"`
	Ed       int     `json:"ed"`
	Imp      int     `json:"imp"`
	Sig      int     `json:"sig"`
	Restored int     `json:"restored"`
}

func kPath(g *rand.Rand) (p []kElem) {
	for i := 0; i < 5; i++ {
		p = append(p, kElem{[]int{44, 4218, 0, 0, 0}[i], 1})
	}
	switch g.Intn(8) {
	case 0:
		p[1].N = 4219
	case 1:
		p[g.Intn(5)].N = g.Intn(3)
	case 2:
		p[g.Intn(5)].N = 1<<31 - 1 - g.Intn(2)
	case 3:
		p = append(p, kElem{g.Intn(2), 1})
	case 4:
		p = p[:g.Intn(5)]
	case 5:
		p[g.Intn(5)].H = 0
	case 6:
		p[4].N = g.Intn(4)
	}
	return
}

func deriveRec(g *rand.Rand) any {
	type manager struct {
		k     *wallet.KeyManager
		mk    string
		seed  int
		path  []kElem
		words string
	}
	pubs := map[string]int{}
	id := func(pub []byte) int {
		if _, ok := pubs[string(pub)]; !ok {
			pubs[string(pub)] = len(pubs) + 1
		}
		return pubs[string(pub)]
	}
	hashes := map[iotago.Identifier]int{}
	byHash := func(h []byte) int { return hashes[iotago.Identifier(h)] }
	var ms []manager
	base := g.Intn(1000)
	var paths [][]kElem
	for i := 0; i < 3; i++ {
		paths = append(paths, kPath(g))
	}
	text := func(p []kElem) string {
		if len(p) == 0 {
			return "m"
		}
		q := g.Intn(2)
		s := "m"
		for _, e := range p {
			s += fmt.Sprintf("/%d", e.N)
			if e.H == 1 {
				s += []string{"'", "H"}[q]
			}
		}
		return s
	}
	for i := 0; i < 2+g.Intn(4); i++ {
		m := manager{path: paths[g.Intn(3)]}
		var err error
		switch g.Intn(4) {
		case 0, 1:
			n := g.Intn(3)
			e := hash32([]byte(fmt.Sprint("entropy", base, n)))
			e[0] |= 1 // see mnemonicRec
			words, er := bip39.EntropyToMnemonic(e[:])
			must(er)
			m.mk, m.seed, m.words = "mnemonic", n+1, words.String()
			if g.Intn(3) == 0 { // the seed of the mnemonic
				s, er := bip39.MnemonicToSeed(words, "")
				must(er)
				m.mk, m.words = "seed", ""
				m.k, err = wallet.NewKeyManager(s, text(m.path))
			} else {
				m.k, err = wallet.NewKeyManagerFromMnemonic(m.words, text(m.path))
			}
		case 2:
			n := g.Intn(3)
			s := hash32([]byte(fmt.Sprint("seed", base, n)))
			m.mk, m.seed = "seed", n+10
			m.k, err = wallet.NewKeyManager(s[:16+16*g.Intn(1)], text(m.path))
		default:
			m.mk, m.seed = "random", 100+i
			m.k, err = wallet.NewKeyManagerFromRandom(text(m.path))
		}
		must(err)
		ms = append(ms, m)
	}
	uses := []*kUse{}
	idxs := []int{-1, 0, 1, 2, 1<<31 - 1, g.Intn(1 << 30)}
	for i := 0; i < 4+g.Intn(8); i++ {
		m := ms[g.Intn(len(ms))]
		u := &kUse{MK: m.mk, Seed: m.seed, Path: m.path, Idx: idxs[g.Intn(len(idxs))], Restored: -1}
		if u.Path == nil {
			u.Path = []kElem{}
		}
		uses = append(uses, u)
		var ix []uint32
		if u.Idx >= 0 {
			ix = []uint32{uint32(u.Idx)}
		}
		_, _ = guard(func() error {
			priv, pub := m.k.KeyPair(ix...)
			u.Pub = id(pub)
			hashes[iotago.Identifier(hash32(pub))] = u.Pub
			u.Priv = id(priv.Public().(ed25519.PublicKey))
			ed := m.k.Address(iotago.AddressEd25519, ix...)
			if ed.Type() == iotago.AddressEd25519 {
				u.Ed = byHash(ed.ID()[1:])
			}
			imp := m.k.Address(iotago.AddressImplicitAccountCreation, ix...)
			if imp.Type() == iotago.AddressImplicitAccountCreation {
				u.Imp = byHash(imp.ID()[1:])
			}
			// a signer for several indexes, this one among them
			ixs := append([]uint32{}, ix...)
			if len(ix) > 0 && g.Intn(2) == 0 {
				ixs = append(ixs, uint32(g.Intn(5)))
				g.Shuffle(len(ixs), func(a, b int) { ixs[a], ixs[b] = ixs[b], ixs[a] })
			}
			s := m.k.AddressSigner(ixs...)
			for _, a := range []iotago.Address{ed, imp} {
				sig, err := s.Sign(a, []byte("m"))
				if err != nil {
					return err
				}
				es := sig.(*iotago.Ed25519Signature)
				u.Sig = id(es.PublicKey[:])
				if !ed25519.Verify(es.PublicKey[:], []byte("m"), es.Signature[:]) || u.Sig != u.Pub {
					u.Sig = -1
					break
				}
			}
			u.OK = 1
			return nil
		})
		if u.OK == 1 && m.mk != "seed" {
			u.Restored = 0
			_, _ = guard(func() error {
				w := m.k.Mnemonic()
				if m.words != "" && w.String() != m.words {
					return nil
				}
				k2, err := wallet.NewKeyManagerFromMnemonic(w.String(), text(m.path))
				if err != nil {
					return err
				}
				_, pub := k2.KeyPair(ix...)
				u.Restored = id(pub)
				return nil
			})
		}
		// what the manager hands out can be changed without changing the manager
		_, _ = guard(func() error {
			p := m.k.Path(ix...)
			for j := range p {
				p[j] ^= 1
			}
			return nil
		})
	}
	return map[string]any{"op": "derive", "uses": uses}
}

// a valid mnemonic is accepted, whatever its entropy
func mnemonicRec(g *rand.Rand) any {
	e := hash32([]byte(fmt.Sprint("mnemonic", g.Int63())))
	if g.Intn(2) == 0 {
		e[0] = 0
	}
	n := 32
	if g.Intn(3) == 0 {
		n = []int{16, 20, 24, 28}[g.Intn(4)]
	}
	words, err := bip39.EntropyToMnemonic(e[:n])
	must(err)
	good := 1
	how := g.Intn(8)
	switch how {
	case 0: // another word, so most probably another checksum
		j := g.Intn(len(words))
		o := hash32([]byte(fmt.Sprint("other", g.Int63())))
		more, err := bip39.EntropyToMnemonic(o[:])
		must(err)
		words[j] = more[g.Intn(len(more))]
	case 1:
		words[g.Intn(len(words))] = "iota"
	case 2:
		words = append(words, words...)
	case 3:
		words = words[:len(words)-1]
	}
	if how < 4 {
		if _, err := bip39.MnemonicToEntropy(words); err != nil {
			good = 0
		}
	}
	var pan bool
	err, pan = guard(func() error {
		_, err := wallet.NewKeyManagerFromMnemonic(words.String(), wallet.DefaultIOTAPath)
		return err
	})
	return map[string]any{"op": "mnemonic", "zero": flag01(e[0] == 0), "ok": flag01(err == nil), "words": len(words), "good": good, "panic": flag01(pan)}
}

// ---- signatures of blocks and attestations ----

// encodings of points of small order: signatures by the empty key are among R, S = 0
var smallOrder = [][]byte{
	unhex("0100000000000000000000000000000000000000000000000000000000000000"),
	unhex("ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
	unhex("0000000000000000000000000000000000000000000000000000000000000080"),
	unhex("0000000000000000000000000000000000000000000000000000000000000000"),
}

func unhex(s string) []byte { b, err := hex.DecodeString(s); must(err); return b }

type contentRec struct {
	Op      string `json:"op"`
	What    string `json:"what"`
	Content int    `json:"content"` // 1: the signed one
	Sig     int    `json:"sig"`     // 1: the signature made
	Key     int    `json:"key"`     // 0: the empty key
	Res     string `json:"res"`
	SameID  int    `json:"sameid"` // identifier is that of the block signed
}

func verdict(f func() (bool, error)) string {
	res := "error"
	_, p := guard(func() error {
		ok, err := f()
		if err == nil {
			res = map[bool]string{true: "valid", false: "invalid"}[ok]
		}
		return nil
	})
	if p {
		return "panic"
	}
	return res
}

func contentRecs(g *rand.Rand) (out []any) {
	r := randomBlock(g)
	b := r.build()
	key := 1 + g.Intn(5)
	empty := g.Intn(6) == 0
	var attBytes, blkBytes []byte
	var blkID, attID iotago.BlockID
	err, p := guard(func() error {
		signer := iotago.NewInMemoryAddressSignerFromEd25519PrivateKeys(privKeys[key])
		sig, err := b.Sign(signer, kAddr{[]string{"ed", "imp", "res"}[g.Intn(3)], key, 1}.addr())
		if err != nil {
			return err
		}
		b.Signature = sig
		if empty { // a signature anybody can make for the empty key
			msg, err := b.SigningMessage()
			if err != nil {
				return err
			}
			es := &iotago.Ed25519Signature{}
			for _, R := range smallOrder {
				copy(es.Signature[:], R)
				if hiveEd25519.Verify(es.PublicKey[:], msg, es.Signature[:]) {
					break
				}
			}
			b.Signature = es
		}
		if blkBytes, err = b.API.Encode(b); err != nil {
			return err
		}
		blkID = b.MustID()
		a := iotago.NewAttestation(b.API, b)
		if attID, err = a.BlockID(); err != nil {
			return err
		}
		if attBytes, err = b.API.Encode(a); err != nil {
			return err
		}
		return nil
	})
	if err != nil || p {
		return nil
	}
	k01 := 1
	if empty {
		k01 = 0
	}
	sigLen := iotago.Ed25519SignatureSerializedBytesSize
	for what, raw := range map[string][]byte{"block": blkBytes, "attestation": attBytes} {
		at := dataOffsets(b.API, b, raw)
		for j := 0; j < 12; j++ {
			m := raw
			if j > 0 {
				m, _ = mutateBytes(g, raw)
				if j%3 == 0 { // in the signature
					m = append([]byte{}, raw...)
					m[len(m)-1-g.Intn(sigLen)] ^= 1 << uint(g.Intn(8))
				}
			}
			if hugeData(m, at) {
				continue
			}
			rec := &contentRec{Op: "content", What: what, Key: k01}
			var re []byte
			var id iotago.BlockID
			skip := true
			// decoding without validation: contents that are not valid blocks are signed contents as well
			_, _ = guard(func() error {
				if what == "block" {
					d := &iotago.Block{}
					if _, err := b.API.Decode(m, d); err != nil {
						return err
					}
					d.API = b.API
					var err error
					if re, err = b.API.Encode(d); err != nil {
						return err
					}
					id, err = d.ID()
					if err != nil {
						return err
					}
					skip = false
					rec.Res = verdict(d.VerifySignature)
					return nil
				}
				d := &iotago.Attestation{}
				if _, err := b.API.Decode(m, d); err != nil {
					return err
				}
				d.API = b.API
				var err error
				if re, err = b.API.Encode(d); err != nil {
					return err
				}
				if id, err = d.BlockID(); err != nil {
					return err
				}
				skip = false
				rec.Res = verdict(d.VerifySignature)
				return nil
			})
			if skip || len(re) < sigLen {
				continue
			}
			rec.Content = flag01(bytes.Equal(re[:len(re)-sigLen], raw[:len(raw)-sigLen]))
			rec.Sig = flag01(bytes.Equal(re[len(re)-sigLen:], raw[len(raw)-sigLen:]))
			if rec.Sig == 0 && re[len(re)-sigLen] != raw[len(raw)-sigLen] {
				continue // another kind of signature
			}
			if bytes.Equal(re[len(re)-sigLen+1:len(re)-64], make([]byte, 32)) {
				rec.Key = 0
			} else if empty {
				continue // points of small order near the empty key
			}
			rec.SameID = flag01(id == blkID && id == attID)
			out = append(out, rec)
		}
	}
	return
}

// ---- copies and comparisons ----

// addresses of memory reachable from v that could be changed through it
func reach(v reflect.Value, seen map[uintptr]string, path string, depth int) {
	if depth > 12 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.Type().Name() == "API" {
			return
		}
		reach(v.Elem(), seen, path, depth+1)
	case reflect.Pointer:
		if v.IsNil() || v.Type().Elem().Size() == 0 || strings.HasSuffix(v.Type().String(), "V3API") || strings.HasSuffix(v.Type().String(), "serix.API") {
			return
		}
		if _, ok := seen[v.Pointer()]; ok {
			return
		}
		seen[v.Pointer()] = path + ":" + v.Type().String()
		reach(v.Elem(), seen, path, depth+1)
	case reflect.Slice:
		if v.Len() == 0 || v.Type().Elem().Size() == 0 {
			return
		}
		if _, ok := seen[v.Pointer()]; !ok {
			seen[v.Pointer()] = path + ":" + v.Type().String()
		}
		for i := 0; i < v.Len(); i++ {
			reach(v.Index(i), seen, path, depth+1)
		}
	case reflect.Array:
		if k := v.Type().Elem().Kind(); k >= reflect.Bool && k <= reflect.Complex128 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			reach(v.Index(i), seen, path, depth+1)
		}
	case reflect.Map:
		if v.Len() == 0 {
			return
		}
		seen[v.Pointer()] = path + ":" + v.Type().String()
		for it := v.MapRange(); it.Next(); {
			reach(it.Value(), seen, path, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			reach(v.Field(i), seen, path+"."+v.Type().Field(i).Name, depth+1)
		}
	}
}

func shared(a, b any) []string {
	sa, sb := map[uintptr]string{}, map[uintptr]string{}
	reach(reflect.ValueOf(a), sa, "", 0)
	reach(reflect.ValueOf(b), sb, "", 0)
	out := []string{}
	for p, x := range sa {
		if _, ok := sb[p]; ok {
			out = append(out, x)
		}
	}
	sort.Strings(out)
	if len(out) > 3 {
		out = out[:3]
	}
	return out
}

func typeName(x any) string { return strings.TrimPrefix(fmt.Sprintf("%T", x), "*iotago.") }

// callClone calls x.Clone()
func callClone(x any) any { return reflect.ValueOf(x).MethodByName("Clone").Call(nil)[0].Interface() }

func encodeAny(api iotago.API, x any) ([]byte, error) {
	if api == nil {
		return iotago.CommonSerixAPI().Encode(context.TODO(), x)
	}
	return api.Encode(x)
}

func copyRec(api iotago.API, x any) any {
	rec := map[string]any{"op": "copy", "what": typeName(x), "eq": 1, "enc": 0, "shared": []string{}, "panic": 0}
	e1, err := encodeAny(api, x)
	if err != nil {
		return nil
	}
	_, p := guard(func() error {
		c := callClone(x)
		if eq := reflect.ValueOf(x).MethodByName("Equal"); eq.IsValid() {
			rec["eq"] = flag01(eq.Call([]reflect.Value{reflect.ValueOf(c)})[0].Bool())
		}
		e2, err := encodeAny(api, c)
		if err != nil {
			return err
		}
		rec["enc"] = flag01(bytes.Equal(e1, e2))
		rec["shared"] = shared(x, c)
		return nil
	})
	rec["panic"] = flag01(p)
	return rec
}

func equalRec(api iotago.API, x, y any) any {
	rec := map[string]any{"op": "equal", "what": typeName(x), "eq": 0, "rev": 0, "enc": 0, "key": -1, "panic": 0}
	if typeName(x) != typeName(y) {
		rec["what"] = "other type"
	}
	e1, err := encodeAny(api, x)
	if err != nil {
		return nil
	}
	e2, err := encodeAny(api, y)
	if err != nil {
		return nil
	}
	rec["enc"] = flag01(bytes.Equal(e1, e2))
	_, p := guard(func() error {
		rec["eq"] = flag01(reflect.ValueOf(x).MethodByName("Equal").Call([]reflect.Value{reflect.ValueOf(y)})[0].Bool())
		rec["rev"] = flag01(reflect.ValueOf(y).MethodByName("Equal").Call([]reflect.Value{reflect.ValueOf(x)})[0].Bool())
		if a, ok := x.(iotago.Address); ok {
			rec["key"] = flag01(a.Key() == y.(iotago.Address).Key())
		}
		return nil
	})
	rec["panic"] = flag01(p)
	return rec
}

// objects with Clone or Equal inside x
func parts(v reflect.Value, depth int, f func(any)) {
	if depth > 12 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.Type().Name() != "API" {
			parts(v.Elem(), depth+1, f)
		}
	case reflect.Pointer:
		if v.IsNil() || strings.HasSuffix(v.Type().String(), "V3API") {
			return
		}
		if v.CanInterface() && (v.MethodByName("Clone").IsValid() || v.MethodByName("Equal").IsValid()) && strings.Contains(v.Type().String(), "iotago.") {
			f(v.Interface())
		}
		if v.Type().Elem().Kind() == reflect.Struct {
			parts(v.Elem(), depth+1, f)
		}
	case reflect.Slice:
		if v.Len() > 0 && v.CanInterface() && v.MethodByName("Clone").IsValid() && strings.Contains(v.Type().String(), "iotago.") && v.Type().Elem().Kind() != reflect.Uint8 {
			f(v.Interface())
		}
		for i := 0; i < v.Len(); i++ {
			parts(v.Index(i), depth+1, f)
		}
	case reflect.Struct:
		if strings.Contains(v.Type().String(), "big.Int") {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				parts(v.Field(i), depth+1, f)
			}
		}
	}
}

// where tagged data starts in the encoding raw of x, see hugeData
func dataOffsets(api iotago.API, x any, raw []byte) (at []int) {
	parts(reflect.ValueOf(x), 0, func(y any) {
		if _, ok := y.(*iotago.TaggedData); ok {
			if pb, err := api.Encode(y); err == nil {
				if i := bytes.Index(raw, pb); i >= 0 {
					at = append(at, i)
				}
			}
		}
	})
	return
}

func structureRecs(g *rand.Rand, r *Rec) (out []any) {
	add := func(x any) {
		if x != nil {
			out = append(out, x)
		}
	}
	r.normalize()
	b := newBinder(r)
	_, _ = guard(func() error {
		b.rankAll()
		st, err := b.signed()
		if err != nil {
			return err
		}
		api := b.ps.API
		var objs []any
		parts(reflect.ValueOf(st), 0, func(x any) { objs = append(objs, x) })
		for _, in := range b.resolved().InputSet {
			objs = append(objs, in)
		}
		for _, x := range objs {
			v := reflect.ValueOf(x)
			if v.MethodByName("Clone").IsValid() {
				add(copyRec(api, x))
			}
			eq := v.MethodByName("Equal")
			if !eq.IsValid() || v.Kind() != reflect.Pointer || eq.Type().NumIn() != 1 {
				continue
			}
			// something near it: one field changed in a decoded copy
			raw, err := encodeAny(api, x)
			if err != nil {
				continue
			}
			for j := 0; j < 3; j++ {
				m := append([]byte{}, raw...)
				if j > 0 {
					m[g.Intn(len(m))] ^= 1 << uint(g.Intn(8))
				}
				if hugeData(m, dataOffsets(api, x, raw)) {
					continue
				}
				y := blankOf(x)
				err, p := guard(func() error {
					n, e := api.Decode(m, y, serix.WithValidation())
					if e == nil && n != len(m) {
						e = fmt.Errorf("not all")
					}
					return e
				})
				if err == nil && !p {
					add(equalRec(api, x, y))
				}
			}
			// another object of the same interface
			o := objs[g.Intn(len(objs))]
			if e2 := reflect.ValueOf(o).MethodByName("Equal"); e2.IsValid() && e2.Type() == eq.Type() {
				add(equalRec(api, x, o))
			}
		}
		return nil
	})
	return
}

// ---- block issuer keys ----

func ikeysRec(h []kOp) any {
	// keys numbered by their order
	type kk struct{ h [32]byte }
	var hs [][32]byte
	for i := 1; i <= 12; i++ {
		hs = append(hs, keyHash(i))
	}
	sort.Slice(hs, func(a, b int) bool { return bytes.Compare(hs[a][:], hs[b][:]) < 0 })
	key := func(k int) iotago.BlockIssuerKey {
		return &iotago.Ed25519PublicKeyHashBlockIssuerKey{PublicKeyHash: hs[k-1]}
	}
	num := func(k iotago.BlockIssuerKey) int {
		for i := range hs {
			if k.(*iotago.Ed25519PublicKeyHashBlockIssuerKey).PublicKeyHash == hs[i] {
				return i + 1
			}
		}
		return 999
	}
	nums := func(ks iotago.BlockIssuerKeys) []int {
		out := []int{}
		for _, k := range ks {
			out = append(out, num(k))
		}
		return out
	}
	obs, has, kept := [][]int{}, [][]int{}, 1
	_, _ = guard(func() error {
		keys := iotago.NewBlockIssuerKeys()
		var snaps []iotago.BlockIssuerKeys
		for _, o := range h {
			snaps = append(snaps, keys.Clone())
			if o.O == "add" {
				keys.Add(key(o.K))
			} else {
				keys.Remove(key(o.K))
			}
			hh := []int{}
			for k := 1; k <= 12; k++ {
				if keys.Has(key(k)) {
					hh = append(hh, k)
				}
			}
			obs, has = append(obs, nums(keys)), append(has, hh)
		}
		for i, s := range snaps {
			want := []int{}
			if i > 0 {
				want = obs[i-1]
			}
			if !reflect.DeepEqual(nums(s), want) || (i > 0 && iotago.NewBlockIssuerKeys(s...).Equal(s) != true) {
				kept = 0
			}
		}
		return nil
	})
	if h == nil {
		h = []kOp{}
	}
	return map[string]any{"op": "ikeys", "h": h, "obs": obs, "has": has, "kept": kept}
}

// ---- encodings of addresses ----

func addrBytes(g *rand.Rand) []byte {
	a, _ := bechAddress(g)
	raw, err := iotago.CommonSerixAPI().Encode(context.TODO(), a)
	must(err)
	b := append([]byte{}, raw...)
	kinds := []byte{0, 8, 16, 24, 32, 40, 48, 1, 255}
	for n := g.Intn(3); n > 0; n-- {
		switch g.Intn(8) {
		case 0:
			b[0] = kinds[g.Intn(len(kinds))]
		case 1:
			if len(b) > 1 {
				b[1] = kinds[g.Intn(len(kinds))]
			}
		case 2:
			b = append(b, randBytes(g, 1+g.Intn(3))...)
		case 3:
			if len(b) > 1 {
				b = b[:len(b)-1-g.Intn(minInt(3, len(b)-1))]
			}
		case 4:
			i := maxi(0, len(b)-1-g.Intn(4))
			b[i] = byte(g.Intn(4))
		case 5:
			b[g.Intn(len(b))] ^= 1 << uint(g.Intn(8))
		case 6: // a weight, a kind or the threshold of a shared address
			for i := 0; i < len(b)-36; i += 34 {
				if g.Intn(3) == 0 {
					b[minInt(len(b)-1, i+2+g.Intn(2)*33)] = []byte{0, 1, 255, 32, 40, 8}[g.Intn(6)]
				}
			}
		default:
			if len(b) > 70 { // swap or repeat two addresses
				i := 2
				if b[0] == 48 {
					i = 3
				}
				x := append([]byte{}, b[i:i+34]...)
				if g.Intn(2) == 0 {
					copy(b[i:], b[i+34:i+68])
				}
				copy(b[i+34:], x)
			}
		}
	}
	return b
}

func bytesRec(b []byte) any {
	rec := map[string]any{"op": "bytes", "b": bts(b), "fb": 0, "fr": 0, "same": 0, "samer": 0, "panic": 0}
	_, p := guard(func() error {
		a, n, err := iotago.AddressFromBytes(b)
		if err == nil {
			re, e := iotago.CommonSerixAPI().Encode(context.TODO(), a)
			rec["fb"], rec["same"] = n, flag01(e == nil && bytes.Equal(re, b[:n]))
		}
		rd := bytes.NewReader(b)
		a, err = iotago.AddressFromReader(rd)
		if err == nil {
			n := len(b) - rd.Len()
			re, e := iotago.CommonSerixAPI().Encode(context.TODO(), a)
			rec["fr"], rec["samer"] = n, flag01(e == nil && bytes.Equal(re, b[:n]))
		}
		return nil
	})
	rec["panic"] = flag01(p)
	return rec
}

func keyBytesRec(g *rand.Rand) any {
	b := append([]byte{0}, randBytes(g, 32)...)
	switch g.Intn(5) {
	case 0:
		b[0] = byte(g.Intn(3))
	case 1:
		b = b[:g.Intn(len(b))]
	case 2:
		b = append(b, 1)
	}
	rec := map[string]any{"op": "keybytes", "b": bts(b), "fb": 0, "fr": 0, "same": 0, "samer": 0, "panic": 0}
	same := func(k iotago.BlockIssuerKey) int {
		x, err := k.Bytes()
		return flag01(err == nil && len(b) >= 33 && bytes.Equal(x, b[:33]))
	}
	_, p := guard(func() error {
		k, n, err := iotago.BlockIssuerKeyFromBytes(b)
		if err == nil {
			rec["fb"], rec["same"] = n, same(k)
		}
		rd := bytes.NewReader(b)
		k, err = iotago.BlockIssuerKeyFromReader(rd)
		if err == nil {
			rec["fr"], rec["samer"] = len(b)-rd.Len(), same(k)
		}
		return nil
	})
	rec["panic"] = flag01(p)
	return rec
}

func accountRec(g *rand.Rand) any {
	k := 1 + g.Intn(5)
	id := iotago.AccountID(hash32([]byte{byte(g.Intn(256))}))
	rec := map[string]any{"op": "account", "key": k, "owner": -1, "addr": 0, "priv": -1, "panic": 0}
	_, p := guard(func() error {
		var a wallet.Account = wallet.NewEd25519Account(id, privKeys[k])
		if g.Intn(2) == 0 {
			var err error
			if a, err = wallet.AccountFromParams(id.ToHex(), hex.EncodeToString(privKeys[k])); err != nil {
				return err
			}
		}
		rec["addr"] = flag01(bytes.Equal(a.Address().ID(), append([]byte{8}, id[:]...)) && a.ID() == id)
		for j := 0; j <= 20; j++ {
			h := keyHash(j)
			if bytes.Equal(a.OwnerAddress().ID(), append([]byte{0}, h[:]...)) {
				rec["owner"] = j
			}
			if bytes.Equal(a.PrivateKey(), privKeys[j]) {
				rec["priv"] = j
			}
		}
		return nil
	})
	rec["panic"] = flag01(p)
	return rec
}

func keysCmd(in, out, _ string, seed int64, n int) {
	debug.SetMemoryLimit(4 << 30)
	var jobs []func() []any
	one := func(f func() any) {
		jobs = append(jobs, func() []any {
			if x := f(); x != nil {
				return []any{x}
			}
			return nil
		})
	}
	if in != "" {
		readLines(in, func(b []byte) {
			c := struct {
				Op   string
				Bulk int
				Regs []kReg
				Qs   []kAddr
				H    []kOp
			}{}
			must(json.Unmarshal(b, &c))
			one(func() any {
				if c.Op == "ikeys" {
					return ikeysRec(c.H)
				}
				return signerRec(c.Bulk, c.Regs, c.Qs)
			})
		})
	}
	g := rand.New(rand.NewSource(seed))
	kinds := []string{"ed", "imp", "res"}
	for i := 0; i < n; i++ {
		g := rand.New(rand.NewSource(g.Int63()))
		regs := func(wrong bool) (rs []kReg) {
			for k := g.Intn(5); k > 0; k-- {
				r := kReg{kAddr{kinds[g.Intn(3)], 1 + g.Intn(4), g.Intn(3)}, 1 + g.Intn(4)}
				if wrong && g.Intn(8) == 0 {
					r.Key = 0
				}
				if g.Intn(3) > 0 {
					if r.Key != 0 {
						r.Key = r.A.K
					}
				}
				rs = append(rs, r)
			}
			return
		}
		switch i % 12 {
		case 0:
			var qs []kAddr
			for _, kd := range []string{"ed", "imp", "res", "res", "acc", "nft", "anc", "multi", "resacc"} {
				qs = append(qs, kAddr{kd, 1 + g.Intn(4), g.Intn(3)})
			}
			if g.Intn(4) == 0 { // signer from keys: both plain forms of each
				var rs []kReg
				for k := g.Intn(4); k > 0; k-- {
					x := 1 + g.Intn(4)
					rs = append(rs, kReg{kAddr{"ed", x, 0}, x}, kReg{kAddr{"imp", x, 0}, x})
				}
				one(func() any { return signerRec(1, rs, qs) })
			} else {
				rs := regs(true)
				one(func() any { return signerRec(0, rs, qs) })
			}
		case 1:
			rs := regs(g.Intn(2) == 0)
			one(func() any { return txSignRec(g, rs) })
		case 2:
			one(func() any { return deriveRec(g) })
			one(func() any { return mnemonicRec(g) })
		case 3, 4:
			jobs = append(jobs, func() []any { return contentRecs(g) })
		case 5:
			var h []kOp
			for k := g.Intn(25); k > 0; k-- {
				h = append(h, kOp{[]string{"add", "add", "rem"}[g.Intn(3)], 1 + g.Intn(12)})
			}
			one(func() any { return ikeysRec(h) })
		case 6, 7, 8:
			one(func() any { return bytesRec(addrBytes(g)) })
		case 9:
			one(func() any { return keyBytesRec(g) })
		case 10:
			one(func() any { return accountRec(g) })
		default:
			jobs = append(jobs, func() (xs []any) {
				a, _ := bechAddress(g)
				b, _ := bechAddress(g)
				api := psets[0].API
				_ = api
				for _, x := range []any{copyRec(nil, a), equalRec(nil, a, b), equalRec(nil, a, a)} {
					if x != nil {
						xs = append(xs, x)
					}
				}
				return
			})
		}
	}
	for _, f := range []string{"S05", "V02", "V04", "V06", "V08", "V10"} {
		for _, r := range generate(f, seed+7, maxi(2, n/400)) {
			g := rand.New(rand.NewSource(g.Int63()))
			jobs = append(jobs, func() []any { return structureRecs(g, r) })
		}
	}
	res := make([][]any, len(jobs))
	parallel(len(jobs), func(k int) { res[k] = jobs[k]() })
	var all []any
	for _, r := range res {
		all = append(all, r...)
	}
	writeLines(out, all)
}
