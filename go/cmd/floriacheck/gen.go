package main

import (
	"math/big"
	"math/rand"

	"github.com/Fantom-foundation/Tosca/go/tosca"
)

// scenario is one transaction with everything around it.
type scenario struct {
	tag     string
	block   tosca.BlockParameters
	tx      tosca.Transaction
	pre     *state
	scripts []*script
	// for go-ethereum's EVM
	kind    tosca.CallKind
	salt    tosca.Hash
	blobs   []tosca.Hash
	refund0 uint64
}

type gen struct {
	*rand.Rand
	s      *scenario
	focus  string
	places []tosca.Address // addresses worth calling
	codes  []int           // numbers of scripts that may be used as callees' code
	max    int
}

var sender0 = addr("5e00000000000000000000000000000000000001")

func (g *gen) n(k int) int           { return g.Intn(k) }
func (g *gen) chance(p float64) bool { return g.Float64() < p }

func (g *gen) hash() (h tosca.Hash) { g.Read(h[:]); return }

func (g *gen) place() tosca.Address { return g.places[g.n(len(g.places))] }

func (g *gen) small() tosca.Value {
	switch g.n(6) {
	case 0, 1:
		return tosca.Value{}
	case 2:
		return tosca.NewValue(1)
	case 3:
		return tosca.NewValue(uint64(g.n(1000)))
	case 4:
		return tosca.NewValue(uint64(g.n(1 << 20)))
	}
	return tosca.NewValue(g.Uint64()>>1, 0)
}

func (g *gen) input(most int) []byte {
	b := make([]byte, g.n(most+1))
	for i := range b {
		if g.chance(0.5) {
			b[i] = byte(g.n(256))
		}
	}
	return b
}

var revisions = []tosca.Revision{tosca.R07_Istanbul, tosca.R09_Berlin, tosca.R10_London, tosca.R11_Paris, tosca.R12_Shanghai, tosca.R13_Cancun}

// requests to the state contract, well-formed or almost so
func (g *gen) request() []byte {
	a := func() []byte { x := g.place(); return append(make([]byte, 12), x[:]...) }
	dirty := func() []byte { x := a(); g.Read(x[:12]); return x }
	var in []byte
	switch g.n(7) {
	case 0:
		v := g.small()
		in = stateInput(selectors["setBalance"], a(), v[:])
	case 1:
		in = stateInput(selectors["copyCode"], a(), a())
	case 2:
		in = stateInput(selectors["swapCode"], a(), a())
	case 3:
		in = stateInput(selectors["setStorage"], a(), u64word(uint64(g.n(4))), u64word(uint64(g.n(4))))
	case 4, 5:
		n := u64word([]uint64{0, 1, 2, 100, 254, 255, 256, 257, 1 << 32, 1<<64 - 1}[g.n(10)])
		if g.chance(0.25) {
			n[g.n(24)] = 1 << g.n(8) // far above what fits a word of the machine
		}
		in = stateInput(selectors["incNonce"], a(), n)
	case 6:
		in = stateInput(selectors["setBalance"], dirty(), u64word(g.Uint64()))
	}
	switch g.n(10) {
	case 0:
		in = in[:g.n(len(in)+1)]
	case 1:
		in = append(in, make([]byte, 1+g.n(40))...)
	case 2:
		in[g.n(4)] ^= 1 << g.n(8)
	case 3:
		if g.chance(0.4) { // the driver itself as the target
			copy(in[16:36], driver[:])
		}
	}
	return in
}

func (g *gen) addScript(s *script) int {
	g.s.scripts = append(g.s.scripts, s)
	return len(g.s.scripts) - 1
}

func (g *gen) deployed() []byte {
	switch g.n(12) {
	case 0:
		return nil
	case 1:
		return []byte{0xef}
	case 2:
		return append([]byte{0xef, 0}, g.input(20)...)
	case 3:
		return make([]byte, 24576)
	case 4:
		return make([]byte, 24577)
	case 5:
		return make([]byte, 24575+g.n(3))
	case 6:
		return []byte{0, 0xef}
	case 7:
		return make([]byte, g.n(2000))
	}
	return codeOf(g.codes[g.n(len(g.codes))], g.n(30))
}

// newScript makes a random behaviour; init code ends in code to deploy.
func (g *gen) newScript(depth int, init bool) *script {
	s := &script{end: "ssssrrf"[g.n(7)]}
	if g.chance(0.01) {
		s.end = 'e'
	}
	for i := g.n(7); i >= 0; i-- {
		o := op{k: byte(g.n(4)), v: byte(g.n(4)), to: g.place()}
		switch x := g.n(100); {
		case x < 12:
			o.do, o.frac = 'b', int64(g.n(500))
		case x < 30:
			o.do = 's'
		case x < 38:
			o.do = 't'
		case x < 48:
			o.do = 'l'
		case x < 52:
			o.do = 'a'
		case x < 55:
			o.do = 'k'
			if gethMode && g.chance(0.5) {
				o.do = 'q'
			}
		case x < 57:
			o.do = 'd'
			if g.chance(0.2) {
				o.do = 's'
			}
			if operaMode {
				o.do = 'q' // what the world does is not the processor's
			}
		default:
			o = g.call(depth)
		}
		s.ops = append(s.ops, o)
	}
	if g.chance(0.3) {
		s.burn = int64(g.n(3000))
	}
	if g.chance(0.3) {
		s.back = int64(g.n(20000))
	}
	if gethMode && g.chance(0.2) {
		s.back = -int64(g.n(20000)) // refunds may be taken back
	}
	s.out = g.input(40)
	if init && s.end == 's' {
		s.out = g.deployed()
	}
	return s
}

func (g *gen) call(depth int) op {
	o := op{do: 'c', k: byte(g.n(4)), to: g.place(), val: g.small(), frac: int64(g.n(257)), in: g.input(40), overdraw: g.chance(0.3)}
	o.kind = []tosca.CallKind{tosca.Call, tosca.Call, tosca.Call, tosca.StaticCall, tosca.DelegateCall, tosca.CallCode, tosca.Create, tosca.Create2}[g.n(8)]
	if g.focus == "P05" && g.chance(0.5) {
		o.kind = []tosca.CallKind{tosca.Create, tosca.Create2}[g.n(2)]
	}
	if g.chance(0.3) {
		o.frac = 256
	}
	if o.to == stateCon || g.focus == "P07" && g.chance(0.4) {
		o.to, o.in = stateCon, g.request()
		if o.frac < 200 {
			o.frac = 256
		}
		if g.chance(0.8) {
			o.kind = tosca.Call
		} else {
			o.kind = tosca.StaticCall
		}
		if g.chance(0.7) {
			o.val = tosca.Value{}
		}
	}
	if o.kind == tosca.Create || o.kind == tosca.Create2 {
		if g.chance(0.5) {
			o.salt = tosca.Hash{31: byte(g.n(2))} // repeats collide
		} else {
			o.salt = g.hash()
		}
		switch {
		case g.chance(0.05):
			o.in = nil
		case depth < 2 && len(g.s.scripts) < g.max:
			o.in = codeOf(g.addScript(g.newScript(depth+1, true)), g.n(40))
		default:
			o.in = codeOf(g.codes[g.n(len(g.codes))], g.n(10))
		}
		o.frac = max(o.frac, 128)
	} else if g.chance(0.3) && o.to != stateCon {
		// precompiled contracts, valid, invalid or not affordable
		o.to = tosca.Address{19: byte(1 + g.n(11))}
		if g.chance(0.4) {
			o.in = append([]byte{0xba, 0xd0}, o.in...)
		}
	}
	return o
}

func newGen(seed int64, focus string) *gen {
	g := &gen{Rand: rand.New(rand.NewSource(seed)), focus: focus, max: 24}
	g.s = &scenario{pre: newState()}
	return g
}

func (g *gen) scenario() *scenario {
	s, pre := g.s, g.s.pre
	b := &s.block
	b.Revision = revisions[g.n(len(revisions))]
	if operaMode {
		b.Revision = revisions[g.n(3)]
	}
	b.ChainID, b.BlockNumber, b.Timestamp, b.GasLimit = tosca.Word(g.hash()), int64(g.n(1<<30)), int64(g.n(1<<30)), tosca.Gas(g.n(1<<30))
	b.PrevRandao, b.BaseFee, b.BlobBaseFee = tosca.Hash(g.hash()), g.small(), g.small()
	copy(b.Coinbase[:], g.input(20))

	t := &s.tx
	t.Sender = sender0
	switch g.n(12) {
	case 0:
		t.Sender = tosca.Address{}
	case 1:
		t.Sender = driver
	}
	if g.focus == "P07" && g.chance(0.4) {
		t.Sender = driver
	}

	// accounts
	const contracts = 5
	g.places = []tosca.Address{{1: 0xe0, 19: 1}, {1: 0xe0, 19: 2}, {1: 0xdd, 19: 3}, t.Sender, stateCon, driver, {19: 4}}
	if gethMode { // neighbours of the precompiled contracts
		for i := g.n(3); i > 0; i-- {
			a := tosca.Address{18: byte(1 + g.n(255)), 19: byte(1 + g.n(10))}
			switch g.n(4) {
			case 0:
				a = tosca.Address{19: byte(1 + g.n(10))}
				a[g.n(19)] = 1
			case 1:
				a = tosca.Address{19: byte(11 + g.n(245))}
			}
			g.places = append(g.places, a)
			pre.code[a], pre.nonce[a] = codeOf(g.n(contracts), 0), 1
		}
		g.places = append(g.places, tosca.Address{19: 10})
	}
	for i := 0; i < contracts; i++ {
		g.places = append(g.places, tosca.Address{0xc0, 19: byte(i + 1)})
	}
	for i := 0; i < contracts+2; i++ {
		g.codes = append(g.codes, i)
		s.scripts = append(s.scripts, &script{end: 's'}) // filled in below
	}
	for i := 0; i < contracts+2; i++ {
		*s.scripts[i] = *g.newScript(0, false)
	}
	for i := 0; i < contracts; i++ {
		a := g.places[len(g.places)-contracts+i]
		pre.code[a], pre.nonce[a], pre.bal[a] = codeOf(i, g.n(60)), uint64(1+g.n(3)), g.small()
		if g.chance(0.1) {
			pre.nonce[a] = []uint64{0x7f, 0x80, 0xff, 0x100, 1 << 40, 1<<64 - 3}[g.n(6)]
		}
		if g.chance(0.4) {
			pre.sto[slot{a, tosca.Key{31: byte(g.n(4))}}] = tosca.Word{31: byte(1 + g.n(3))}
		}
	}
	pre.bal[g.places[0]] = g.small()
	pre.bal[g.places[1]], pre.nonce[g.places[1]] = tosca.NewValue(1), 1
	if g.chance(0.1) && !gethMode {
		pre.bal[g.places[0]] = unval(new(big.Int).Sub(two256, big.NewInt(int64(1+g.n(1000))))) // receiving overflows
	}
	if t.Sender != driver && g.chance(0.6) {
		pre.code[driver] = codeOf(contracts, 3) // the driver is a contract
		pre.nonce[driver] = 1
		pre.bal[driver] = g.small()
	}
	if g.chance(0.2) {
		pre.code[stateCon] = []byte{0}
	}
	if g.chance(0.1) {
		pre.warmA[g.place()] = true
	}

	// the transaction
	t.Nonce = []uint64{0, 1, 2, 5, 0x7f, 0x80, 0xff, 0x100, 1<<64 - 2}[g.n(9)]
	pre.nonce[t.Sender] = t.Nonce
	switch {
	case g.chance(0.12) && g.focus != "P05" || g.focus == "P05" && g.chance(0.4):
		t.Recipient = nil
	default:
		r := g.place()
		if g.chance(0.5) {
			r = g.places[len(g.places)-1-g.n(contracts)]
		}
		if g.chance(0.06) {
			r = tosca.Address{19: byte(g.n(12))}
		}
		if g.focus == "P07" {
			r = []tosca.Address{stateCon, driver, r}[g.n(3)]
		}
		t.Recipient = &r
	}
	t.Input = g.input(60)
	if g.chance(0.05) {
		t.Input = append([]byte{0xba, 0xd0}, t.Input...)
	}
	if t.Recipient == nil {
		t.Input = codeOf(g.addScript(g.newScript(0, true)), g.n(40))
		if g.chance(0.06) {
			t.Input = append(t.Input, make([]byte, 2*24576-len(t.Input)+g.n(4)-1)...)
		}
		if g.chance(0.1) { // something already is at the new address
			a := newAddress(tosca.Create, tosca.CallParameters{Sender: t.Sender}, t.Nonce, tosca.Hash{})
			switch g.n(4) {
			case 0:
				pre.nonce[a] = 1
			case 1:
				pre.code[a] = []byte{0}
			case 2:
				pre.bal[a] = tosca.NewValue(7)
			case 3:
				pre.sto[slot{a, tosca.Key{}}] = tosca.Word{1}
				pre.nonce[a] = 1
			}
		}
	} else if *t.Recipient == stateCon {
		t.Input = g.request()
	}
	if g.chance(0.4) || g.focus == "P08" {
		switch g.n(8) {
		case 0:
			t.AccessList = []tosca.AccessTuple{}
		default:
			for i := g.n(4); i >= 0; i-- {
				e := tosca.AccessTuple{Address: g.place()}
				if g.chance(0.3) {
					copy(e.Address[:], g.input(20))
				}
				for j := g.n(4); j > 0; j-- {
					e.Keys = append(e.Keys, tosca.Key{31: byte(g.n(4))})
				}
				t.AccessList = append(t.AccessList, e)
			}
		}
		if g.chance(0.1) {
			t.AccessList = nil
		}
	}
	if g.chance(0.5) {
		t.Value = g.small()
	}
	need := intrinsic(*t)
	switch g.n(8) {
	case 0:
		t.GasLimit = tosca.Gas(need + int64(g.n(3)) - 1)
	case 1:
		t.GasLimit = tosca.Gas(need + int64(g.n(3000)))
	case 2:
		t.GasLimit = tosca.Gas(need + 1<<uint(20+g.n(38)))
	case 3:
		t.GasLimit = tosca.Gas(need + int64(g.n(100000)))
	case 4:
		t.GasLimit = tosca.Gas(g.n(60000))
	default:
		t.GasLimit = tosca.Gas(need + int64(g.n(10000000)))
	}
	switch g.n(8) {
	case 0:
	case 1:
		t.GasPrice = tosca.NewValue(1)
	case 2:
		t.GasPrice = tosca.NewValue(uint64(g.n(1 << 30)))
	case 3:
		t.GasPrice = tosca.NewValue(g.Uint64()>>uint(g.n(60)), 0)
	case 4: // price times limit passes 2^256, or half of it
		if g.chance(0.5) {
			t.GasPrice = tosca.NewValue(uint64(1 + g.n(50)))
			break
		}
		// price times limit passes 2^256
		q := new(big.Int).Div(two256, big.NewInt(max(1, int64(t.GasLimit))))
		q.Add(q, big.NewInt(int64(g.n(5)-1)))
		if g.chance(0.3) {
			q.Mul(q, big.NewInt(int64(1+g.n(7))))
		}
		if q.BitLen() <= 256 {
			t.GasPrice = unval(q)
		}
	default:
		t.GasPrice = tosca.NewValue(uint64(1 + g.n(50)))
	}
	// what the sender owns: enough, just enough, or a little short
	fee := new(big.Int).Mul(val(t.GasPrice), big.NewInt(int64(t.GasLimit)))
	own := new(big.Int).Add(fee, val(t.Value))
	switch g.n(8) {
	case 0:
		own.Set(fee)
	case 1:
		own.Sub(fee, big.NewInt(int64(1+g.n(2))))
	case 2:
		own.Sub(own, big.NewInt(int64(g.n(3)-1)))
	default:
		own.Add(own, big.NewInt(int64(g.n(1<<30))))
	}
	if own.Sign() < 0 {
		own.SetInt64(0)
	}
	if own.Cmp(two256) >= 0 {
		own.Mod(own, two256)
	}
	if own.BitLen() > 250 { // leave room for what the sender may receive, all there is stays below 2^256
		own.Rsh(own, 1)
		pre.bal[g.places[0]] = g.small()
	}
	pre.bal[t.Sender] = unval(own)
	switch g.n(25) {
	case 0:
		t.Nonce++
	case 1:
		t.Nonce--
	case 2:
		pre.code[t.Sender] = codeOf(0, 0)
	case 3:
		if gethMode {
			break
		}
		t.Nonce = 1<<64 - 1
		pre.nonce[t.Sender] = t.Nonce
	case 4:
		t.Nonce ^= 1 << uint(g.n(64))
	}
	if g.chance(0.01) && pre.bal[g.places[0]][0] == 0 { // most of the currency at once
		t.GasPrice = tosca.Value{31: 1}
		v := new(big.Int).Rsh(two256, 1)
		v.Add(v, big.NewInt(int64(g.n(3)-1)))
		t.Value = unval(v)
		pre.bal[t.Sender] = unval(v.Add(v, new(big.Int).Lsh(big.NewInt(1), 64)))
	}
	if prop == "R01" {
		g.bridge()
	}
	return s
}

// bridge adds what only a call in go-ethereum's EVM has.
func (g *gen) bridge() {
	s := g.s
	s.kind = tosca.Call
	if s.tx.Recipient == nil {
		s.kind = []tosca.CallKind{tosca.Create, tosca.Create2}[g.n(2)]
		s.salt = g.hash()
	} else if g.chance(0.15) {
		s.kind = tosca.StaticCall
	}
	for g.chance(0.3) {
		s.blobs = append(s.blobs, g.hash())
	}
	if g.chance(0.2) {
		s.refund0 = uint64(g.n(30000))
	}
	if s.block.Revision < tosca.R11_Paris && g.chance(0.5) {
		s.block.PrevRandao = tosca.Hash{31: byte(g.n(256))}
	}
}

func intrinsic(t tosca.Transaction) int64 {
	n := int64(21000)
	if t.Recipient == nil {
		n = 53000
	}
	for _, b := range t.Input {
		n += 4
		if b != 0 {
			n += 12
		}
	}
	for _, e := range t.AccessList {
		n += 2400 + 1900*int64(len(e.Keys))
	}
	return n
}

// deepScenario calls itself until the depth limit, in every kind of call.
func (g *gen) deepScenario() *scenario {
	s, pre := g.s, g.s.pre
	s.tag = "deep"
	s.block.Revision = revisions[g.n(len(revisions))]
	if operaMode {
		s.block.Revision = revisions[g.n(3)]
	}
	self := tosca.Address{0xc0, 19: 1}
	other := tosca.Address{0xc0, 19: 2}
	s.tx = tosca.Transaction{Sender: sender0, Recipient: &self, GasLimit: 1 << 40}
	kinds := []tosca.CallKind{tosca.Call, tosca.StaticCall, tosca.DelegateCall, tosca.CallCode}
	mk := func(to tosca.Address) *script {
		return &script{end: "ssr"[g.n(3)], ops: []op{{do: 'l', k: 1}, {do: 'c', kind: kinds[g.n(4)], to: to, frac: 256, overdraw: true, val: tosca.NewValue(uint64(g.n(2)))}, {do: 's', k: 1, v: 2}}}
	}
	a, b := mk(other), mk(self)
	if g.chance(0.5) { // static kinds would forbid the effects
		a.ops, b.ops = a.ops[1:2], b.ops[1:2]
	}
	if g.chance(0.3) {
		a.ops = append(a.ops, op{do: 'c', kind: tosca.Create, in: codeOf(2, 0), frac: 256})
	}
	s.scripts = []*script{a, b, {end: 's', ops: []op{{do: 'c', kind: tosca.Call, to: self, frac: 256}}}}
	for _, x := range []tosca.Address{self, other} {
		pre.nonce[x], pre.bal[x] = 1, tosca.NewValue(5)
	}
	pre.code[self], pre.code[other] = codeOf(0, 0), codeOf(1, 0)
	return s
}
