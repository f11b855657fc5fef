package ref

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"strconv"
	"strings"
)

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Encode writes the case in the line format the C++ runner reads.
func (c *Case) Encode(w io.Writer) {
	p := func(f string, a ...any) { fmt.Fprintf(w, f+"\n", a...) }
	p("case %d", c.ID)
	if c.Tag != "" {
		p("tag %s", strings.ReplaceAll(c.Tag, " ", "_"))
	}
	p("rev %d", c.Rev)
	p("static %d", b2i(c.Static))
	p("depth %d", c.Depth)
	p("gas %d", c.Gas)
	p("to %x", c.Recipient)
	p("from %x", c.Sender)
	p("input %s", HexBytes(c.Input))
	p("value %x", c.Value)
	p("code %s", HexBytes(c.Code))
	if c.CodeHash {
		p("codehash %x", c.CodeKey())
	} else if c.ZeroHash {
		p("codehash %x", Hash{})
	}
	p("create %d", b2i(c.Create))
	for _, a := range sortedKeys(c.Accounts) {
		x := c.Accounts[a]
		h := Hash{}
		if x.Balance.Sign() != 0 || x.Nonce != 0 || len(x.Code) != 0 {
			h = Keccak256(x.Code)
		}
		p("acct %x %064x %d %s %x", a, x.Balance, x.Nonce, HexBytes(x.Code), h)
	}
	p("emptyhash %x", Keccak256(nil))
	for _, k := range sortedSlots(c.Storage) {
		v := c.Storage[k]
		p("slot %x %x %x %x", k.A, k.K, v.Cur, v.Orig)
	}
	for _, k := range sortedSlots(c.Transient) {
		p("trans %x %x %x", k.A, k.K, c.Transient[k])
	}
	for _, a := range sortedKeys(c.WarmAddr) {
		p("warma %x", a)
	}
	for _, k := range sortedSlots(c.WarmSlot) {
		p("warms %x %x", k.A, k.K)
	}
	for _, a := range sortedKeys(c.Destroyed) {
		p("destroyed %x", a)
	}
	p("ctx %d %d %d %x %x %x %x %x %x %x %d", c.Number, c.Timestamp, c.GasLimit, c.Coinbase, c.Origin, c.PrevRandao, c.ChainID, c.BaseFee, c.BlobBaseFee, c.GasPrice, c.BlockHashSeed)
	for _, h := range c.BlobHashes {
		p("blob %x", h)
	}
	for _, r := range c.Replies {
		p("reply %d %d %d %x %s", r.Status, r.GasFrac, r.Refund, r.Created, HexBytes(r.Output))
		for _, e := range r.Effects {
			p("reff %c %x %x %x", e.Kind, e.A, e.K, e.V)
		}
	}
	for _, o := range c.Opts {
		p("opt %s %s", o[0], o[1])
	}
	p("end")
}

func (c *Case) String() string {
	var sb strings.Builder
	c.Encode(&sb)
	return sb.String()
}

// DecodeCases reads cases in the same format.
func DecodeCases(r io.Reader) ([]*Case, error) {
	sc := bufio.NewScanner(r)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	var res []*Case
	var c *Case
	h := func(s string) (x Hash) { copy(x[:], UnhexBytes(s)); return }
	ad := func(s string) (x Addr) { copy(x[:], UnhexBytes(s)); return }
	n := func(s string) int64 {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			panic(err)
		}
		return v
	}
	for sc.Scan() {
		f := strings.Fields(sc.Text())
		if len(f) == 0 || strings.HasPrefix(f[0], "#") {
			continue
		}
		switch f[0] {
		case "case":
			c = &Case{ID: int(n(f[1])), Accounts: map[Addr]*Account{}, Storage: map[Slot]StorageVal{}, Transient: map[Slot]Hash{},
				WarmAddr: map[Addr]bool{}, WarmSlot: map[Slot]bool{}, Destroyed: map[Addr]bool{}}
		case "tag":
			c.Tag = f[1]
		case "rev":
			c.Rev = int(n(f[1]))
		case "static":
			c.Static = f[1] == "1"
		case "depth":
			c.Depth = int(n(f[1]))
		case "gas":
			c.Gas = n(f[1])
		case "to":
			c.Recipient = ad(f[1])
		case "from":
			c.Sender = ad(f[1])
		case "input":
			c.Input = UnhexBytes(f[1])
		case "value":
			c.Value = h(f[1])
		case "code":
			c.Code = UnhexBytes(f[1])
		case "codehash":
			c.ZeroHash = h(f[1]) == Hash{}
			c.CodeHash = !c.ZeroHash
			for c.HashPart = 0; c.CodeHash && c.HashPart < 4 && c.CodeKey() != h(f[1]); {
				c.HashPart++
			}
		case "create":
			c.Create = f[1] == "1"
		case "acct":
			b, _ := new(big.Int).SetString(f[2], 16)
			nn, _ := strconv.ParseUint(f[3], 10, 64)
			c.Accounts[ad(f[1])] = &Account{b, nn, UnhexBytes(f[4])}
		case "slot":
			c.Storage[Slot{ad(f[1]), h(f[2])}] = StorageVal{h(f[3]), h(f[4])}
		case "trans":
			c.Transient[Slot{ad(f[1]), h(f[2])}] = h(f[3])
		case "warma":
			c.WarmAddr[ad(f[1])] = true
		case "warms":
			c.WarmSlot[Slot{ad(f[1]), h(f[2])}] = true
		case "destroyed":
			c.Destroyed[ad(f[1])] = true
		case "ctx":
			c.Number, c.Timestamp, c.GasLimit = n(f[1]), n(f[2]), n(f[3])
			c.Coinbase, c.Origin, c.PrevRandao, c.ChainID, c.BaseFee, c.BlobBaseFee, c.GasPrice = ad(f[4]), ad(f[5]), h(f[6]), h(f[7]), h(f[8]), h(f[9]), h(f[10])
			c.BlockHashSeed = byte(n(f[11]))
		case "blob":
			c.BlobHashes = append(c.BlobHashes, h(f[1]))
		case "reply":
			c.Replies = append(c.Replies, Reply{Status: int(n(f[1])), GasFrac: n(f[2]), Refund: n(f[3]), Created: ad(f[4]), Output: UnhexBytes(f[5])})
		case "reff":
			r := &c.Replies[len(c.Replies)-1]
			r.Effects = append(r.Effects, Effect{f[1][0], ad(f[2]), h(f[3]), h(f[4])})
		case "opt":
			c.Opts = append(c.Opts, [2]string{f[1], f[2]})
		case "end":
			res = append(res, c)
		}
	}
	return res, sc.Err()
}

// DecodeResults reads the results printed by the C++ runner, keyed by case id.
func DecodeResults(rd io.Reader) (map[int]*Result, error) {
	sc := bufio.NewScanner(rd)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	res := map[int]*Result{}
	var r *Result
	var id int
	for sc.Scan() {
		line := sc.Text()
		k, v, _ := strings.Cut(line, " ")
		switch k {
		case "result":
			id, _ = strconv.Atoi(v)
			r = &Result{}
		case "status":
			r.Status, r.Detail, _ = strings.Cut(v, " ")
		case "gas":
			r.Gas, _ = strconv.ParseInt(v, 10, 64)
		case "refund":
			r.Refund, _ = strconv.ParseInt(v, 10, 64)
		case "output":
			r.Output = UnhexBytes(v)
		case "ev":
			r.Events = append(r.Events, v)
		case "wa":
			r.WarmAddrs = append(r.WarmAddrs, v)
		case "ws":
			r.WarmSlots = append(r.WarmSlots, v)
		case "endresult":
			res[id] = r
		}
	}
	return res, sc.Err()
}

// CodeKey is the hash passed along with the code: its Keccak hash, or a key
// that is as unlikely to be the same for two codes, but differs in 64 bits only.
func (c *Case) CodeKey() Hash {
	h := Keccak256(c.Code)
	if c.HashPart > 0 {
		for i := range h {
			if i/8 != c.HashPart-1 {
				h[i] = 7
			}
		}
	}
	return h
}
