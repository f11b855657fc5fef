// Package ref is an independent reference implementation of the Ethereum
// Virtual Machine (Istanbul to Cancun), written for clarity on math/big. It is
// the oracle the runtime monitors compare recorded executions against. It does
// not import anything from the repository under test.
package ref

import (
	"encoding/hex"
	"math/big"
	"sort"
	"strings"
)

type Addr [20]byte
type Hash [32]byte

type Slot struct {
	A Addr
	K Hash
}

const (
	Istanbul = iota
	Berlin
	London
	Paris
	Shanghai
	Cancun
	NumRevisions
)

type Kind int

const (
	Call Kind = iota
	DelegateCall
	StaticCall
	CallCode
	Create
	Create2
)

func (k Kind) String() string {
	return [...]string{"call", "delegatecall", "staticcall", "callcode", "create", "create2"}[k]
}

var (
	two256 = new(big.Int).Lsh(big.NewInt(1), 256)
	two255 = new(big.Int).Lsh(big.NewInt(1), 255)
	max256 = new(big.Int).Sub(two256, big.NewInt(1))
	zero   = big.NewInt(0)
	one    = big.NewInt(1)
)

func Wrap(x *big.Int) *big.Int {
	if x.Sign() >= 0 && x.BitLen() <= 256 {
		return x
	}
	return new(big.Int).And(x, max256) // big.Int And uses two's complement for negatives
}

func Signed(x *big.Int) *big.Int {
	if x.Cmp(two255) >= 0 {
		return new(big.Int).Sub(x, two256)
	}
	return x
}

func ToHash(x *big.Int) (h Hash) {
	x.FillBytes(h[:])
	return
}

func ToAddr(x *big.Int) (a Addr) {
	var h Hash
	x.FillBytes(h[:])
	copy(a[:], h[12:])
	return
}

func (h Hash) Big() *big.Int { return new(big.Int).SetBytes(h[:]) }
func (a Addr) Big() *big.Int { return new(big.Int).SetBytes(a[:]) }
func (h Hash) Hex() string   { return hex.EncodeToString(h[:]) }
func (a Addr) Hex() string   { return hex.EncodeToString(a[:]) }

func HexBytes(b []byte) string {
	if len(b) == 0 {
		return "-"
	}
	return hex.EncodeToString(b)
}

func UnhexBytes(s string) []byte {
	if s == "-" || s == "" {
		return nil
	}
	b, err := hex.DecodeString(s)
	if err != nil {
		panic("bad hex " + s)
	}
	return b
}

// Account is one account of a case. Accounts listed in a case are never empty
// in the sense of EIP-161 unless listed only for storage.
type Account struct {
	Balance *big.Int
	Nonce   uint64
	Code    []byte
}

type StorageVal struct{ Cur, Orig Hash }

// Effect is a change a nested call applies to the caller-visible state.
type Effect struct {
	Kind byte // 'S' storage, 'T' transient, 'W' warm address, 'K' warm slot, 'B' balance
	A    Addr
	K, V Hash
}

// Reply scripts the outcome of one nested call.
type Reply struct {
	Status  int   // 0 success, 1 revert, 2 failure
	GasFrac int64 // gas left = gas*GasFrac/255 (0 for failures)
	Refund  int64
	Created Addr
	Output  []byte
	Effects []Effect
}

// Case is one self-contained execution of one code.
type Case struct {
	ID        int
	Tag       string
	Rev       int
	Static    bool
	Depth     int
	Gas       int64
	Recipient Addr
	Sender    Addr
	Input     []byte
	Value     Hash
	Code      []byte
	CodeHash  bool // pass the keccak of the code along
	HashPart  int  // if not 0, only this quarter of the hash is passed along, the rest being the same for all codes
	ZeroHash  bool // pass zero along, for a hash that is not known (evmzero only, if not CodeHash)
	Create    bool // run as init code
	Accounts  map[Addr]*Account
	Storage   map[Slot]StorageVal
	Transient map[Slot]Hash
	WarmAddr  map[Addr]bool
	WarmSlot  map[Slot]bool
	Destroyed map[Addr]bool

	Number, Timestamp, GasLimit    int64
	Coinbase, Origin               Addr
	PrevRandao, ChainID            Hash
	BaseFee, BlobBaseFee, GasPrice Hash
	BlobHashes                     []Hash
	BlockHashSeed                  byte
	Replies                        []Reply
	Opts                           [][2]string // options to set before running (evmzero only)
}

// Result is the observable outcome of a run.
type Result struct {
	Status    string // success, revert, fail
	Detail    string
	Gas       int64
	Refund    int64
	Output    []byte
	Events    []string
	WarmAddrs []string
	WarmSlots []string
}

func BlockHash(seed byte, n int64) (h Hash) {
	for i := range h {
		h[i] = seed + byte(i)*7
	}
	for i := 0; i < 8; i++ {
		h[31-i] = byte(uint64(n) >> (8 * i))
	}
	return
}

func sortedKeys[V any](m map[Addr]V) []Addr {
	r := make([]Addr, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return strings.Compare(string(r[i][:]), string(r[j][:])) < 0 })
	return r
}

func sortedSlots[V any](m map[Slot]V) []Slot {
	r := make([]Slot, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool {
		if c := strings.Compare(string(r[i].A[:]), string(r[j].A[:])); c != 0 {
			return c < 0
		}
		return strings.Compare(string(r[i].K[:]), string(r[j].K[:])) < 0
	})
	return r
}
