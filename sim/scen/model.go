package scen

import (
	"encoding/binary"
	"math/big"
	"math/bits"
	"sort"

	"golang.org/x/crypto/blake2b"
	"terorie.dev/nimiq/wire"
)

// The reference ledger: an independent, deliberately plain statement of the
// rules. It takes wire types only as plain input data.

type addr = [20]byte

// acct is an account of the reference ledger.
type acct struct {
	typ       uint8 // 0 basic, 1 vesting, 2 hashed time-lock
	value     uint64
	a, b      addr // owner or sender; recipient
	alg       uint8
	hash      [32]byte
	hashCount uint8
	start     uint32 // or timeout
	step      uint32
	stepAmt   uint64
	total     uint64
}

func be32(b []byte, v uint32) []byte { return binary.BigEndian.AppendUint32(b, v) }
func be64(b []byte, v uint64) []byte { return binary.BigEndian.AppendUint64(b, v) }
func be16(b []byte, v uint16) []byte { return binary.BigEndian.AppendUint16(b, v) }

// enc is the state entry of the account.
func (c *acct) enc() []byte {
	b := be64([]byte{c.typ}, c.value)
	switch c.typ {
	case 1:
		b = append(b, c.a[:]...)
		b = be32(be32(b, c.start), c.step)
		b = be64(be64(b, c.stepAmt), c.total)
	case 2:
		b = append(append(b, c.a[:]...), c.b[:]...)
		b = append(append(b, c.alg), c.hash[:]...)
		b = be32(append(b, c.hashCount), c.start)
		b = be64(b, c.total)
	}
	return b
}

// decAcct reads a state entry.
func decAcct(b []byte) (c acct, ok bool) {
	if len(b) < 9 {
		return c, false
	}
	c.typ = b[0]
	c.value = binary.BigEndian.Uint64(b[1:])
	p := b[9:]
	switch c.typ {
	case 0:
		return c, len(p) == 0
	case 1:
		if len(p) != 44 {
			return c, false
		}
		copy(c.a[:], p)
		c.start = binary.BigEndian.Uint32(p[20:])
		c.step = binary.BigEndian.Uint32(p[24:])
		c.stepAmt = binary.BigEndian.Uint64(p[28:])
		c.total = binary.BigEndian.Uint64(p[36:])
		return c, true
	case 2:
		if len(p) != 86 {
			return c, false
		}
		copy(c.a[:], p)
		copy(c.b[:], p[20:])
		c.alg = p[40]
		copy(c.hash[:], p[41:])
		c.hashCount = p[73]
		c.start = binary.BigEndian.Uint32(p[74:])
		c.total = binary.BigEndian.Uint64(p[78:])
		return c, true
	}
	return c, false
}

// toWire makes the account value the code under test uses.
func (c *acct) toWire() wire.Account {
	switch c.typ {
	case 0:
		return &wire.BasicAccount{Value: c.value}
	case 1:
		return &wire.VestingAccount{Value: c.value, Owner: c.a, VestingStart: c.start, VestingStepBlocks: c.step, VestingStepAmount: c.stepAmt, VestingTotalAmount: c.total}
	default:
		return &wire.HTLCAccount{Value: c.value, Sender: c.a, Recipient: c.b, Hash: wire.Hash{Algorithm: c.alg, Bytes: c.hash}, HashCount: c.hashCount, Timeout: c.start, TotalAmount: c.total}
	}
}

// fromWire is the inverse of toWire.
func fromWire(a wire.Account) (c acct, ok bool) {
	switch a := a.(type) {
	case *wire.BasicAccount:
		return acct{value: a.Value}, true
	case *wire.VestingAccount:
		return acct{typ: 1, value: a.Value, a: a.Owner, start: a.VestingStart, step: a.VestingStepBlocks, stepAmt: a.VestingStepAmount, total: a.VestingTotalAmount}, true
	case *wire.HTLCAccount:
		return acct{typ: 2, value: a.Value, a: a.Sender, b: a.Recipient, alg: a.Hash.Algorithm, hash: a.Hash.Bytes, hashCount: a.HashCount, start: a.Timeout, total: a.TotalAmount}, true
	}
	return c, false
}

// locked is the amount that must stay in a vesting contract.
func (c *acct) locked(height uint32) uint64 {
	if height <= c.start {
		return c.value
	}
	if c.step == 0 || c.stepAmt == 0 {
		return 0
	}
	k := new(big.Int).SetUint64((uint64(height) - uint64(c.start)) / uint64(c.step))
	k.Mul(k, new(big.Int).SetUint64(c.stepAmt))
	k.Sub(new(big.Int).SetUint64(c.total), k)
	if k.Sign() < 0 {
		return 0
	}
	return k.Uint64()
}

// signer parses an encoded signature proof at the start of b.
func signer(b []byte) (who addr, rest []byte, ok bool) {
	if len(b) < 33 {
		return
	}
	sum := blake2b.Sum256(b[:32])
	n := int(b[32])
	b = b[33:]
	nb := (n + 7) / 8
	if len(b) < nb+32*n+64 {
		return
	}
	path := b[:nb]
	b = b[nb:]
	for i := 0; i < n; i++ {
		h := b[:32]
		b = b[32:]
		var cat []byte
		if path[i/8]>>(7-uint(i%8))&1 == 1 {
			cat = append(append(cat, h...), sum[:]...)
		} else {
			cat = append(append(cat, sum[:]...), h...)
		}
		sum = blake2b.Sum256(cat)
	}
	copy(who[:], sum[:20])
	return who, b[64:], true
}

// refusal says why the reference ledger refuses a block. props names the
// properties that an acceptance contradicts.
type refusal struct {
	props string
	why   string
}

func no(props, why string) *refusal { return &refusal{props, why} }

// content is a transaction as the ledger sees it.
type content struct {
	sender, recipient addr
	st, rt            uint8
	value, fee        uint64
	creation          bool
	data, proof       []byte
	basic             bool
}

func contentOf(tx wire.Tx) content {
	switch t := tx.(type) {
	case *wire.BasicTx:
		h := blake2b.Sum256(t.SenderPubKey[:])
		c := content{recipient: t.Recipient, value: t.Value, fee: t.Fee, basic: true}
		copy(c.sender[:], h[:20])
		return c
	case *wire.ExtendedTx:
		return content{sender: t.Sender, recipient: t.Recipient, st: t.SenderType, rt: t.RecipientType, value: t.Value, fee: t.Fee,
			creation: t.Flags&1 != 0, data: t.Data, proof: t.Proof}
	}
	panic("unknown transaction")
}

// spend debits the account of a sender.
func (c acct) spend(t *content, height uint32) (acct, *refusal) {
	kind := "C07"
	switch c.typ {
	case 1:
		kind = "C07 C08"
	case 2:
		kind = "C07 C09"
	}
	amount, carry := bits.Add64(t.value, t.fee, 0)
	if carry != 0 || amount > c.value {
		return c, no(kind+" C06", "sender cannot pay value plus fee")
	}
	left := c.value - amount
	switch c.typ {
	case 1:
		if left < c.locked(height) {
			return c, no(kind, "vesting contract must keep the locked amount")
		}
		who, rest, ok := signer(t.proof)
		if !ok || len(rest) != 0 {
			return c, no(kind, "vesting proof is malformed")
		}
		if who != c.a {
			return c, no(kind, "vesting proof does not name the owner")
		}
	case 2:
		if len(t.proof) == 0 {
			return c, no(kind, "time-lock proof is missing")
		}
		p := t.proof[1:]
		switch t.proof[0] {
		case 1:
			if height > c.start {
				return c, no(kind, "regular transfer after the timeout")
			}
			if len(p) < 66 {
				return c, no(kind, "regular transfer proof is malformed")
			}
			who, rest, ok := signer(p[66:])
			if !ok || len(rest) != 0 {
				return c, no(kind, "regular transfer proof is malformed")
			}
			if p[0] != c.alg || string(p[2:34]) != string(c.hash[:]) {
				return c, no(kind, "regular transfer names another hash")
			}
			if who != c.b {
				return c, no(kind, "regular transfer not signed by the recipient")
			}
		case 2:
			who, rest, ok := signer(p)
			if !ok {
				return c, no(kind, "early resolve proof is malformed")
			}
			who2, rest, ok := signer(rest)
			if !ok || len(rest) != 0 {
				return c, no(kind, "early resolve proof is malformed")
			}
			if who != c.b || who2 != c.a {
				return c, no(kind, "early resolve not signed by both")
			}
		case 3:
			if height <= c.start {
				return c, no(kind, "timeout resolve before the timeout")
			}
			who, rest, ok := signer(p)
			if !ok || len(rest) != 0 {
				return c, no(kind, "timeout resolve proof is malformed")
			}
			if who != c.a {
				return c, no(kind, "timeout resolve not signed by the sender")
			}
		default:
			return c, no(kind, "unknown time-lock proof")
		}
	}
	c.value = left
	return c, nil
}

// create builds the contract a transaction creates.
func create(t *content, balance uint64) (c acct, r *refusal) {
	d := t.data
	c.typ = t.rt
	c.value = balance
	switch t.rt {
	case 1:
		bad := no("C07 C08", "malformed vesting creation data")
		if len(d) != 24 && len(d) != 36 && len(d) != 44 {
			return c, bad
		}
		copy(c.a[:], d)
		c.total = t.value
		c.stepAmt = t.value
		if len(d) == 24 {
			c.step = binary.BigEndian.Uint32(d[20:])
			return c, nil
		}
		c.start = binary.BigEndian.Uint32(d[20:])
		c.step = binary.BigEndian.Uint32(d[24:])
		c.stepAmt = binary.BigEndian.Uint64(d[28:])
		if len(d) == 44 {
			c.total = binary.BigEndian.Uint64(d[36:])
		}
		return c, nil
	case 2:
		bad := no("C07 C09", "malformed time-lock creation data")
		if len(d) != 78 {
			return c, bad
		}
		copy(c.a[:], d)
		copy(c.b[:], d[20:])
		c.alg = d[40]
		copy(c.hash[:], d[41:])
		c.hashCount = d[73]
		c.start = binary.BigEndian.Uint32(d[74:])
		c.total = t.value
		if c.hashCount == 0 {
			return c, bad
		}
		return c, nil
	}
	return c, no("C07", "creation of something that is not a contract")
}

// ledger is the reference state. Absent means basic and empty.
type ledger struct {
	m    map[addr]acct
	undo *undoLog
}

type undoLog struct {
	k    []addr
	v    []acct
	had  []bool
	prev *undoLog
}

func newLedger() *ledger { return &ledger{m: map[addr]acct{}} }

func (l *ledger) set(k addr, c acct) {
	old, had := l.m[k]
	if l.undo != nil {
		l.undo.k = append(l.undo.k, k)
		l.undo.v = append(l.undo.v, old)
		l.undo.had = append(l.undo.had, had)
	}
	if c.typ == 0 && c.value == 0 {
		delete(l.m, k)
	} else {
		l.m[k] = c
	}
}

func (l *ledger) begin() { l.undo = &undoLog{prev: l.undo} }

func (l *ledger) rollback() {
	u := l.undo
	for i := len(u.k) - 1; i >= 0; i-- {
		if u.had[i] {
			l.m[u.k[i]] = u.v[i]
		} else {
			delete(l.m, u.k[i])
		}
	}
	l.undo = u.prev
}

func (l *ledger) keep() {
	u := l.undo
	l.undo = u.prev
	if l.undo != nil {
		l.undo.k = append(l.undo.k, u.k...)
		l.undo.v = append(l.undo.v, u.v...)
		l.undo.had = append(l.undo.had, u.had...)
	}
}

func (l *ledger) clone() *ledger {
	c := newLedger()
	for k, v := range l.m {
		c.m[k] = v
	}
	return c
}

// before is the state at the beginning of the open group of changes.
func (l *ledger) before() *ledger {
	c := l.clone()
	if u := l.undo; u != nil {
		for i := len(u.k) - 1; i >= 0; i-- {
			if u.had[i] {
				c.m[u.k[i]] = u.v[i]
			} else {
				delete(c.m, u.k[i])
			}
		}
	}
	return c
}

// keys lists the entries in order.
func (l *ledger) keys() []addr {
	out := make([]addr, 0, len(l.m))
	for k := range l.m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return string(out[i][:]) < string(out[j][:]) })
	return out
}

// entries are the state entries of the ledger.
func (l *ledger) entries() map[addr][]byte {
	e := make(map[addr][]byte, len(l.m))
	for k, v := range l.m {
		v := v
		e[k] = v.enc()
	}
	return e
}

func (l *ledger) sum() *big.Int {
	s := new(big.Int)
	for _, v := range l.m {
		s.Add(s, new(big.Int).SetUint64(v.value))
	}
	return s
}

// verdict of the reference ledger on a block.
type verdict struct {
	r        *refusal
	dontcare string
	features string // properties the block's content concerns
	pruned   []wire.AccountPruned
	touched  map[addr]bool
}

// senders debits all senders, recipients and creations follow; the needed
// prune list is computed but not compared.
func (l *ledger) apply(b *wire.Block, v *verdict) {
	h := b.Header.Height
	ts := make([]content, len(b.Body.Txs))
	feat := map[string]bool{}
	for i := range ts {
		ts[i] = contentOf(b.Body.Txs[i].Tx)
		v.touched[ts[i].sender] = true
		v.touched[ts[i].recipient] = true
	}
	defer func() {
		for _, k := range []string{"C08", "C09", "C10"} {
			if feat[k] {
				v.features += " " + k
			}
		}
	}()
	for i := range ts {
		t := &ts[i]
		c := l.m[t.sender]
		switch c.typ {
		case 1:
			feat["C08"] = true
		case 2:
			feat["C09"] = true
		}
		if c.typ != t.st {
			v.r = no("C07", "declared sender type is wrong")
			return
		}
		if c.typ != 0 && t.value == 0 && t.fee == 0 {
			v.dontcare = "contract pays nothing"
		}
		n, r := c.spend(t, h)
		if r != nil {
			v.r = r
			return
		}
		if n.typ != 0 && n.value == 0 {
			feat["C10"] = true
		}
		l.set(t.sender, n)
	}
	for i := range ts {
		t := &ts[i]
		c := l.m[t.recipient]
		if !t.creation && t.rt != c.typ {
			v.r = no("C07", "declared recipient type is wrong")
			return
		}
		if c.typ != 0 {
			v.r = no("C07", "payment to a contract")
			return
		}
		c.value += t.value
		l.set(t.recipient, c)
	}
	for i := range ts {
		t := &ts[i]
		if !t.creation {
			continue
		}
		switch t.rt {
		case 1:
			feat["C08"] = true
		case 2:
			feat["C09"] = true
		}
		n, r := create(t, l.m[t.recipient].value)
		if r != nil {
			v.r = r
			return
		}
		if n.value == 0 {
			v.dontcare = "creation of an empty contract"
		}
		l.set(t.recipient, n)
	}
	// Emptied contracts.
	gone := map[addr]bool{}
	for i := range ts {
		k := ts[i].sender
		c, ok := l.m[k]
		if !ok || c.typ == 0 || c.value != 0 || gone[k] {
			continue
		}
		gone[k] = true
		feat["C10"] = true
		v.pruned = append(v.pruned, wire.AccountPruned{Address: k, Account: wire.WrapAccount{Account: c.toWire()}})
		l.set(k, acct{})
	}
}

// push applies a block or leaves the ledger unchanged.
func (l *ledger) push(b *wire.Block) (v verdict) {
	v.touched = map[addr]bool{}
	if b.Body == nil {
		v.r = no("C05 C07", "no body")
		return
	}
	if b.Header.Height < 1 {
		v.r = no("C05 C07", "height 0")
		return
	}
	for i := range b.Body.Txs {
		if b.Body.Txs[i].Tx == nil {
			v.r = no("C05 C07", "missing transaction")
			return
		}
	}
	v.touched[b.Body.MinerAddr] = true
	l.begin()
	l.apply(b, &v)
	if v.r == nil {
		// Compare the prune lists.
		need := map[addr]string{}
		for _, p := range v.pruned {
			c, _ := fromWire(p.Account.Account)
			need[p.Address] = string(c.enc())
		}
		seen := map[addr]bool{}
		for _, p := range b.Body.Pruned {
			if seen[p.Address] {
				v.r = no("C07 C10", "address pruned twice")
			}
			seen[p.Address] = true
			c, ok := fromWire(p.Account.Account)
			if !ok || need[p.Address] != string(c.enc()) {
				v.r = no("C07 C10", "superfluous or altered prune entry")
			}
		}
		if v.r == nil && len(seen) != len(need) {
			v.r = no("C07 C10", "missing prune entry")
		}
		if len(need)+len(seen) > 0 {
			if !contains(v.features, "C10") {
				v.features += " C10"
			}
		}
	}
	if v.r == nil {
		c := l.m[b.Body.MinerAddr]
		if c.typ != 0 {
			v.r = no("C07", "miner account is a contract")
		}
		total := refReward(b.Header.Height)
		for i := range b.Body.Txs {
			t := contentOf(b.Body.Txs[i].Tx)
			total += t.fee
		}
		c.value += total
		l.set(b.Body.MinerAddr, c)
	}
	if v.r != nil {
		l.rollback()
	} else {
		l.keep()
	}
	return
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

// --- emission ---

const (
	specInitial   = 252_000_000_000_000
	specCap       = 2_100_000_000_000_000
	specTailStart = 48_692_960
	specTail      = 4000
	specEvery     = 4096
	specEnd       = 52_900_000 // nothing is emitted any more
)

var refSupplies []uint64 // supply after block i*specEvery

func specReward(before uint64, height uint32) uint64 {
	if height == 0 {
		return 0
	}
	rest := uint64(specCap) - before
	if height >= specTailStart && rest >= specTail {
		return specTail
	}
	return rest >> 22
}

// refSupply is the supply after a block, from scratch.
func refSupply(height uint32) uint64 {
	if height > specEnd {
		height = specEnd
	}
	if refSupplies == nil {
		refSupplies = []uint64{specInitial}
	}
	for uint32(len(refSupplies)-1) < height/specEvery {
		i := uint32(len(refSupplies)-1) * specEvery
		s := refSupplies[len(refSupplies)-1]
		for j := i + 1; j <= i+specEvery; j++ {
			s += specReward(s, j)
		}
		refSupplies = append(refSupplies, s)
	}
	k := height / specEvery
	s := refSupplies[k]
	for j := k*specEvery + 1; j <= height; j++ {
		s += specReward(s, j)
	}
	return s
}

func refReward(height uint32) uint64 { return specReward(refSupply(height-1), height) }
