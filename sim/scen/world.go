package scen

import (
	"bytes"
	"math/bits"
	"sort"

	"golang.org/x/crypto/blake2b"
	"nimsim/h"
	"terorie.dev/nimiq/wire"
)

// world builds blocks from plan steps against the reference ledger.
type world struct {
	actors []actor
	slots  []addr // contract addresses
	led    *ledger
	height uint32 // of the last accepted block
	clock  uint32 // height of the block being built, 0: next
	txs    []wire.WrapTx
	peek   *ledger // state after the senders of the pending transactions paid
	seed   uint64
	top    uint32 // the clock does not go further
	vary   bool   // fill in everything the ledger rules do not look at
}

// mag draws a number of any magnitude.
func mag(r *h.Rand) uint64 { return r.U64() >> uint(r.Intn(64)) }

// mag32 is like mag, for 32 bits.
func mag32(r *h.Rand) uint32 { return uint32(r.U64()) >> uint(r.Intn(32)) }

// spread makes a number of any magnitude out of a step argument.
func spread(raw uint64) uint64 {
	return h.HashBytes([]byte{byte(raw), byte(raw >> 8), byte(raw >> 16), byte(raw >> 24)}) >> (raw % 64)
}

// actor controls an address, alone or as one leaf of a multi-signature tree.
type actor struct {
	pub   [32]byte
	addr  addr
	proof []byte // encoded signature proof with an arbitrary signature
	multi bool
}

func newActor(r *h.Rand, multi bool) actor {
	a := actor{multi: multi}
	r.Fill(a.pub[:])
	sum := blake2b.Sum256(a.pub[:])
	var bitsB []byte
	var hs []byte
	n := 0
	if multi {
		n = 1 + r.Intn(4)
		if r.P(8) {
			n = 8 + r.Intn(3)
		} else if r.P(10) {
			n = 1 + r.Intn(255)
		} else if r.P(10) {
			n = []int{31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255}[r.Intn(13)]
		}
		bitsB = make([]byte, (n+7)/8)
		for i := 0; i < n; i++ {
			h := r.Bytes(32)
			if r.P(8) {
				// Neighbours that stand out.
				switch r.Intn(4) {
				case 0:
					h = make([]byte, 32)
				case 1:
					h = bytes.Repeat([]byte{0xff}, 32)
				case 2:
					copy(h, sum[:])
				case 3:
					copy(h, a.pub[:])
				}
			}
			left := r.P(50)
			var cat []byte
			if left {
				bitsB[i/8] |= 0x80 >> uint(i%8)
				cat = append(append(cat, h...), sum[:]...)
			} else {
				cat = append(append(cat, sum[:]...), h...)
			}
			sum = blake2b.Sum256(cat)
			hs = append(hs, h...)
		}
	}
	copy(a.addr[:], sum[:20])
	a.proof = append(a.proof, a.pub[:]...)
	a.proof = append(a.proof, byte(n))
	a.proof = append(a.proof, bitsB...)
	a.proof = append(a.proof, hs...)
	a.proof = append(a.proof, r.Bytes(64)...)
	return a
}

func newWorld(seed uint64, actors, slots int) *world {
	r := h.NewRand(seed ^ 0x77)
	w := &world{led: newLedger(), seed: seed, top: maxHeight}
	if actors < 1 {
		actors = 1
	}
	for i := 0; i < actors; i++ {
		w.actors = append(w.actors, newActor(r, i%4 == 3))
	}
	for i := 0; i < slots; i++ {
		var a addr
		r.Fill(a[:])
		if r.P(30) && i > 0 {
			a = w.slots[i-1] // neighbours in the tree
			a[19] ^= byte(1 + r.Intn(255))
		}
		w.slots = append(w.slots, a)
	}
	return w
}

// names of everything that may hold coins.
func (w *world) address(sel int) addr {
	n := len(w.actors) + len(w.slots)
	sel %= n + 2
	switch {
	case sel < len(w.actors):
		return w.actors[sel].addr
	case sel < n:
		return w.slots[sel-len(w.actors)]
	case sel == n:
		return addr{}
	default:
		var a addr
		for i := range a {
			a[i] = 0xff
		}
		return a
	}
}

func (w *world) universe() []addr {
	n := len(w.actors) + len(w.slots) + 2
	out := make([]addr, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, w.address(i))
	}
	return out
}

func (w *world) actorOf(a addr) *actor {
	for i := range w.actors {
		if w.actors[i].addr == a {
			return &w.actors[i]
		}
	}
	return &w.actors[0]
}

func (w *world) contracts(l *ledger) []addr {
	var out []addr
	for k, v := range l.m {
		if v.typ != 0 {
			out = append(out, k)
		}
	}
	sort.Slice(out, func(i, j int) bool { return string(out[i][:]) < string(out[j][:]) })
	return out
}

func (w *world) rich(l *ledger) []addr {
	var out []addr
	for i := range w.actors {
		if c := l.m[w.actors[i].addr]; c.typ == 0 && c.value > 0 {
			out = append(out, w.actors[i].addr)
		}
	}
	return out
}

func (w *world) now() uint32 {
	if w.clock != 0 {
		return w.clock
	}
	return w.height + 1
}

const maxHeight = 400_000

// setTime moves the simulated chain clock. Boundaries of contracts are popular.
func (w *world) setTime(s *h.Step) {
	mode, k, d := s.Mod(0, 6), s.UArg(1), s.Arg(2)
	cur := uint64(w.now())
	t := cur
	cs := w.contracts(w.led)
	switch mode {
	case 0:
		t = cur + k%5
	case 1:
		t = cur + k%20000
		if k%4 == 0 {
			t = cur + spread(k)%uint64(w.top)
		}
	case 2, 3, 4: // around a boundary
		if len(cs) == 0 {
			t = cur + k%100
			break
		}
		c := w.led.m[cs[int(k%uint64(len(cs)))]]
		t = uint64(c.start)
		if c.typ == 1 {
			t += uint64(c.step) * uint64(s.Mod(3, 12))
		}
		t = uint64(int64(t) + d%3)
	case 5: // back in time
		t = cur - k%(cur)
	}
	if t < 1 || t > uint64(w.top) {
		t = cur
	}
	w.clock = uint32(t)
}

func amount(mode int, raw uint64, bal, fee uint64) uint64 {
	avail := bal - fee
	if fee > bal {
		avail = 0
	}
	switch mode {
	case 0:
		return 1 + raw%1000
	case 1:
		return bal / 2
	case 2:
		return avail
	case 3:
		return avail + 1
	case 4:
		return 0
	case 5:
		return ^uint64(0) - raw%4
	case 6:
		return bal / 3
	case 7:
		return raw
	case 8:
		return ^uint64(0) - fee + 1 + raw%3 // wraps around
	case 9:
		if avail == ^uint64(0) {
			return spread(raw)
		}
		return spread(raw) % (avail + 1)
	case 10:
		return 1 << 63
	}
	return 0
}

func fee(mode int, raw uint64, bal uint64) uint64 {
	switch mode {
	case 0, 1, 2:
		return 0
	case 3:
		return 1 + raw%200
	case 4:
		return spread(raw>>3) % (bal/8 + 1)
	case 5:
		return bal
	case 6:
		return bal / 4
	case 7:
		return ^uint64(0) - raw%8
	case 8:
		return 1 << 63
	case 9:
		return bal + 1
	}
	return 0
}

func (w *world) ensurePeek() {
	if w.peek == nil {
		w.peek = w.led.clone()
	}
}

// Step arguments of a transaction.
const (
	tKind = iota
	tSender
	tRecipient
	tAmount
	tFee
	tVariant
	tRaw
	tExtra
)

// addTx builds a transaction and appends it to the pending block.
func (w *world) addTx(s *h.Step) {
	w.ensurePeek()
	r := h.NewRand(s.UArg(tRaw)*2654435761 + 7)
	kind := s.Mod(tKind, 8)
	raw := s.UArg(tRaw)
	recipient := w.address(int(s.UArg(tRecipient) % (1 << 20)))
	pick := func() addr {
		if rich := w.rich(w.peek); len(rich) > 0 && s.UArg(tSender)%16 != 15 {
			return rich[int(s.UArg(tSender)/16%uint64(len(rich)))]
		}
		return w.actors[s.Mod(tSender, len(w.actors))].addr
	}
	cs := w.contracts(w.peek)
	if (kind == 4 || kind == 5) && len(cs) == 0 {
		kind = 1
	}
	var tx wire.Tx
	switch kind {
	case 0, 7: // basic
		from := pick()
		a := w.actorOf(from)
		if a.multi {
			kind = 1
		} else {
			bal := w.peek.m[from].value
			f := fee(s.Mod(tFee, 10), raw, bal)
			t := &wire.BasicTx{SenderPubKey: a.pub, Recipient: recipient, Fee: f, Value: amount(s.Mod(tAmount, 11), raw, bal, f), ValidityStartHeight: w.now(), NetworkID: 4}
			r.Fill(t.Signature[:])
			tx = t
		}
		if tx != nil {
			break
		}
		fallthrough
	case 1:
		from := pick()
		bal := w.peek.m[from].value
		f := fee(s.Mod(tFee, 10), raw, bal)
		tx = &wire.ExtendedTx{Sender: from, Recipient: recipient, RecipientType: 0, Fee: f, Value: amount(s.Mod(tAmount, 11), raw, bal, f),
			ValidityStartHeight: w.now(), NetworkID: 4, Data: r.Bytes(r.Intn(20)), Proof: append([]byte(nil), w.actorOf(from).proof...)}
	case 2, 3: // contract creation
		from := pick()
		bal := w.peek.m[from].value
		f := fee(s.Mod(tFee, 10), raw, bal)
		v := amount(s.Mod(tAmount, 11), raw, bal, f)
		t := &wire.ExtendedTx{Sender: from, Recipient: recipient, RecipientType: uint8(kind - 1), Fee: f, Value: v,
			ValidityStartHeight: w.now(), NetworkID: 4, Flags: 1, Proof: append([]byte(nil), w.actorOf(from).proof...)}
		if len(w.slots) > 0 && s.UArg(tExtra)%8 != 0 {
			t.Recipient = w.slots[s.Mod(tRecipient, len(w.slots))]
		}
		owner := w.actors[r.Intn(len(w.actors))].addr
		if kind == 2 {
			t.Data = w.vestingData(r, owner, v, s.Mod(tVariant, 12))
		} else {
			t.Data = w.htlcData(r, from, owner, s.Mod(tVariant, 10))
		}
		tx = t
	case 4, 5: // spend from a contract
		from := cs[int(s.UArg(tSender)%uint64(len(cs)))]
		c := w.peek.m[from]
		var v uint64
		f := fee(s.Mod(tFee, 10), raw, c.value)
		m := s.Mod(tAmount, 16)
		switch {
		case m >= 11 && c.typ == 1: // around what is unlocked
			l := c.locked(w.now())
			free := uint64(0)
			if l <= c.value {
				free = c.value - l
			}
			v = free - f
			if f > free {
				v, f = free, 0
			}
			if m == 12 {
				v++
			} else if m == 13 && v > 0 {
				v--
			}
		case m >= 11:
			v = c.value - f
			if f > c.value {
				v, f = c.value, 0
			}
		default:
			v = amount(m, raw, c.value, f)
		}
		if v == 0 && f == 0 && c.value > 0 {
			v = 1
		}
		t := &wire.ExtendedTx{Sender: from, SenderType: c.typ, Recipient: recipient, Fee: f, Value: v, ValidityStartHeight: w.now(), NetworkID: 4}
		if rc := w.peek.m[recipient]; rc.typ != 0 && s.UArg(tExtra)%4 != 0 {
			t.Recipient = w.actors[0].addr
		}
		bad := 0
		if kind == 5 {
			bad = 1 + s.Mod(tVariant, 12)
		}
		t.Proof = w.contractProof(r, &c, bad, s.Mod(tExtra, 8))
		tx = t
	case 6: // wrong types, flags and so on
		from := pick()
		if len(cs) > 0 && raw%3 == 0 {
			from = cs[int(s.UArg(tSender)%uint64(len(cs)))]
		}
		c := w.peek.m[from]
		f := fee(s.Mod(tFee, 10), raw, c.value)
		t := &wire.ExtendedTx{Sender: from, SenderType: c.typ, Recipient: recipient, RecipientType: w.peek.m[recipient].typ, Fee: f, Value: amount(s.Mod(tAmount, 11), raw, c.value, f),
			ValidityStartHeight: w.now(), NetworkID: 4, Proof: append([]byte(nil), w.actorOf(from).proof...)}
		if c.typ != 0 {
			t.Proof = w.contractProof(r, &c, 0, s.Mod(tExtra, 8))
		}
		types := []uint8{0, 1, 2, 3, 0xff, uint8(r.U64())}
		switch s.Mod(tVariant, 8) {
		case 0:
			t.SenderType = types[r.Intn(6)]
		case 1:
			t.RecipientType = types[r.Intn(6)]
		case 2:
			t.Flags = 1
			t.RecipientType = types[r.Intn(6)]
			t.Data = w.vestingData(r, from, t.Value, r.Intn(12))
		case 3:
			t.Flags = uint8(2 << uint(r.Intn(7)))
			t.Data = w.vestingData(r, from, t.Value, 0)
		case 4:
			t.Flags = uint8(3 + 2*r.Intn(100))
			t.RecipientType = 1
			t.Data = w.vestingData(r, from, t.Value, r.Intn(6))
		case 5:
			t.Recipient = from
		case 6: // creation on top of an existing address
			t.Flags = 1
			t.RecipientType = 1 + uint8(r.Intn(2))
			if t.RecipientType == 1 {
				t.Data = w.vestingData(r, from, t.Value, r.Intn(6))
			} else {
				t.Data = w.htlcData(r, from, from, r.Intn(4))
			}
			if len(cs) > 0 {
				t.Recipient = cs[r.Intn(len(cs))]
			}
		}
		tx = t
	}
	if w.vary {
		w.varyTx(r, tx)
	}
	w.txs = append(w.txs, wire.WrapTx{Tx: tx})
	c := contentOf(tx)
	if n, ref := w.peek.m[c.sender].spend(&c, w.now()); ref == nil {
		w.peek.set(c.sender, n)
	}
}

// varyTx fills in what decides nothing about the effect of a transaction.
func (w *world) varyTx(r *h.Rand, tx wire.Tx) {
	id, from := uint8(4), w.now()
	if r.P(60) {
		id = uint8(r.U64())
	}
	if r.P(40) {
		from = mag32(r)
	}
	switch t := tx.(type) {
	case *wire.BasicTx:
		t.NetworkID, t.ValidityStartHeight = id, from
		if r.P(10) {
			t.Signature = [64]byte{}
		}
	case *wire.ExtendedTx:
		t.NetworkID, t.ValidityStartHeight = id, from
		if t.Flags&1 == 0 && r.P(40) {
			t.Data = r.Bytes(w.size(r))
		}
		if t.SenderType == 0 && r.P(30) {
			t.Proof = r.Bytes(w.size(r))
		}
	}
}

// size draws the length of a field with a 16-bit length prefix.
func (w *world) size(r *h.Rand) int {
	if r.P(6) {
		return int(uint16(r.U64())) >> uint(r.Intn(16))
	}
	if r.P(10) {
		return []int{127, 128, 255, 256, 257, 1000}[r.Intn(6)]
	}
	return r.Intn(200)
}

// varyHeader fills in what decides nothing about the effect of a block.
func (w *world) varyHeader(r *h.Rand, b *wire.Block) {
	hd := &b.Header
	hd.Version = uint16(mag32(r))
	if r.P(40) {
		hd.Version = uint16(r.Intn(3))
	}
	for _, f := range []*[32]byte{&hd.PrevHash, &hd.InterlinkHash, &hd.BodyHash, &hd.AccountsHash} {
		if r.P(70) {
			r.Fill(f[:])
		}
	}
	hd.NBits, hd.Timestamp, hd.Nonce = mag32(r), mag32(r), mag32(r)
	if r.P(40) {
		b.Interlink, _ = (&wg{r, false}).interlink()
	}
	if b.Body != nil && r.P(50) {
		b.Body.ExtraData = r.Bytes(int(uint8(r.U64())) >> uint(r.Intn(8)))
	}
}

// addGood adds a transaction only if the pending block stays acceptable.
func (w *world) addGood(s *h.Step) bool {
	n := len(w.txs)
	w.addTx(s)
	v := verdict{touched: map[addr]bool{}}
	b := &wire.Block{Header: wire.BlockHeader{Height: w.now()}, Body: &wire.BlockBody{Txs: w.txs}}
	w.led.begin()
	w.led.apply(b, &v)
	w.led.rollback()
	if v.r != nil || v.dontcare != "" {
		w.txs = w.txs[:n]
		w.peek = nil
		w.ensurePeek()
		for i := range w.txs {
			c := contentOf(w.txs[i].Tx)
			if n, ref := w.peek.m[c.sender].spend(&c, w.now()); ref == nil {
				w.peek.set(c.sender, n)
			}
		}
		return false
	}
	return true
}

func (w *world) vestingData(r *h.Rand, owner addr, value uint64, variant int) []byte {
	b := append([]byte(nil), owner[:]...)
	start := w.now() + uint32(r.Intn(30)) - 5
	if r.P(20) {
		start = uint32(r.Intn(3000))
	}
	if r.P(5) {
		start = 0xffffffff - uint32(r.Intn(3))
	} else if r.P(15) {
		start = mag32(r)
	}
	step := uint32(1 + r.Intn(12))
	if r.P(10) {
		step = 0
	}
	if r.P(15) {
		step = mag32(r)
	}
	sa := value / uint64(1+r.Intn(7))
	switch {
	case r.P(10):
		sa = 0
	case r.P(10):
		sa = uint64(1 + r.Intn(5))
	case r.P(8):
		sa = ^uint64(0) - uint64(r.Intn(3))
	case r.P(8):
		sa = value/3 + 1
	case r.P(15):
		sa = mag(r)
	}
	total := value
	switch r.Intn(8) {
	case 4:
		total = mag(r)
	case 0:
		total = value * 2
	case 1:
		total = value / 2
	case 2:
		total = ^uint64(0)
	case 3:
		total = 0
	}
	switch variant {
	case 0, 6:
		return be32(b, step)
	case 1, 7:
		return be64(be32(be32(b, start), step), sa)
	case 2, 3, 8:
		return be64(be64(be32(be32(b, start), step), sa), total)
	case 9: // wrong length
		full := be64(be64(be32(be32(b, start), step), sa), total)
		return full[:r.Intn(len(full))]
	case 10:
		full := be64(be64(be32(be32(b, start), step), sa), total)
		return append(full, r.Bytes(1+r.Intn(3))...)
	case 11:
		return be32(be32(b, start), step) // 28 bytes
	default:
		return be64(be32(be32(b, start), step), sa)
	}
}

func (w *world) htlcData(r *h.Rand, sender, recipient addr, variant int) []byte {
	b := append([]byte(nil), sender[:]...)
	b = append(b, recipient[:]...)
	b = append(b, []byte{1, 3, 2, 77, byte(r.U64())}[r.Weighted([]int{5, 5, 1, 1, 2})])
	b = append(b, r.Bytes(32)...)
	hc := byte(1 + r.Intn(5))
	if r.P(10) {
		hc = 255
	} else if r.P(20) {
		hc = byte(1 + r.Intn(255))
	}
	if variant == 7 {
		hc = 0
	}
	b = append(b, hc)
	to := w.now() + uint32(r.Intn(20))
	if r.P(20) {
		to = w.now() - uint32(r.Intn(int(w.now())))
	}
	if r.P(5) {
		to = 0xffffffff
	} else if r.P(10) {
		to = mag32(r)
	}
	b = be32(b, to)
	switch variant {
	case 8:
		return b[:r.Intn(len(b))]
	case 9:
		return append(b, r.Bytes(1+r.Intn(3))...)
	}
	return b
}

// contractProof authorises a payment; bad selects a defect.
func (w *world) contractProof(r *h.Rand, c *acct, bad, path int) []byte {
	owner := w.actorOf(c.a).proof
	rec := w.actorOf(c.b).proof
	other := w.actors[r.Intn(len(w.actors))].proof
	var p []byte
	if c.typ == 1 {
		p = append(p, owner...)
		switch bad {
		case 1, 2, 3:
			p = append([]byte(nil), other...)
		case 4:
			p = append(p, 0)
		case 5, 6:
			p = p[:r.Intn(len(p))]
		case 7:
			if p[32] > 0 {
				p[33] ^= 0x80
			} else {
				p[r.Intn(32)] ^= 1
			}
		case 8: // extra path element in front
			p = append(append([]byte(nil), p[:32]...), 1, 0)
			p = append(p, r.Bytes(32+64)...)
		case 9:
			p[r.Intn(33)] ^= byte(1 << uint(r.Intn(8)))
		case 10:
			p = nil
		}
		return p
	}
	kind := byte(1)
	if w.now() > c.start {
		kind = 3
	}
	if path < 2 {
		kind = 2
	}
	alg, root := c.alg, append([]byte(nil), c.hash[:]...)
	depth := byte(r.Intn(int(c.hashCount) + 1))
	switch bad {
	case 1:
		kind = 4 - kind // wrong side of the timeout, or the same for early resolves
	case 2:
		alg++
		kind = 1
	case 3:
		root[r.Intn(32)] ^= 1
		kind = 1
	case 4:
		owner, rec = rec, owner
	case 5:
		rec = other
	case 6:
		owner = other
	case 7:
		kind = []byte{0, 4, 255, byte(4 + r.Intn(252))}[r.Intn(4)]
	case 12:
		kind = 1 + byte(r.Intn(3))
	}
	p = append(p, kind)
	switch kind {
	case 1:
		p = append(p, alg, depth)
		p = append(p, root...)
		if pre := r.Bytes(32); r.P(20) {
			p = append(p, c.hash[:]...) // no pre-image, but the root itself
		} else {
			p = append(p, pre...)
		}
		p = append(p, rec...)
	case 2:
		p = append(append(p, rec...), owner...)
	default:
		p = append(p, owner...)
	}
	switch bad {
	case 8:
		p = append(p, 0)
	case 9:
		p = p[:r.Intn(len(p))]
	case 10:
		p = nil
	case 11:
		p = append(p, owner...)
	}
	return p
}

// miner picks the address that gets the reward: rarely a contract.
func (w *world) miner(sel uint64) addr {
	a := w.address(int(sel / 16 % 64))
	for i := 0; sel%16 != 0 && i < 8; i++ {
		c := w.led.m[a]
		used := c.typ != 0
		for _, t := range w.txs {
			e := contentOf(t.Tx)
			used = used || e.creation && e.recipient == a
		}
		if !used {
			break
		}
		a = w.address(int(sel/16%64) + i + 1)
	}
	return a
}

// block closes the pending block.
func (w *world) block(miner addr) *wire.Block {
	b := &wire.Block{Header: wire.BlockHeader{Version: 1, Height: w.now(), NBits: 0x1f00ffff}, Body: &wire.BlockBody{MinerAddr: miner, Txs: w.txs}}
	w.txs, w.peek = nil, nil
	return b
}

// neededPrunes computes the exact prune list of a block.
func (w *world) neededPrunes(b *wire.Block) []wire.AccountPruned {
	v := verdict{touched: map[addr]bool{}}
	w.led.begin()
	w.led.apply(b, &v)
	w.led.rollback()
	return v.pruned
}

// fund puts initial accounts in place.
func (w *world) fund(r *h.Rand, budget uint64, contracts int) {
	share := func() uint64 {
		v := budget / uint64(2+r.Intn(6))
		if r.P(15) {
			v = uint64(1 + r.Intn(50))
		} else if r.P(25) {
			v = 1 + mag(r)%(budget+1)
		}
		if v > budget {
			v = budget
		}
		budget -= v
		return v
	}
	for i := range w.actors {
		if r.P(75) {
			if v := share(); v > 0 {
				w.led.set(w.actors[i].addr, acct{value: v})
			}
		}
	}
	for i := 0; i < contracts && i < len(w.slots); i++ {
		if v := share(); v > 0 {
			w.led.set(w.slots[i], w.randContract(r, v))
		}
	}
}

// randContract draws a contract holding v.
func (w *world) randContract(r *h.Rand, v uint64) acct {
	c := acct{value: v}
	c.a = w.actors[r.Intn(len(w.actors))].addr
	rec := w.actors[r.Intn(len(w.actors))].addr
	if r.P(50) {
		c.b = rec
		c.typ = 2
		c.alg = []uint8{1, 3, uint8(r.U64())}[r.Weighted([]int{2, 2, 1})]
		r.Fill(c.hash[:])
		c.hashCount = uint8(1 + r.Intn(4))
		c.start = w.now() + uint32(r.Intn(12))
		c.total = v + uint64(r.Intn(3))
		if r.P(20) {
			c.hashCount, c.total = uint8(r.U64()), mag(r)
		}
		if r.P(10) {
			c.start = mag32(r)
		}
		return c
	}
	c.typ = 1
	c.start = uint32(r.Intn(12))
	c.step = uint32(r.Intn(6))
	if r.P(15) {
		c.start = mag32(r)
	}
	if r.P(20) {
		c.step = mag32(r)
	}
	c.stepAmt = v / uint64(1+r.Intn(5))
	c.total = v
	switch r.Intn(10) {
	case 6:
		c.total = mag(r)
	case 7:
		c.stepAmt = mag(r)
	case 0:
		c.total = v + v/2
	case 1:
		c.stepAmt = 1
	case 2:
		c.stepAmt = ^uint64(0) - uint64(r.Intn(4))
	case 3:
		c.stepAmt = 0
	case 4:
		c.total = v / 2
	case 5:
		c.stepAmt = v/3 + 1
	}
	return c
}

// checkedAdd64 adds without wrapping.
func checkedAdd64(a, b uint64) (uint64, bool) {
	s, c := bits.Add64(a, b, 0)
	return s, c == 0
}
