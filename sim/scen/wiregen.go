package scen

import (
	"encoding/binary"
	"math"
	"net"
	"reflect"
	"strings"

	"nimsim/h"
	"terorie.dev/nimiq/wire"
)

// Generators of well-formed messages. Each returns the message and, written
// down independently, its documented encoding.

type wg struct {
	r   *h.Rand
	big bool // allow large counts
}

func (g *wg) count(max int) int {
	r := g.r
	n := r.Geo(2)
	if r.P(6) {
		n = []int{1, 7, 8, 9, 16, 31, 64}[r.Intn(7)]
	}
	if r.P(4) {
		n = r.Intn(1 << uint(r.Intn(8)))
	}
	if g.big && r.P(12) {
		n = []int{254, 255, 256, 257, 999, 1000, 1001, 65535}[r.Intn(8)]
		if r.P(60) {
			n = r.Intn(1 << uint(8+r.Intn(9)))
		}
	}
	if n > max {
		n = max
	}
	return n
}

// any is a number of any size, up to the given number of bits.
func (g *wg) any(bits int) uint64 {
	n := g.r.U64()
	if g.r.P(40) {
		n >>= uint(64 - bits + g.r.Intn(bits))
	}
	return n
}

func (g *wg) u8() uint8 {
	if g.r.P(30) {
		return []uint8{0, 1, 0x7f, 0x80, 0xff}[g.r.Intn(5)]
	}
	return uint8(g.any(8))
}
func (g *wg) u16() uint16 {
	if g.r.P(20) {
		return []uint16{0, 1, 0xff, 0x100, 0xffff, 0x8000}[g.r.Intn(6)]
	}
	return uint16(g.any(16))
}
func (g *wg) u32() uint32 {
	if g.r.P(20) {
		return []uint32{0, 1, 0xffffffff, 0x80000000, 0x10000}[g.r.Intn(5)]
	}
	return uint32(g.any(32))
}
func (g *wg) u64() uint64 {
	if g.r.P(20) {
		return []uint64{0, 1, 1<<64 - 1, 1 << 63, 1 << 32}[g.r.Intn(5)]
	}
	return g.any(64)
}
func (g *wg) a20() (a [20]byte) { g.r.Fill(a[:]); return }
func (g *wg) a32() (a [32]byte) { g.r.Fill(a[:]); return }
func (g *wg) a64() (a [64]byte) { g.r.Fill(a[:]); return }

func (g *wg) bytes(n int) []byte {
	if n == 0 && g.r.P(50) {
		return nil
	}
	return g.r.Bytes(n)
}

func (g *wg) bitSet(n int) (wire.BitSet, []byte) {
	bits := g.r.Bytes((n + 7) / 8)
	if g.r.P(50) && n%8 != 0 { // padding bits are kept as they are
		bits[len(bits)-1] &= byte(0xff) << uint(8-n%8)
	}
	return wire.BitSet{Len: uint8(n), Bits: bits}, append([]byte{uint8(n)}, bits...)
}

func (g *wg) bitLen() int {
	n := g.count(255)
	if g.r.P(4) {
		n = 245 + g.r.Intn(11)
	}
	return n
}

func (g *wg) merklePath() (wire.MerklePath, []byte) {
	n := g.bitLen()
	bs, b := g.bitSet(n)
	mp := wire.MerklePath{Branches: bs}
	for i := 0; i < n; i++ {
		hh := g.a32()
		mp.Hashes = append(mp.Hashes, hh)
		b = append(b, hh[:]...)
	}
	return mp, b
}

func (g *wg) sigProof() (wire.SignatureProof, []byte) {
	var p wire.SignatureProof
	p.PublicKey = g.a32()
	mp, mb := g.merklePath()
	p.MerklePath = mp
	p.Signature = g.a64()
	b := append([]byte(nil), p.PublicKey[:]...)
	b = append(b, mb...)
	return p, append(b, p.Signature[:]...)
}

func (g *wg) basicTx() (*wire.BasicTx, []byte) {
	t := &wire.BasicTx{SenderPubKey: g.a32(), Recipient: g.a20(), Value: g.u64(), Fee: g.u64(), ValidityStartHeight: g.u32(), NetworkID: g.u8(), Signature: g.a64()}
	b := append([]byte(nil), t.SenderPubKey[:]...)
	b = append(b, t.Recipient[:]...)
	b = be32(be64(be64(b, t.Value), t.Fee), t.ValidityStartHeight)
	b = append(b, t.NetworkID)
	return t, append(b, t.Signature[:]...)
}

func (g *wg) extTx() (*wire.ExtendedTx, []byte) {
	t := &wire.ExtendedTx{Data: g.bytes(g.count(65535)), Sender: g.a20(), SenderType: g.u8(), Recipient: g.a20(), RecipientType: g.u8(), Value: g.u64(), Fee: g.u64(),
		ValidityStartHeight: g.u32(), NetworkID: g.u8(), Flags: g.u8(), Proof: g.bytes(g.count(65535))}
	b := be16(nil, uint16(len(t.Data)))
	b = append(b, t.Data...)
	b = append(append(b, t.Sender[:]...), t.SenderType)
	b = append(append(b, t.Recipient[:]...), t.RecipientType)
	b = be32(be64(be64(b, t.Value), t.Fee), t.ValidityStartHeight)
	b = append(b, t.NetworkID, t.Flags)
	b = be16(b, uint16(len(t.Proof)))
	return t, append(b, t.Proof...)
}

func (g *wg) tx() (wire.WrapTx, []byte) {
	if g.r.P(50) {
		t, b := g.basicTx()
		return wire.WrapTx{Tx: t}, append([]byte{0}, b...)
	}
	t, b := g.extTx()
	return wire.WrapTx{Tx: t}, append([]byte{1}, b...)
}

func (g *wg) account() (wire.WrapAccount, []byte) {
	c := acct{typ: uint8(g.r.Intn(3)), value: g.u64()}
	switch c.typ {
	case 1:
		c.a, c.start, c.step, c.stepAmt, c.total = g.a20(), g.u32(), g.u32(), g.u64(), g.u64()
	case 2:
		c.a, c.b, c.alg, c.hash, c.hashCount, c.start, c.total = g.a20(), g.a20(), g.u8(), g.a32(), g.u8(), g.u32(), g.u64()
	}
	return wire.WrapAccount{Account: c.toWire()}, c.enc()
}

func (g *wg) header() (wire.BlockHeader, []byte) {
	hd := wire.BlockHeader{Version: g.u16(), PrevHash: g.a32(), InterlinkHash: g.a32(), BodyHash: g.a32(), AccountsHash: g.a32(), NBits: g.u32(), Height: g.u32(), Timestamp: g.u32(), Nonce: g.u32()}
	b := be16(nil, hd.Version)
	for _, x := range [][32]byte{hd.PrevHash, hd.InterlinkHash, hd.BodyHash, hd.AccountsHash} {
		x := x
		b = append(b, x[:]...)
	}
	return hd, be32(be32(be32(be32(b, hd.NBits), hd.Height), hd.Timestamp), hd.Nonce)
}

func (g *wg) interlink() (wire.BlockInterlink, []byte) {
	n := g.bitLen()
	bs, b := g.bitSet(n)
	il := wire.BlockInterlink{Repeats: bs}
	// Which hash each position refers to: -1 is the hash of the previous block.
	refs := make([]int, 0, n)
	last := -1
	for i := 0; i < n; i++ {
		if bs.Bits[i/8]>>(7-uint(i%8))&1 == 0 {
			hh := g.a32()
			il.Compressed = append(il.Compressed, hh)
			last = len(il.Compressed) - 1
			b = append(b, hh[:]...)
		}
		refs = append(refs, last)
	}
	il.Hashes = make([]*[32]byte, n)
	for i, k := range refs {
		if k < 0 {
			il.Hashes[i] = new([32]byte)
		} else {
			il.Hashes[i] = &il.Compressed[k]
		}
	}
	return il, b
}

func (g *wg) body() (*wire.BlockBody, []byte) {
	bd := &wire.BlockBody{MinerAddr: g.a20(), ExtraData: g.bytes(g.count(255))}
	b := append([]byte(nil), bd.MinerAddr[:]...)
	b = append(b, uint8(len(bd.ExtraData)))
	b = append(b, bd.ExtraData...)
	n := g.count(1001)
	sub := wg{g.r, g.big && n < 4}
	b = be16(b, uint16(n))
	for i := 0; i < n; i++ {
		t, tb := sub.tx()
		bd.Txs = append(bd.Txs, t)
		b = append(b, tb...)
	}
	n = g.count(1001)
	b = be16(b, uint16(n))
	for i := 0; i < n; i++ {
		p := wire.AccountPruned{Address: g.a20()}
		a, ab := g.account()
		p.Account = a
		bd.Pruned = append(bd.Pruned, p)
		b = append(append(b, p.Address[:]...), ab...)
	}
	return bd, b
}

func (g *wg) block() (wire.Block, []byte) {
	hd, b := g.header()
	il, ib := g.interlink()
	bl := wire.Block{Header: hd, Interlink: il}
	b = append(b, ib...)
	if g.r.P(20) {
		return bl, append(b, 0)
	}
	bd, bb := g.body()
	bl.Body = bd
	return bl, append(append(b, 1), bb...)
}

func (g *wg) netAddress() (wire.NetAddress, []byte) {
	t := uint8(g.r.Intn(4))
	na := wire.NetAddress{Type: t}
	b := []byte{t}
	switch t {
	case 0:
		ip := g.r.Bytes(4)
		na.IP = append(net.IP(nil), ip...)
		if g.r.P(30) {
			na.IP = net.IPv4(ip[0], ip[1], ip[2], ip[3])
		}
		b = append(b, ip...)
	case 1:
		ip := g.r.Bytes(16)
		if g.r.P(25) {
			// Addresses with a meaning, those that embed an IPv4 address above all.
			copy(ip, []string{"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff", "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", "\x00d\xff\x9b\x00\x00\x00\x00\x00\x00\x00\x00", "\xfe\x80", "\x20\x02",
				"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", strings.Repeat("\x00", 16), strings.Repeat("\xff", 16)}[g.r.Intn(8)])
		}
		na.IP = append(net.IP(nil), ip...)
		b = append(b, ip...)
	}
	return na, b
}

func (g *wg) str(max int) string { return string(g.r.Bytes(g.count(max))) }

func (g *wg) peerAddress() (wire.PeerAddress, []byte) {
	na, nb := g.netAddress()
	pa := wire.PeerAddress{PeerAddressHeader: wire.PeerAddressHeader{Protocol: []uint8{0, 1, 4}[g.r.Intn(3)], Services: g.u32(), Timestamp: g.u64(), NetAddress: na, PublicKey: g.a32(), Distance: g.u8(), Signature: g.a64()}}
	b := be64(be32([]byte{pa.Protocol}, pa.Services), pa.Timestamp)
	b = append(b, nb...)
	b = append(append(b, pa.PublicKey[:]...), pa.Distance)
	b = append(b, pa.Signature[:]...)
	if pa.Protocol != 0 {
		d := &wire.PeerAddressSrv{Host: g.str(255), Port: g.u16(), TLS: g.r.P(50)}
		pa.Detail = d
		b = append(append(b, uint8(len(d.Host))), d.Host...)
		b = be16(b, d.Port)
		t := byte(0)
		if d.TLS {
			t = 1
		}
		b = append(b, t)
	}
	return pa, b
}

const nMessages = 20

// message draws a message of the given kind.
func (g *wg) message(kind int) (m wire.Message, typ uint64, b []byte) {
	r := g.r
	switch kind {
	case 0:
		pa, pb := g.peerAddress()
		v := &wire.VersionMessage{Version: g.u32(), PeerAddress: pa, GenesisHash: g.a32(), HeadHash: g.a32(), ChallengeNonce: g.a32(), UserAgent: g.str(255)}
		b = be32(nil, v.Version)
		b = append(b, pb...)
		b = append(append(append(b, v.GenesisHash[:]...), v.HeadHash[:]...), v.ChallengeNonce[:]...)
		b = append(append(b, uint8(len(v.UserAgent))), v.UserAgent...)
		return v, 0, b
	case 1, 2, 3, 4:
		v := &wire.InvMessage{MessageType: uint64(kind)}
		n := g.count(65535)
		b = be16(nil, uint16(n))
		for i := 0; i < n; i++ {
			e := wire.InvVector{Type: g.u32(), Hash: g.a32()}
			v.Vectors = append(v.Vectors, e)
			b = append(be32(b, e.Type), e.Hash[:]...)
		}
		return v, uint64(kind), b
	case 5:
		v := &wire.GetBlocksMessage{MaxInvSize: g.u16(), Direction: g.u8()}
		n := g.count(65535)
		b = be16(nil, uint16(n))
		for i := 0; i < n; i++ {
			e := g.a32()
			v.Locators = append(v.Locators, e)
			b = append(b, e[:]...)
		}
		return v, 5, append(be16(b, v.MaxInvSize), v.Direction)
	case 6:
		bl, bb := g.block()
		return &wire.BlockMessage{Block: bl}, 6, bb
	case 7:
		hd, hb := g.header()
		return &wire.HeaderMessage{BlockHeader: hd}, 7, hb
	case 8:
		t, tb := g.tx()
		return &wire.TxMessage{Tx: t}, 8, tb
	case 9:
		return wire.MempoolMessage, 9, nil
	case 10:
		v := &wire.AddrMessage{}
		n := g.count(1001)
		b = be16(nil, uint16(n))
		for i := 0; i < n; i++ {
			pa, pb := g.peerAddress()
			v.Addresses = append(v.Addresses, pa)
			b = append(b, pb...)
		}
		return v, 20, b
	case 11:
		v := &wire.GetAddrMessage{ProtocolMask: g.u8(), ServiceMask: g.u32(), MaxResults: g.u16()}
		return v, 21, be16(be32([]byte{v.ProtocolMask}, v.ServiceMask), v.MaxResults)
	case 12, 13:
		v := &wire.BasePingMessage{Nonce: g.u32(), Pong: kind == 13}
		return v, uint64(22 + kind - 12), be32(nil, v.Nonce)
	case 14:
		return wire.GetChainProofMessage, 40, nil
	case 15:
		v := &wire.GetTxProofMessage{BlockHash: g.a32()}
		b = append(b, v.BlockHash[:]...)
		n := g.count(65535)
		b = be16(b, uint16(n))
		for i := 0; i < n; i++ {
			e := g.a20()
			v.Addresses = append(v.Addresses, e)
			b = append(b, e[:]...)
		}
		return v, 47, b
	case 16:
		v := &wire.GetTxReceiptsMessage{Address: g.a20(), Offset: g.u32()}
		return v, 49, be32(append(b, v.Address[:]...), v.Offset)
	case 17:
		return wire.GetHeadMessage, 60, nil
	case 18:
		hd, hb := g.header()
		return &wire.HeadMessage{BlockHeader: hd}, 61, hb
	default:
		v := &wire.VerAckMessage{PublicKey: g.a32(), Signature: g.a64()}
		_ = r
		return v, 90, append(append(b, v.PublicKey[:]...), v.Signature[:]...)
	}
}

var messageTypes = []uint64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 20, 21, 22, 23, 40, 47, 49, 60, 61, 90}

// --- items other than messages ---

const nItems = 14

// item draws something decodable on its own.
func (g *wg) item(kind int) (v interface{}, b []byte) {
	switch kind {
	case 0:
		x, b := g.block()
		return &x, b
	case 1:
		x, b := g.tx()
		return &x, b
	case 2:
		x, b := g.account()
		return &x, b
	case 3:
		x, b := g.sigProof()
		return &x, b
	case 4:
		x, b := g.peerAddress()
		return &x, b
	case 5:
		x, b := g.netAddress()
		return &x, b
	case 6:
		x, b := g.merklePath()
		return &x, b
	case 7:
		x, b := g.bitSet(g.bitLen())
		return &x, b
	case 8:
		x := wire.Hash{Algorithm: g.u8(), Bytes: g.a32()}
		return &x, append([]byte{x.Algorithm}, x.Bytes[:]...)
	case 9:
		x := wire.AccountsTreeChunk{}
		b = be16(nil, 0)
		nodes := func() (l [][]byte) { return nil } // elements carry no length tag: only empty lists are encodable
		x.Nodes, x.Proof.Nodes = nodes(), nodes()
		return &x, be16(b, 0)
	case 10:
		x := wire.StakingTxData{}
		g.r.Fill(x.ValidatorKey[:])
		g.r.Fill(x.ProofOfKnowledge[:])
		b = append(b, x.ValidatorKey[:]...)
		if g.r.P(50) {
			a := g.a20()
			x.RewardAddress = &a
			b = append(append(b, 1), a[:]...)
		} else {
			b = append(b, 0)
		}
		return &x, append(b, x.ProofOfKnowledge[:]...)
	case 11:
		x, b := g.interlink()
		return &x, b
	case 12:
		x, b := g.body()
		return x, b
	default:
		x, b := g.header()
		return &x, b
	}
}

// blank returns an empty value of the kind.
func blank(kind int) interface{} {
	return []interface{}{new(wire.Block), new(wire.WrapTx), new(wire.WrapAccount), new(wire.SignatureProof), new(wire.PeerAddress), new(wire.NetAddress), new(wire.MerklePath),
		new(wire.BitSet), new(wire.Hash), new(wire.AccountsTreeChunk), new(wire.StakingTxData), new(wire.BlockInterlink), new(wire.BlockBody), new(wire.BlockHeader)}[kind]
}

// --- reference parser ---

// rp consumes bytes; ok turns false when they are not well formed.
type rp struct {
	b  []byte
	ok bool
}

func (p *rp) take(n int) []byte {
	if !p.ok || n > len(p.b) {
		p.ok = false
		return make([]byte, min(n, 64))
	}
	x := p.b[:n]
	p.b = p.b[n:]
	return x
}
func (p *rp) n8() int  { return int(p.take(1)[0]) }
func (p *rp) n16() int { return int(binary.BigEndian.Uint16(p.take(2))) }

func (p *rp) each(n int, f func()) {
	for i := 0; i < n && p.ok; i++ {
		f()
	}
}

func (p *rp) bitSet() (n int, bits []byte) {
	n = p.n8()
	return n, p.take((n + 7) / 8)
}

func (p *rp) interlink() {
	n, bits := p.bitSet()
	if !p.ok {
		return
	}
	for i := 0; i < n; i++ {
		if bits[i/8]>>(7-uint(i%8))&1 == 0 {
			p.take(32)
		}
	}
}

func (p *rp) merklePath() {
	n, _ := p.bitSet()
	p.each(n, func() { p.take(32) })
}

func (p *rp) sigProof() { p.take(32); p.merklePath(); p.take(64) }

func (p *rp) tx() {
	switch p.n8() {
	case 0:
		p.take(32 + 20 + 8 + 8 + 4 + 1 + 64)
	case 1:
		p.take(p.n16())
		p.take(20 + 1 + 20 + 1 + 8 + 8 + 4 + 1 + 1)
		p.take(p.n16())
	default:
		p.ok = false
	}
}

func (p *rp) account() {
	switch p.n8() {
	case 0:
		p.take(8)
	case 1:
		p.take(8 + 44)
	case 2:
		p.take(8 + 86)
	default:
		p.ok = false
	}
}

func (p *rp) header() { p.take(146) }

func (p *rp) body() {
	p.take(20)
	p.take(p.n8())
	p.each(p.n16(), p.tx)
	p.each(p.n16(), func() { p.take(20); p.account() })
}

func (p *rp) block() {
	p.header()
	p.interlink()
	switch p.n8() {
	case 0:
	case 1:
		p.body()
	default:
		p.ok = false
	}
}

func (p *rp) netAddress() {
	switch p.n8() {
	case 0:
		p.take(4)
	case 1:
		p.take(16)
	case 2, 3:
	default:
		p.ok = false
	}
}

func (p *rp) flag() {
	if p.n8() > 1 {
		p.ok = false
	}
}

func (p *rp) peerAddress() {
	proto := p.n8()
	p.take(4 + 8)
	p.netAddress()
	p.take(32 + 1 + 64)
	switch proto {
	case 0:
	case 1, 4:
		p.take(p.n8())
		p.take(2)
		p.flag()
	default:
		p.ok = false
	}
}

// wellFormed says whether b is exactly one message of the type.
func wellFormed(typ uint64, b []byte) (known, ok bool) {
	p := &rp{b, true}
	switch typ {
	case 0:
		p.take(4)
		p.peerAddress()
		p.take(96)
		p.take(p.n8())
	case 1, 2, 3, 4:
		p.each(p.n16(), func() { p.take(36) })
	case 5:
		p.each(p.n16(), func() { p.take(32) })
		p.take(3)
	case 6:
		p.block()
	case 7, 61:
		p.header()
	case 8:
		p.tx()
	case 9, 40, 60:
	case 20:
		p.each(p.n16(), p.peerAddress)
	case 21:
		p.take(7)
	case 22, 23:
		p.take(4)
	case 47:
		p.take(32)
		p.each(p.n16(), func() { p.take(20) })
	case 49:
		p.take(24)
	case 90:
		p.take(96)
	default:
		return false, false
	}
	return true, p.ok && len(p.b) == 0
}

// itemSize is the number of bytes an item of the kind takes at the start of b.
func itemSize(kind int, b []byte) (n int, ok bool) {
	p := &rp{b, true}
	switch kind {
	case 0:
		p.block()
	case 1:
		p.tx()
	case 2:
		p.account()
	case 3:
		p.sigProof()
	case 4:
		p.peerAddress()
	case 5:
		p.netAddress()
	case 6:
		p.merklePath()
	case 7:
		p.bitSet()
	case 8:
		p.take(33)
	case 9: // elements are not encodable: only empty lists are well formed
		if p.n16() != 0 || p.n16() != 0 {
			p.ok = false
		}
	case 10:
		p.take(96)
		switch p.n8() {
		case 0:
		case 1:
			p.take(20)
		default:
			p.ok = false
		}
		p.take(48)
	case 11:
		p.interlink()
	case 12:
		p.body()
	case 13:
		p.header()
	}
	return len(b) - len(p.b), p.ok
}

// --- structural equality ---

var ipType = reflect.TypeOf(net.IP{})

// same compares two values. Nil and empty lists are the same, so are the two
// forms of an IPv4 address.
func same(a, b interface{}) bool { return sameV(reflect.ValueOf(a), reflect.ValueOf(b)) }

func sameV(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	if a.Type() == ipType {
		return net.IP(a.Bytes()).Equal(net.IP(b.Bytes())) || a.Len() == 0 && b.Len() == 0
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return sameV(a.Elem(), b.Elem())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !sameV(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath != "" {
				continue // what a type keeps for itself is not content
			}
			if !sameV(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	}
	switch {
	case a.CanInt():
		return a.Int() == b.Int()
	case a.CanUint():
		return a.Uint() == b.Uint()
	case a.CanFloat():
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case a.Kind() == reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if v := b.MapIndex(k); !v.IsValid() || !sameV(a.MapIndex(k), v) {
				return false
			}
		}
	}
	return true
}

// scribble overwrites everything a value refers to.
func scribble(v reflect.Value, x byte) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), x)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), x)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i), x)
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(uint64(x))
		}
	}
}
