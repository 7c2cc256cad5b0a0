package scen

import (
	"bytes"
	"crypto/ed25519"
	"encoding/binary"
	"fmt"
	"testing/cryptotest"

	"golang.org/x/crypto/blake2b"
	"nimsim/h"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/wallet"
	"terorie.dev/nimiq/wire"
)

// The signing scenario: wallets sign transactions and peer addresses, which
// travel as messages over a link that may tamper with single fields or exchange
// signatures between messages. The receiver verifies what arrives.

func init() {
	h.Register(&h.Scenario{Name: "sign", Exec: execSign})
	h.RegisterCheck(&h.Check{Property: "C20", Quick: 40000, Thorough: 1500000, Gen: genSign,
		Rule: "at least one signed message was tampered with in transit.",
		Real: []string{"wallet", "wire", "beserial"}, Stub: []string{"network link", "crypto/ed25519 of the Go library is used as is"},
		Measure: "distinct (kind of signed data, tampered field, bit)",
		Assume:  []string{"data of at most 65535 bytes"},
		Faults:  []string{"tamper", "signature_swap", "foreign_sender", "late_check", "signed_again"}})
}

func genSign(r *h.Rand, tier string, idx int) *h.Plan {
	p := &h.Plan{Scenario: "sign", Cfg: map[string]int64{"wallets": int64(1 + r.Intn(3)), "keys": int64(r.U64() >> 1)}}
	if r.P(15) {
		p.Cfg["generated"] = 1
	}
	for n := 1 + r.Intn(5); n > 0; n-- {
		op := []string{"basic", "basic", "ext", "ext", "ext", "peer", "peer", "foreign"}[r.Intn(8)]
		p.Add(op, int64(r.Intn(3)), int64(r.U64()>>1), int64(1+r.Intn(6)))
	}
	return p
}

type signed struct {
	kind    string
	pub     [32]byte
	sig     [64]byte
	content []byte
	tx      wire.Tx
	pa      *wire.PeerAddress
}

type signRun struct {
	x    *h.Ctx
	ws   []*wallet.Basic
	keys []ed25519.PrivateKey
	hist []signed
}

func execSign(x *h.Ctx, p *h.Plan) {
	w := &signRun{x: x}
	r := h.NewRand(uint64(p.Cfg["keys"]))
	for i := int64(0); i < max(1, p.Cfg["wallets"]%8); i++ {
		seed := r.Bytes(32)
		own := append([]byte(nil), seed...)
		var b *wallet.Basic
		if p.Cfg["generated"] == 1 {
			if i == 0 {
				cryptotest.SetGlobalRandom(x.T, uint64(p.Cfg["keys"]))
			}
			w.guard("generating a wallet", func() { b = wallet.GenerateBasic() })
			if len(b.PrivateKey) != ed25519.PrivateKeySize {
				x.Fail("C20", "generated key", "a generated wallet has a private key of %d bytes", len(b.PrivateKey))
			}
			seed = b.PrivateKey.Seed()
			for _, k := range w.keys {
				if bytes.Equal(k.Seed(), seed) {
					x.Fail("C20", "generated key", "two generated wallets have the same key")
				}
			}
			x.Count("generated_wallets")
		} else {
			w.guard("deriving a wallet", func() { b = wallet.DeriveBasic(own) })
		}
		for j := range own {
			own[j] = 0 // callers wipe the seed
		}
		key := ed25519.NewKeyFromSeed(seed)
		var pub [32]byte
		copy(pub[:], key[32:])
		sum := blake2b.Sum256(pub[:])
		var gotAddr [20]byte
		var gotPub [32]byte
		w.guard("wallet address", func() { gotAddr, gotPub = b.GetAddress(), b.GetPublicKey() })
		if gotPub != pub {
			x.Fail("C20", "wrong public key", "wallet of seed %x has public key %x, expected %x", seed, gotPub, pub)
		}
		if gotAddr != *(*[20]byte)(sum[:20]) {
			x.Fail("C20", "wrong address", "wallet of public key %x has address %x, expected %x", pub, gotAddr, sum[:20])
		}
		w.ws, w.keys = append(w.ws, b), append(w.keys, key)
	}
	for i := range p.Steps {
		x.CurStep = i
		s := &p.Steps[i]
		k := s.Mod(0, len(w.ws))
		switch s.Op {
		case "basic", "ext":
			w.tx(s.Op, k, s)
		case "peer":
			w.peer(k, s)
		case "foreign":
			w.foreign(k, s)
		}
	}
	// Everything signed so far must still be what it was.
	for _, g := range w.hist {
		x.Count("fault.late_check")
		switch {
		case g.pa != nil:
			if !g.pa.VerifySignature() {
				x.Fail("C20", "signature lost later", "a peer address signed earlier does not verify any more")
			}
		default:
			c, pub, sig := w.contentAndSig(g.tx)
			if !bytes.Equal(c, g.content) || pub != g.pub || sig != g.sig {
				x.Fail("C20", "signature lost later", "a transaction signed earlier has changed: %s", show(g.tx))
			}
		}
	}
}

func (w *signRun) guard(what string, f func()) {
	if pi := h.Catch(f); pi != nil {
		if !pi.Repo {
			panic(pi.Val)
		}
		w.x.Fail("C20", pi.Class(), "%s: %s", what, pi)
	}
}

// refContent is the documented transaction content.
func refContent(tx wire.Tx) []byte {
	c := contentOf(tx)
	var validity uint32
	var network, flags uint8
	switch t := tx.(type) {
	case *wire.BasicTx:
		validity, network = t.ValidityStartHeight, t.NetworkID
	case *wire.ExtendedTx:
		validity, network, flags = t.ValidityStartHeight, t.NetworkID, t.Flags
	}
	b := be16(nil, uint16(len(c.data)))
	b = append(b, c.data...)
	b = append(append(b, c.sender[:]...), c.st)
	b = append(append(b, c.recipient[:]...), c.rt)
	b = be32(be64(be64(b, c.value), c.fee), validity)
	return append(b, network, flags)
}

// contentAndSig lets the code compute what the signature covers.
func (w *signRun) contentAndSig(tx wire.Tx) (c []byte, pub [32]byte, sig [64]byte) {
	var err error
	w.guard("transaction content", func() {
		tc := tx.AsTxContent()
		c, err = beserial.Marshal(nil, &tc)
	})
	if err != nil {
		w.x.Fail("C20", "content does not encode", "%s: %v", show(tx), err)
	}
	switch t := tx.(type) {
	case *wire.BasicTx:
		pub, sig = t.SenderPubKey, t.Signature
	case *wire.ExtendedTx:
		// public key, empty merkle path, signature
		if len(t.Proof) == 97 && t.Proof[32] == 0 {
			copy(pub[:], t.Proof)
			copy(sig[:], t.Proof[33:])
		}
	}
	return
}

// views checks that a transaction shows the same content from every side.
func (w *signRun) views(tx wire.Tx, want []byte) {
	x := w.x
	var ext wire.ExtendedTx
	var value, fee uint64
	var from, to *[20]byte
	var fromType, toType uint8
	w.guard("looking at a transaction", func() {
		ext = tx.AsExtendedTx()
		value, fee = tx.Amount()
		from, fromType = tx.GetSender()
		to, toType = tx.GetRecipient()
	})
	if c := refContent(&ext); !bytes.Equal(c, want) {
		x.Fail("C20", "extended form differs", "the extended form of %s has the content %s, signed was %s", show(tx), hexs(c), hexs(want))
	}
	proof := []byte(nil)
	switch t := tx.(type) {
	case *wire.BasicTx:
		proof = t.Signature[:]
	case *wire.ExtendedTx:
		proof = t.Proof
	}
	if !bytes.Contains(ext.Proof, proof) {
		x.Fail("C20", "extended form lost the signature", "the extended form of %s has the proof %s", show(tx), hexs(ext.Proof))
	}
	if from == nil || to == nil || *from != ext.Sender || *to != ext.Recipient || fromType != ext.SenderType || toType != ext.RecipientType || value != ext.Value || fee != ext.Fee {
		x.Fail("C20", "accessors differ", "%s: amount %d+%d, sender %v type %d, recipient %v type %d", show(tx), value, fee, from, fromType, to, toType)
	}
	x.Count("op.views")
}

func (w *signRun) tx(op string, k int, s *h.Step) {
	x := w.x
	r := h.NewRand(s.UArg(1))
	g := &wg{r, r.P(5)}
	b := w.ws[k]
	var pub [32]byte
	copy(pub[:], w.keys[k][32:])
	var tx wire.Tx
	var err error
	if op == "basic" {
		t, _ := g.basicTx()
		t.SenderPubKey = pub
		tx = t
		w.again(tx, r, func() { err = b.SignBasicTx(t) })
		w.guard("signing", func() { err = b.SignBasicTx(t) })
	} else {
		t, _ := g.extTx()
		if r.P(60) {
			sum := blake2b.Sum256(pub[:])
			copy(t.Sender[:], sum[:])
			t.SenderType = 0
		}
		tx = t
		w.again(tx, r, func() { err = b.SignExtendedTx(t) })
		w.guard("signing", func() { err = b.SignExtendedTx(t) })
	}
	if err != nil {
		x.Fail("C20", "signing fails", "own transaction %s: %v", show(tx), err)
	}
	x.Count("op.sign")
	want := refContent(tx)
	c, gotPub, sig := w.contentAndSig(tx)
	if !bytes.Equal(c, want) {
		x.Fail("C20", "content differs", "the content of %s is %s, documented is %s", show(tx), hexs(c), hexs(want))
	}
	if gotPub != pub || !ed25519.Verify(pub[:], want, sig[:]) {
		x.Fail("C20", "signature does not verify", "%s signed by %x does not verify", show(tx), pub)
	}
	w.views(tx, want)
	w.hist = append(w.hist, signed{kind: op, pub: pub, sig: sig, content: c, tx: tx})

	// Over the link, as it is.
	var frame []byte
	w.guard("encoding", func() { frame, err = wire.MarshalMessage(&wire.TxMessage{Tx: wire.WrapTx{Tx: tx}}) })
	if err != nil {
		x.Fail("C20 C12", "encode fails", "%s: %v", show(tx), err)
	}
	got := w.recvTx(frame)
	if got == nil {
		x.Fail("C20 C12", "signed transaction refused", "%s", hexs(frame))
	}
	w.views(got, want)
	c, gotPub, gotSig := w.contentAndSig(got)
	if !bytes.Equal(c, want) || gotPub != pub || gotSig != sig {
		x.Fail("C20", "signature lost in transit", "sent %s, received %s", show(tx), show(got))
	}

	// Tampered with.
	fields := txFields(tx)
	for i := s.Mod(2, 16); i > 0; i-- {
		bad := append([]byte(nil), frame...)
		f := fields[r.Intn(len(fields))]
		how := w.tamper(bad, f, r)
		if how == "" {
			continue
		}
		x.Count("fault.tamper")
		x.Nontrivial()
		w.mustFail(bad, op+" "+f.name, how)
	}
	// A valid signature from another transaction.
	if n := len(w.hist); n > 1 && r.P(60) {
		o := w.hist[r.Intn(n-1)]
		if o.tx != nil && !bytes.Equal(o.content, want) {
			bad := append([]byte(nil), frame...)
			for _, f := range fields {
				switch f.name {
				case "signature":
					copy(bad[f.off:], o.sig[:])
				case "public key":
					if r.P(50) {
						copy(bad[f.off:], o.pub[:])
					}
				}
			}
			if !bytes.Equal(bad, frame) {
				x.Count("fault.signature_swap")
				w.mustFail(bad, op+" signature of another", "replaced")
			}
		}
	}
}

// again signs a transaction that is changed and signed again afterwards.
func (w *signRun) again(tx wire.Tx, r *h.Rand, sign func()) {
	if !r.P(25) {
		return
	}
	for n := 1 + r.Intn(2); n > 0; n-- {
		w.guard("signing", sign)
		if r.P(15) {
			continue // an unchanged transaction
		}
		bit := r.Intn(8)
		switch t := tx.(type) {
		case *wire.BasicTx:
			switch r.Intn(5) {
			case 0:
				t.Recipient[r.Intn(20)] ^= 1 << uint(bit)
			case 1:
				t.Value ^= 1 << uint(bit)
			case 2:
				t.Fee ^= 1 << uint(bit)
			case 3:
				t.ValidityStartHeight ^= 1 << uint(bit)
			case 4:
				t.NetworkID ^= 1 << uint(bit)
			}
		case *wire.ExtendedTx:
			switch r.Intn(7) {
			case 0:
				t.Recipient[r.Intn(20)] ^= 1 << uint(bit)
			case 1:
				t.Value ^= 1 << uint(bit)
			case 2:
				t.Fee ^= 1 << uint(bit)
			case 3:
				t.ValidityStartHeight ^= 1 << uint(bit)
			case 4:
				t.NetworkID ^= 1 << uint(bit)
			case 5:
				t.Flags ^= 1 << uint(bit)
			case 6:
				if len(t.Data) > 0 {
					t.Data[r.Intn(len(t.Data))] ^= 1 << uint(bit)
				}
			}
		}
		w.x.Count("fault.signed_again")
	}
}

// mustFail delivers a tampered transaction.
func (w *signRun) mustFail(frame []byte, field, how string) {
	x := w.x
	x.State(h.HashBytes([]byte(field + how)))
	got := w.recvTx(frame)
	if got == nil {
		x.Log("%s %s: refused", field, how)
		return
	}
	c, pub, sig := w.contentAndSig(got)
	x.Log("%s %s: delivered", field, how)
	if ed25519.Verify(pub[:], c, sig[:]) {
		x.Fail("C20", "tampering unnoticed: "+field, "after tampering with %s (%s) the signature still verifies for %s", field, how, show(got))
	}
}

func (w *signRun) recvTx(frame []byte) wire.Tx {
	var m wire.Message
	var err error
	w.guard("decoding", func() { m, err = wire.UnmarshalMessage(binary.BigEndian.Uint64(frame), frame[8:]) })
	if err != nil {
		return nil
	}
	return m.(*wire.TxMessage).Tx.Tx
}

type field struct {
	name   string
	off, n int
}

// txFields locates the fields in a message frame.
func txFields(tx wire.Tx) []field {
	off := 9
	var out []field
	add := func(name string, n int) {
		if n > 0 {
			out = append(out, field{name, off, n})
		}
		off += n
	}
	switch t := tx.(type) {
	case *wire.BasicTx:
		add("public key", 32)
		add("recipient", 20)
		add("value", 8)
		add("fee", 8)
		add("validity", 4)
		add("network", 1)
		add("signature", 64)
	case *wire.ExtendedTx:
		off += 2
		add("data", len(t.Data))
		add("sender", 20)
		add("sender type", 1)
		add("recipient", 20)
		add("recipient type", 1)
		add("value", 8)
		add("fee", 8)
		add("validity", 4)
		add("network", 1)
		add("flags", 1)
		off += 2
		add("public key", 32)
		off++
		add("signature", 64)
	}
	return out
}

func (w *signRun) tamper(b []byte, f field, r *h.Rand) string {
	v := b[f.off : f.off+f.n]
	old := append([]byte(nil), v...)
	how := ""
	switch r.Intn(6) {
	case 4:
		for i := range v {
			v[i] = 0
		}
		how = "cleared"
	case 5:
		for i := range v {
			v[i] = 0xff
		}
		how = "all ones"
	case 0, 1:
		i := r.Intn(8 * f.n)
		v[i/8] ^= 1 << uint(i%8)
		how = fmt.Sprintf("bit %d", i)
	case 2:
		v[f.n-1]++
		how = "plus one"
	case 3:
		r.Fill(v)
		how = "replaced"
	}
	if bytes.Equal(old, v) {
		return ""
	}
	return how
}

func (w *signRun) foreign(k int, s *h.Step) {
	x := w.x
	r := h.NewRand(s.UArg(1))
	g := &wg{r, false}
	t, _ := g.basicTx()
	if len(w.ws) > 1 && r.P(40) {
		copy(t.SenderPubKey[:], w.keys[(k+1)%len(w.keys)][32:])
	} else if r.P(70) {
		copy(t.SenderPubKey[:], w.keys[k][32:])
		i := r.Intn(256)
		t.SenderPubKey[i/8] ^= 1 << uint(i%8)
	}
	if r.P(20) {
		t.SenderPubKey = [32]byte{}
	}
	x.Count("fault.foreign_sender")
	x.Nontrivial()
	before := *t
	var err error
	w.guard("signing", func() { err = w.ws[k].SignBasicTx(t) })
	if err == nil {
		x.Fail("C20", "signs for another sender", "the wallet of %x signed for the sender %x", w.keys[k][32:], t.SenderPubKey)
	}
	if before != *t {
		x.Fail("C20", "signs for another sender", "the wallet of %x refused but changed the transaction of the sender %x", w.keys[k][32:], t.SenderPubKey)
	}
}

func (w *signRun) peer(k int, s *h.Step) {
	x := w.x
	r := h.NewRand(s.UArg(1))
	g := &wg{r, false}
	pa, _ := g.peerAddress()
	key := append(ed25519.PrivateKey(nil), w.keys[k]...)
	var pub [32]byte
	copy(pub[:], key[32:])
	if r.P(25) {
		// Signed before with other contents, perhaps by another key.
		was := key
		if r.P(40) {
			was = append(ed25519.PrivateKey(nil), w.keys[r.Intn(len(w.keys))]...)
		}
		w.guard("signing a peer address", func() { pa.Sign(was) })
		switch r.Intn(3) {
		case 0:
			pa.Timestamp ^= 1 << uint(r.Intn(40))
		case 1:
			pa.Services ^= 1 << uint(r.Intn(8))
		}
		x.Count("fault.signed_again")
	}
	w.guard("signing a peer address", func() { pa.Sign(key) })
	x.Count("op.sign_peer")
	msg := be64(be32([]byte{pa.Protocol}, pa.Services), pa.Timestamp)
	if pa.PublicKey != pub || !ed25519.Verify(pub[:], msg, pa.Signature[:]) {
		x.Fail("C20", "peer signature does not verify", "signing %s with the key of %x", show(pa), pub)
	}
	verify := func(p *wire.PeerAddress) (ok bool) {
		w.guard("verifying a peer address", func() { ok = p.VerifySignature() })
		return
	}
	if !verify(&pa) {
		x.Fail("C20", "peer signature does not verify", "VerifySignature refuses %s", show(pa))
	}
	w.guard("deriving a peer ID", func() {
		id, sum := wire.GetPeerID(pub[:]), blake2b.Sum256(pub[:])
		if !bytes.Equal(id[:], sum[:16]) {
			x.Fail("C20", "peer ID differs", "the peer ID of key %x is %x, its hash is %x", pub, id, sum)
		}
	})
	w.hist = append(w.hist, signed{kind: "peer", pa: &pa})
	var frame []byte
	var err error
	ver := r.P(30)
	wrap := func() wire.Message {
		if ver {
			return &wire.VersionMessage{PeerAddress: pa}
		}
		return &wire.AddrMessage{Addresses: []wire.PeerAddress{pa}}
	}
	w.guard("encoding", func() { frame, err = wire.MarshalMessage(wrap()) })
	if err != nil {
		x.Fail("C20 C12", "encode fails", "%s: %v", show(pa), err)
	}
	recv := func(b []byte) *wire.PeerAddress {
		var m wire.Message
		var err error
		w.guard("decoding", func() { m, err = wire.UnmarshalMessage(binary.BigEndian.Uint64(b), b[8:]) })
		if err != nil {
			return nil
		}
		if v, ok := m.(*wire.VersionMessage); ok {
			return &v.PeerAddress
		}
		return &m.(*wire.AddrMessage).Addresses[0]
	}
	got := recv(frame)
	if got == nil || !verify(got) {
		x.Fail("C20", "peer signature lost in transit", "sent %s, received %s", show(pa), show(got))
	}
	// Tampering, field by field, on the wire or in memory.
	off := 8 + 2
	if ver {
		off = 8 + 4
	}
	ip := map[uint8]int{0: 4, 1: 16}[pa.NetAddress.Type]
	fields := []field{{"protocol", off, 1}, {"services", off + 1, 4}, {"timestamp", off + 5, 8}, {"public key", off + 14 + ip, 32}, {"signature", off + 14 + ip + 33, 64}}
	for i := s.Mod(2, 16); i > 0; i-- {
		bad := append([]byte(nil), frame...)
		f := fields[r.Intn(len(fields))]
		how := ""
		if f.name == "protocol" {
			o := []byte{0, 1, 4}[r.Intn(3)]
			if bad[f.off] == o {
				continue
			}
			bad[f.off] = o
			how = fmt.Sprintf("to %d", o)
			// Keep it well formed: other protocols carry other details.
			q := pa
			q.Protocol = o
			q.Detail = nil
			if o != 0 {
				q.Detail = &wire.PeerAddressSrv{Host: "x", Port: 1}
			}
			if b := q.VerifySignature(); b {
				x.Fail("C20", "tampering unnoticed: protocol", "a signature for protocol %d verifies for %d", pa.Protocol, o)
			}
			keep := pa
			pa = q
			w.guard("encoding", func() { bad, err = wire.MarshalMessage(wrap()) })
			pa = keep
			if err != nil {
				continue
			}
		} else if how = w.tamper(bad, f, r); how == "" {
			continue
		}
		x.Count("fault.tamper")
		x.Nontrivial()
		x.State(h.HashBytes([]byte("peer " + f.name + how)))
		got := recv(bad)
		x.Log("peer %s %s: delivered %v", f.name, how, got != nil)
		if got != nil && verify(got) {
			x.Fail("C20", "tampering unnoticed: "+f.name, "after tampering with the %s (%s) of a peer address it still verifies: %s", f.name, how, show(got))
		}
	}
}
