package scen

import (
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"github.com/pelletier/go-toml"
	"golang.org/x/crypto/blake2b"
	"nimsim/h"
	"nimsim/simos"
	"terorie.dev/nimiq/wire"
)

// Generated genesis profiles and their files.

// refBlock is the encoding of a block, independent of the code under test.
func refBlock(b *wire.Block) []byte {
	hd := &b.Header
	out := be16(nil, hd.Version)
	out = append(append(out, hd.PrevHash[:]...), hd.InterlinkHash[:]...)
	out = append(append(out, hd.BodyHash[:]...), hd.AccountsHash[:]...)
	out = be32(be32(be32(be32(out, hd.NBits), hd.Height), hd.Timestamp), hd.Nonce)
	n := 0
	var bits []byte
	n, bits = int(b.Interlink.Repeats.Len), b.Interlink.Repeats.Bits
	out = append(out, byte(n))
	out = append(out, bits[:(n+7)/8]...)
	for i := range b.Interlink.Compressed {
		out = append(out, b.Interlink.Compressed[i][:]...)
	}
	if b.Body == nil {
		return append(out, 0)
	}
	out = append(out, 1)
	out = append(out, b.Body.MinerAddr[:]...)
	out = append(append(out, byte(len(b.Body.ExtraData))), b.Body.ExtraData...)
	out = be16(out, uint16(len(b.Body.Txs)))
	for i := range b.Body.Txs {
		out = append(out, refTx(b.Body.Txs[i].Tx)...)
	}
	out = be16(out, uint16(len(b.Body.Pruned)))
	for i := range b.Body.Pruned {
		c, ok := fromWire(b.Body.Pruned[i].Account.Account)
		if !ok {
			return nil
		}
		out = append(append(out, b.Body.Pruned[i].Address[:]...), c.enc()...)
	}
	return out
}

func refTx(tx wire.Tx) []byte {
	switch t := tx.(type) {
	case *wire.BasicTx:
		b := append([]byte{0}, t.SenderPubKey[:]...)
		b = append(b, t.Recipient[:]...)
		b = be32(be64(be64(b, t.Value), t.Fee), t.ValidityStartHeight)
		return append(append(b, t.NetworkID), t.Signature[:]...)
	case *wire.ExtendedTx:
		b := be16([]byte{1}, uint16(len(t.Data)))
		b = append(b, t.Data...)
		b = append(append(b, t.Sender[:]...), t.SenderType)
		b = append(append(b, t.Recipient[:]...), t.RecipientType)
		b = be32(be64(be64(b, t.Value), t.Fee), t.ValidityStartHeight)
		b = append(b, t.NetworkID, t.Flags)
		return append(be16(b, uint16(len(t.Proof))), t.Proof...)
	}
	return nil
}

// refHash is the hash of an encoded block.
func refHash(block []byte) [32]byte { return blake2b.Sum256(block[:146]) }

// readTx reads an encoded transaction; b was found well formed before.
func readTx(p *rp) wire.Tx {
	if p.n8() == 0 {
		t := new(wire.BasicTx)
		copy(t.SenderPubKey[:], p.take(32))
		copy(t.Recipient[:], p.take(20))
		t.Value, t.Fee, t.ValidityStartHeight, t.NetworkID = p.n64(), p.n64(), p.n32(), uint8(p.n8())
		copy(t.Signature[:], p.take(64))
		return t
	}
	t := new(wire.ExtendedTx)
	t.Data = append([]byte(nil), p.take(p.n16())...)
	copy(t.Sender[:], p.take(20))
	t.SenderType = uint8(p.n8())
	copy(t.Recipient[:], p.take(20))
	t.RecipientType = uint8(p.n8())
	t.Value, t.Fee, t.ValidityStartHeight, t.NetworkID, t.Flags = p.n64(), p.n64(), p.n32(), uint8(p.n8()), uint8(p.n8())
	t.Proof = append([]byte(nil), p.take(p.n16())...)
	return t
}

func readAccount(p *rp) (c acct) {
	q := &rp{p.b, true}
	q.account()
	c, p.ok = decAcct(p.take(len(p.b) - len(q.b)))
	return c
}

// readBlock reads an encoded block without the code under test. ok is false
// unless all bytes are one well-formed block.
func readBlock(b []byte) (bl *wire.Block, ok bool) {
	if n, ok := itemSize(0, b); !ok || n != len(b) {
		return nil, false
	}
	p := &rp{b, true}
	bl = new(wire.Block)
	hd := &bl.Header
	hd.Version = uint16(p.n16())
	for _, x := range []*[32]byte{&hd.PrevHash, &hd.InterlinkHash, &hd.BodyHash, &hd.AccountsHash} {
		copy(x[:], p.take(32))
	}
	hd.NBits, hd.Height, hd.Timestamp, hd.Nonce = p.n32(), p.n32(), p.n32(), p.n32()
	n, bits := p.bitSet()
	bl.Interlink.Repeats = wire.BitSet{Len: uint8(n), Bits: append([]byte(nil), bits...)}
	for i := 0; i < n; i++ {
		if bits[i/8]>>(7-uint(i%8))&1 == 0 {
			bl.Interlink.Compressed = append(bl.Interlink.Compressed, [32]byte(p.take(32)))
		}
	}
	if p.n8() == 0 {
		return bl, true
	}
	bd := new(wire.BlockBody)
	bl.Body = bd
	copy(bd.MinerAddr[:], p.take(20))
	bd.ExtraData = append([]byte(nil), p.take(p.n8())...)
	p.each(p.n16(), func() { bd.Txs = append(bd.Txs, wire.WrapTx{Tx: readTx(p)}) })
	p.each(p.n16(), func() {
		var e wire.AccountPruned
		copy(e.Address[:], p.take(20))
		c := readAccount(p)
		e.Account.Account = c.toWire()
		bd.Pruned = append(bd.Pruned, e)
	})
	return bl, p.ok
}

func (p *rp) n32() uint32 {
	b := p.take(4)
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}
func (p *rp) n64() uint64 { return uint64(p.n32())<<32 | uint64(p.n32()) }

// profEntry is an initial account of a profile.
type profEntry struct {
	a addr
	c acct
}

// readAccounts reads an accounts file.
func readAccounts(b []byte) (es []profEntry, ok bool) {
	p := &rp{b, true}
	p.each(p.n16(), func() {
		var e profEntry
		copy(e.a[:], p.take(20))
		q := &rp{p.b, true}
		q.account()
		if !q.ok {
			p.ok = false
			return
		}
		e.c = readAccount(p)
		es = append(es, e)
	})
	return es, p.ok && len(p.b) == 0
}

func writeAccounts(es []profEntry) []byte {
	b := be16(nil, uint16(len(es)))
	for i := range es {
		b = append(append(b, es[i].a[:]...), es[i].c.enc()...)
	}
	return b
}

// profConf is the configuration of a profile.
type profConf struct {
	id     int64
	name   string
	peers  []string
	lists  []string
	hash   [32]byte
	absent map[string]bool
}

// prof is a profile with its files.
type prof struct {
	conf    profConf
	es      []profEntry
	block   *wire.Block
	led     *ledger
	toml    []byte
	blk     []byte
	accs    []byte
	intact  bool
	tomlBad bool // the configuration was damaged
}

// tomlString writes a string in one of the notations.
func tomlString(r *h.Rand, s string) string {
	plain := utf8.ValidString(s) && !strings.ContainsAny(s, "'\n\r\x00\x1f\x7f\b\f\t")
	for _, c := range s {
		if c < 32 {
			plain = false
		}
	}
	if plain && r.P(30) {
		return "'" + s + "'"
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\t':
			b.WriteString(`\t`)
		case c == '\r':
			b.WriteString(`\r`)
		case c < 32 || c == 127:
			fmt.Fprintf(&b, `\u%04X`, c)
		case c > 0xffff && r.P(50):
			fmt.Fprintf(&b, `\U%08X`, c)
		case c > 127 && c <= 0xffff && r.P(50):
			fmt.Fprintf(&b, `\u%04x`, c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func tomlList(r *h.Rand, l []string) string {
	multi := r.P(60)
	var b strings.Builder
	b.WriteByte('[')
	for i, s := range l {
		if multi {
			b.WriteString("\n  ")
		}
		b.WriteString(tomlString(r, s))
		if i+1 < len(l) || r.P(50) {
			b.WriteByte(',')
		}
		if multi && r.P(20) {
			b.WriteString(" # seed")
		}
	}
	if multi {
		b.WriteByte('\n')
	}
	b.WriteByte(']')
	return b.String()
}

// write is the configuration as a file.
func (c *profConf) write(r *h.Rand) []byte {
	lines := map[string]string{}
	if !c.absent["network_id"] {
		lines["network_id"] = fmt.Sprint(c.id)
		if r.P(15) {
			lines["network_id"] = fmt.Sprintf("0x%x", c.id)
		}
	}
	if !c.absent["name"] {
		lines["name"] = tomlString(r, c.name)
	}
	if !c.absent["seed_peers"] {
		lines["seed_peers"] = tomlList(r, c.peers)
	}
	if !c.absent["seed_lists"] {
		lines["seed_lists"] = tomlList(r, c.lists)
	}
	if !c.absent["genesis_hash"] {
		x := hex.EncodeToString(c.hash[:])
		if r.P(20) {
			x = strings.ToUpper(x)
		}
		lines["genesis_hash"] = tomlString(r, x)
	}
	keys := []string{"network_id", "name", "seed_peers", "seed_lists", "genesis_hash"}
	perm := r.Perm(len(keys))
	if r.P(50) {
		perm = []int{0, 1, 2, 3, 4}
	}
	var b strings.Builder
	for _, i := range perm {
		l, ok := lines[keys[i]]
		if !ok {
			continue
		}
		if r.P(15) {
			b.WriteString("# a comment with = and \"quotes\"\n\n")
		}
		b.WriteString(keys[i] + []string{" = ", "=", "  =\t"}[r.Weighted([]int{8, 1, 1})] + l)
		if r.P(10) {
			b.WriteString(" # comment")
		}
		b.WriteByte('\n')
	}
	return []byte(b.String())
}

// readConf is what a configuration text says, by a generic parser. ok is
// false if the text does not describe a profile. A key that is only there in
// other upper and lower case may count or not: loose lists these.
func readConf(text []byte) (c profConf, loose map[string]bool, ok bool) {
	c.absent, loose = map[string]bool{}, map[string]bool{}
	t, err := func() (t *toml.Tree, err error) {
		defer func() {
			if r := recover(); r != nil { // the parser panics on some malformed texts
				err = fmt.Errorf("%v", r)
			}
		}()
		return toml.LoadBytes(text)
	}()
	if err != nil {
		return c, loose, false
	}
	m := t.ToMap()
	get := func(k string) interface{} {
		if v, ok := m[k]; ok {
			return v
		}
		for x := range m {
			if strings.EqualFold(x, k) {
				loose[k] = true
			}
		}
		c.absent[k] = true
		return nil
	}
	ok = true
	str := func(v interface{}) string {
		s, k := v.(string)
		if !k {
			ok = false
		}
		return s
	}
	strs := func(k string) (out []string) {
		v := get(k)
		if v == nil {
			return nil
		}
		l, isList := v.([]interface{})
		if !isList {
			ok = false
		}
		for _, e := range l {
			out = append(out, str(e))
		}
		return out
	}
	if v := get("network_id"); v != nil {
		n, isInt := v.(int64)
		if !isInt || n < 0 || n > 255 {
			ok = false
		}
		c.id = n
	}
	if v := get("name"); v != nil {
		c.name = str(v)
	}
	c.peers = strs("seed_peers")
	c.lists = strs("seed_lists")
	if v := get("genesis_hash"); v != nil {
		if s := str(v); s != "" {
			x, err := hex.DecodeString(s)
			if err != nil || len(x) != 32 {
				ok = false
			}
			copy(c.hash[:], x)
		}
	}
	return c, loose, ok
}

// randName draws a text with unusual characters.
func randName(r *h.Rand, max int) string {
	pool := []rune("abcXYZ019 _-./:#=[]{}\"\\'\t\n,äß€😀\u2028")
	n := r.Intn(max + 1)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(pool[r.Intn(len(pool))])
	}
	return b.String()
}

// newProf generates a profile. The ledger of the world, if given, is where it starts.
func newProf(r *h.Rand, w *world, height uint32) *prof {
	p := &prof{intact: true}
	p.led = newLedger()
	// Accounts in random order, sometimes with repeated and empty ones.
	var es []profEntry
	for _, a := range w.universe() {
		if c, ok := w.led.m[a]; ok {
			es = append(es, profEntry{a, c})
		}
	}
	seen := map[addr]bool{}
	for i := 0; i < len(es); i++ {
		if seen[es[i].a] {
			es = append(es[:i], es[i+1:]...)
			i--
			continue
		}
		seen[es[i].a] = true
	}
	perm := r.Perm(len(es))
	for _, i := range perm {
		if r.P(6) { // replaced by the next one
			p.es = append(p.es, profEntry{es[i].a, acct{value: r.U64() >> 3}})
		}
		p.es = append(p.es, es[i])
		if r.P(4) {
			var a addr
			r.Fill(a[:])
			p.es = append(p.es, profEntry{a, acct{}})
		}
	}
	if r.P(1) { // many
		n := 200 + r.Intn(400)
		if r.P(4) {
			n = 2400 + r.Intn(3000) // beyond 64 KiB
		}
		for i := 0; i < n; i++ {
			var a addr
			r.Fill(a[:])
			p.es = append(p.es, profEntry{a, acct{value: 1 + r.U64()>>20}})
		}
	}
	if r.P(8) { // some
		for n := r.Intn(1 << uint(3+r.Intn(6))); n > 0; n-- {
			var a addr
			r.Fill(a[:])
			p.es = append(p.es, profEntry{a, acct{value: 1 + r.U64()>>uint(12+r.Intn(50))}})
		}
	}
	for _, e := range p.es {
		p.led.set(e.a, e.c)
	}
	w.led = p.led
	w.height = height - 1
	w.clock = height
	if r.P(20) && len(w.actors) > 0 {
		for n := r.Intn(3); n > 0; n-- {
			w.addGood(&h.Step{Op: "good", A: []int64{int64(r.Intn(4)), int64(r.Intn(200)), int64(r.Intn(200)), []int64{0, 1, 2, 9}[r.Intn(4)], int64(r.Intn(5)), int64(r.Intn(6)), int64(r.Intn(1 << 30)), int64(r.Intn(1000))}})
		}
	}
	p.block = w.block(w.miner(uint64(r.Intn(1<<20)) | 1))
	w.clock = 0
	p.block.Body.ExtraData = r.Bytes(r.Intn(30))
	if r.P(10) {
		p.block.Body.ExtraData = r.Bytes(r.Intn(256))
	}
	p.block.Body.Pruned = w.neededPrunes(p.block)
	hd := &p.block.Header
	if r.P(40) {
		g := wg{r, false}
		hh, _ := g.header()
		hh.Height = height
		*hd = hh
		p.block.Interlink, _ = g.interlink()
	}
	if v := p.led.push(p.block); v.r != nil {
		p.intact = false
	}
	w.height = height
	hd.AccountsHash = refRoot(p.led.entries())
	p.blk = refBlock(p.block)
	p.accs = writeAccounts(p.es)
	p.conf = profConf{id: int64(r.Intn(256)), name: randName(r, 12), absent: map[string]bool{}}
	for n := r.Intn(5); n > 0; n-- {
		p.conf.peers = append(p.conf.peers, "wss://"+randName(r, 40))
	}
	if r.P(4) {
		for n := r.Intn(1 << uint(4+r.Intn(6))); n > 0; n-- {
			p.conf.peers = append(p.conf.peers, "wss://"+randName(r, 40))
		}
	}
	if r.P(1) && r.P(40) { // a configuration beyond 64 KiB
		for n := 1600 + r.Intn(800); n > 0; n-- {
			p.conf.peers = append(p.conf.peers, "wss://"+randName(r, 60))
		}
	}
	for n := r.Intn(3); n > 0; n-- {
		p.conf.lists = append(p.conf.lists, "http://"+randName(r, 40))
	}
	p.conf.hash = refHash(p.blk)
	for _, k := range []string{"network_id", "name", "seed_peers", "seed_lists", "genesis_hash"} {
		if r.P(5) {
			p.conf.absent[k] = true
			switch k {
			case "network_id":
				p.conf.id = 0
			case "name":
				p.conf.name = ""
			case "seed_peers":
				p.conf.peers = nil
			case "seed_lists":
				p.conf.lists = nil
			case "genesis_hash":
				p.conf.hash = [32]byte{}
			}
		}
	}
	p.toml = p.conf.write(r)
	return p
}

// diskSim puts files where the code under test looks for them: on the
// simulated disk, or below a scratch directory if the file access could not be
// redirected. Read faults exist only on the simulated disk.
type diskSim struct {
	fs  *simos.FS
	dir string
	old string
}

func mountDisk() *diskSim {
	d := &diskSim{fs: simos.NewFS()}
	if os.Getenv("NIMSIM_MODE") == "full" {
		simos.Disk = d.fs
		return d
	}
	var err error
	if d.old, err = os.Getwd(); err == nil {
		if d.dir, err = os.MkdirTemp("", "disk-"); err == nil {
			err = os.Chdir(d.dir)
		}
	}
	if err != nil {
		panic(err)
	}
	return d
}

func (d *diskSim) simulated() bool { return d.dir == "" }

// sync brings a scratch directory up to date.
func (d *diskSim) sync() {
	if d.simulated() {
		return
	}
	for name, b := range d.fs.Files {
		f := filepath.Join(d.dir, name)
		os.MkdirAll(filepath.Dir(f), 0o755)
		if ft := d.fs.Faults[name]; ft != nil && ft.Missing {
			os.Remove(f)
			continue
		}
		if err := os.WriteFile(f, b, 0o644); err != nil {
			panic(err)
		}
	}
}

func (d *diskSim) unmount() {
	simos.Disk = nil
	if d.dir != "" {
		os.Chdir(d.old)
		os.RemoveAll(d.dir)
	}
}
