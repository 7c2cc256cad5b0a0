package scen

import (
	"archive/tar"
	"bytes"
	"fmt"
	"io"
	"os"
	"regexp"
	"strconv"
	"strings"

	"nimsim/h"
	"nimsim/simos"
	"nimsim/simrt"
	"terorie.dev/nimiq/genesis"
	"terorie.dev/nimiq/wire"
	simmain "terorie.dev/nimiq/zz_sim_gimiq"
)

// The import scenario: the gimiq command reads exported chains from a
// simulated disk.

func init() {
	h.Register(&h.Scenario{Name: "import", Exec: execImport, Budget: 200_000_000})
	h.RegisterCheck(&h.Check{Property: "C18", Quick: 60000, Thorough: 1200000, Gen: genImport,
		Rule:    "A run builds a chain on a built-in or generated profile against the reference ledger, exports it as an archive, damages blocks, entries, archive bytes, profile files or accesses, and runs the import command in the simulator. Non-trivial: something was damaged or failed, or at least two blocks were imported.",
		Real:    []string{"cmd/gimiq (main function)", "genesis", "accounts", "tree", "beserial", "wire", "policy"},
		Stub:    []string{"file system (simulated)", "process exit", "block producer and exporter"},
		Measure: "distinct (damage, outcome, failing entry)",
		Assume:  []string{"an archive damaged at the tar level may always be refused", "the import reads block heights up to 400000"},
		Faults:  []string{"missing", "open_error", "read_error", "short_read", "data_with_eof", "entry dropped, doubled, swapped, moved, altered, torn or extended", "block with wrong root, rejected transaction or other contents", "archive truncated, flipped, zeroed or extended", "damaged profile"}})
}

const nAlter = 19

func genImport(r *h.Rand, tier string, idx int) *h.Plan {
	p := &h.Plan{Scenario: "import", Cfg: map[string]int64{}}
	p.Cfg["world"] = int64(r.Intn(1 << 30))
	p.Cfg["actors"] = int64(1 + r.Intn(5))
	p.Cfg["slots"] = int64(r.Intn(4))
	p.Cfg["contracts"] = int64(r.Intn(3))
	if r.P(2) {
		p.Cfg["profile"] = 1
		if r.P(10) {
			p.Cfg["profile"] = 2
		}
	}
	blocks := r.Intn(7)
	if r.P(10) {
		blocks = 7 + r.Intn(15)
	}
	deep := idx%300 == 100
	if deep {
		blocks = 40 + r.Intn(120)
		if r.P(25) {
			blocks = 160 + r.Intn(180)
		}
	}
	for i := 0; i < blocks; i++ {
		if r.P(15) {
			p.Add("time", int64(r.Intn(5)), int64(r.Intn(1<<12)), int64(r.Intn(5)-2), int64(r.Intn(12)))
		}
		for n := r.Geo(2); n > 0; n-- {
			k := r.Weighted([]int{30, 25, 8, 8, 15})
			am := []int64{0, 0, 1, 2, 6, 9, 14}[r.Intn(7)]
			p.Add("good", int64(k), int64(r.Intn(1<<12)), int64(r.Intn(1<<12)), am, int64(r.Intn(5)), int64(r.Intn(6)), int64(r.Intn(1<<30)), int64(r.Intn(1<<12)))
		}
		if idx%1800 == 17 && r.P(60) {
			p.Add("fat", []int64{1, 3, 20, 40, 300, 900}[r.Intn(6)], int64(r.Intn(1<<30)))
		}
		p.Add("block", int64(r.Intn(1<<12)), int64(r.U64()>>1))
	}
	if idx == 137 || idx == 337 || tier == "thorough" && idx%100000 == 337 {
		// More than 16 bits count.
		p.Cfg["rich"], p.Cfg["profile"] = 1, 0
		if idx == 137 || tier == "thorough" && idx%400000 == 337 {
			p.Add("long", 65540+int64(r.Intn(9)), 0)
		} else {
			p.Add("long", 70+int64(r.Intn(9)), 999)
		}
	}
	calm := r.P(20) || p.Cfg["rich"] == 1
	if deep && r.P(80) {
		// One thing wrong far behind, often where counters and caches turn.
		at := []int{16, 32, 50, 64, 100, 128, 256, blocks, r.Intn(blocks) + 1}[r.Intn(9)]
		if r.P(50) {
			for at = 256; at > blocks; at /= 2 {
			}
		}
		at += r.Intn(3) / 2
		kind := []int{7, 7, 18, 18, 8, 9, 10, 14, 0, r.Intn(nAlter)}[r.Intn(10)]
		p.Add("alter", int64((at+blocks-1)%blocks), int64(kind), int64(r.U64()>>1))
	} else if !calm {
		for n := 1 + r.Geo(1); n > 0; n-- {
			switch r.Weighted([]int{50, 20, 20, 5}) {
			case 0:
				p.Add("alter", int64(r.Intn(1<<12)), int64(r.Intn(nAlter)), int64(r.U64()>>1))
			case 1:
				p.Add("tar", int64(r.Intn(7)), int64(r.U64()>>1))
			case 2:
				p.Add("disk", int64(r.Weighted([]int{7, 1, 1, 1})), int64(r.Intn(7)), int64(r.U64()>>1))
			case 3:
				p.Add("profile", int64(1+r.Intn(2)), int64(r.U64()>>1))
			}
		}
	} else if r.P(50) {
		p.Add("disk", 0, int64(4+r.Intn(2)), int64(r.U64()>>1))
	}
	p.Add("import", int64(r.Intn(100)), int64(r.U64()>>1))
	return p
}

// impEntry is an entry of the archive.
type impEntry struct {
	name string
	data []byte
}

type importRun struct {
	x       *h.Ctx
	w       *world
	d       *diskSim
	prof    *prof
	name    string // of the profile
	es      []impEntry
	start   *ledger
	startOK bool
	lenient bool // a refusal is always fine
	dmg     string
	tarOps  []h.Step
	skip    bool // the outcome is open or takes too long
}

func execImport(x *h.Ctx, p *h.Plan) {
	if os.Getenv("NIMSIM_MODE") == "none" {
		x.Count("import_unavailable")
		return
	}
	m := &importRun{x: x, d: mountDisk(), startOK: true}
	defer m.d.unmount()
	r := h.NewRand(uint64(p.Cfg["world"]) + 5)
	m.w = newWorld(uint64(p.Cfg["world"]), int(p.Cfg["actors"]%16), int(p.Cfg["slots"]%16))
	switch p.Cfg["profile"] % 3 {
	case 0:
		budget := []uint64{1000, 1 << 40, 1 << 60}[r.Intn(3)]
		if p.Cfg["rich"] == 1 {
			budget = 1 << 60
		}
		m.w.fund(r, budget, int(p.Cfg["contracts"]))
		m.prof = newProf(r, m.w, 1)
		m.w.vary = r.P(50)
		m.name = []string{"custom", "dir/custom"}[r.Intn(2)]
		for k, b := range [][]byte{m.prof.toml, m.prof.blk, m.prof.accs} {
			m.d.fs.Files[m.name+profFiles[k]] = b
		}
	default:
		m.name = builtins[2-p.Cfg["profile"]%3].name
		m.builtin()
	}
	m.start = m.w.led.clone()
	m.es = append(m.es, impEntry{"manifest.json", []byte(fmt.Sprintf(`{"name":"%s"}`, m.name))})
	imported := false
	for i := range p.Steps {
		s := &p.Steps[i]
		x.CurStep = i
		x.Count("op." + s.Op)
		switch s.Op {
		case "time":
			if len(m.w.txs) == 0 {
				m.w.setTime(s)
			}
		case "good":
			if m.w.addGood(s) {
				x.Count("transactions")
			}
		case "fat":
			m.fat(s)
		case "long":
			m.long(s)
		case "block":
			m.block(s)
		case "alter":
			m.alter(s)
		case "tar":
			m.tarOps = append(m.tarOps, *s)
		case "disk":
			m.fault(s)
		case "profile":
			m.damageProfile(s)
		case "import":
			if !imported {
				imported = true // flags are defined once per process
				m.run(s)
			}
		}
	}
	for _, k := range m.d.fs.FiredKeys() {
		x.CountN("fault."+k, m.d.fs.Fired[k])
	}
}

// builtin starts from a profile of the library.
func (m *importRun) builtin() {
	prof, err := genesis.OpenProfile(m.name)
	if err != nil {
		m.x.Fail("C17 C18", "built-in profile refused", "opening %s: %v", m.name, err)
	}
	i := 0
	for _, a := range prof.Accounts {
		c, ok := fromWire(a.Account.Account)
		if !ok {
			continue
		}
		m.w.led.set(a.Address, c)
		if i < len(m.w.actors) && c.typ == 0 && c.value > 0 {
			m.w.actors[i].addr = a.Address
			m.w.actors[i].multi = true
			i++
		}
	}
	if v := m.w.led.push(&prof.Block); v.r != nil {
		m.x.Fail("C17 C18", "built-in profile refused", "genesis block of %s: %s", m.name, v.r.why)
	}
	m.w.height = 1
}

func (m *importRun) block(s *h.Step) {
	w := m.w
	r := h.NewRand(s.UArg(1))
	b := w.block(w.miner(s.UArg(0)))
	b.Body.Pruned = w.neededPrunes(b)
	if r.P(30) {
		b.Body.ExtraData = r.Bytes(r.Intn(40))
	}
	if w.vary {
		w.varyHeader(r, b)
	}
	r.Fill(b.Header.PrevHash[:])
	b.Header.Nonce = uint32(r.U64())
	if r.P(20) {
		b.Interlink, _ = (&wg{r, false}).interlink()
	}
	v := w.led.push(b)
	if v.r != nil {
		return // a miner that turned into a contract
	}
	w.height, w.clock = b.Header.Height, 0
	b.Header.AccountsHash = refRoot(w.led.entries())
	m.es = append(m.es, impEntry{fmt.Sprintf("%07d.bin", b.Header.Height), refBlock(b)})
	m.x.Count("blocks")
}

// fat fills the pending block with large or many transactions.
func (m *importRun) fat(s *h.Step) {
	w := m.w
	r := h.NewRand(s.UArg(1))
	n := s.Mod(0, 1000)
	w.ensurePeek()
	rich := w.rich(w.peek)
	for i := 0; i < n && len(rich) > 0; i++ {
		from := rich[r.Intn(len(rich))]
		tx := &wire.ExtendedTx{Sender: from, Recipient: w.miner(uint64(r.Intn(64)*16 + 1)), Value: 1,
			ValidityStartHeight: w.now(), NetworkID: 4, Proof: append([]byte(nil), w.actorOf(from).proof...)}
		if n <= 40 {
			tx.Data = r.Bytes([]int{65535, 65535, 40000, 32767}[r.Intn(4)])
		}
		c := contentOf(tx)
		if n, ref := w.peek.m[from].spend(&c, w.now()); ref == nil {
			w.peek.set(from, n)
			w.txs = append(w.txs, wire.WrapTx{Tx: tx})
		}
	}
	m.x.Count("fat_blocks")
}

// long adds very many blocks, or blocks of very many transactions.
func (m *importRun) long(s *h.Step) {
	simrt.Rearm(8_000_000_000)
	w := m.w
	w.txs, w.peek = nil, nil
	for n := s.Mod(0, 1<<17); n > 0; n-- {
		if k := s.UArg(1) % 1000; k > 0 {
			m.fat(&h.Step{A: []int64{int64(k), int64(n)}})
		}
		b := w.block(w.miner(uint64(16*(n%4) + 1)))
		if v := w.led.push(b); v.r != nil {
			continue
		}
		w.height, w.clock = b.Header.Height, 0
		b.Header.AccountsHash = refRoot(w.led.entries())
		m.es = append(m.es, impEntry{"block", refBlock(b)})
	}
	m.x.Count("long_exports")
	m.x.CountN("long_blocks", len(m.es))
}

// alter damages an entry of the archive.
func (m *importRun) alter(s *h.Step) {
	r := h.NewRand(s.UArg(2))
	k := s.Mod(1, nAlter)
	n := len(m.es) - 1
	if n < 0 {
		return
	}
	if n < 1 {
		k = 12 + k%2
	}
	i := 0
	if n >= 1 {
		i = 1 + s.Mod(0, n)
	}
	e := &m.es[i]
	d := append([]byte(nil), e.data...)
	name := ""
	reblock := func(what string, f func(b *wire.Block) bool) {
		if b, ok := readBlock(d); ok && f(b) {
			d = refBlock(b)
			name = what
		}
	}
	switch k {
	case 0:
		m.es = append(m.es[:i:i], m.es[i+1:]...)
		m.note("drop", i)
		return
	case 1:
		c := append([]impEntry(nil), m.es[:i+1]...)
		m.es = append(append(c, m.es[i]), m.es[i+1:]...)
		m.note("double", i)
		return
	case 2:
		j := i + 1
		if j >= len(m.es) {
			j = 1
		}
		m.es[i], m.es[j] = m.es[j], m.es[i]
		m.note("swap", i)
		return
	case 3:
		x := m.es[i]
		m.es = append(append(m.es[:i:i], m.es[i+1:]...), x)
		m.note("move", i)
		return
	case 4:
		if len(d) > 0 {
			d[r.Intn(len(d))] ^= 1 << uint(r.Intn(8))
			name = "bit_flip"
		}
	case 5:
		d = d[:r.Intn(len(d)+1)]
		name = "torn_entry"
	case 6:
		d = append(d, r.Bytes(1+r.Geo(3))...)
		name = "extended_entry"
	case 7:
		reblock("wrong_root", func(b *wire.Block) bool { b.Header.AccountsHash[r.Intn(32)] ^= 1 << uint(r.Intn(8)); return true })
	case 8:
		reblock("rejected_tx", func(b *wire.Block) bool {
			if b.Body == nil {
				return false
			}
			t := &wire.ExtendedTx{Sender: m.w.address(r.Intn(8)), Recipient: m.w.address(r.Intn(8)), Value: r.U64() >> 1}
			at := r.Intn(len(b.Body.Txs) + 1)
			b.Body.Txs = append(b.Body.Txs[:at:at], append([]wire.WrapTx{{Tx: t}}, b.Body.Txs[at:]...)...)
			if prev, ok := readBlock(m.es[i-1].data); ok && i > 1 && r.P(40) {
				b.Header.AccountsHash = prev.Header.AccountsHash // as if it had no effect
			}
			return true
		})
	case 9:
		reblock("other_miner", func(b *wire.Block) bool {
			if b.Body == nil {
				return false
			}
			b.Body.MinerAddr = m.w.address(r.Intn(10))
			return true
		})
	case 10:
		reblock("other_value", func(b *wire.Block) bool {
			if b.Body == nil || len(b.Body.Txs) == 0 {
				return false
			}
			switch t := b.Body.Txs[r.Intn(len(b.Body.Txs))].Tx.(type) {
			case *wire.BasicTx:
				t.Value++
			case *wire.ExtendedTx:
				t.Fee++
			}
			return true
		})
	case 11:
		reblock("no_body", func(b *wire.Block) bool { b.Body = nil; return true })
	case 12:
		m.es = m.es[1:]
		m.note("no_manifest", 0)
		return
	case 13:
		at := 1 + r.Intn(len(m.es))
		if len(m.es) == 0 {
			at = 0
		}
		at = min(at, len(m.es))
		c := append([]impEntry(nil), m.es[:at]...)
		m.es = append(append(c, impEntry{"extra", r.Bytes(r.Intn(300))}), m.es[at:]...)
		m.note("garbage", at)
		return
	case 14:
		reblock("other_height", func(b *wire.Block) bool { b.Header.Height = uint32(r.Intn(3000)); return true })
	case 15: // nothing the import looks at
		reblock("other_nonce", func(b *wire.Block) bool { b.Header.Nonce++; b.Header.Timestamp--; return true })
	case 16:
		reblock("other_prunes", func(b *wire.Block) bool {
			if b.Body == nil {
				return false
			}
			if n := len(b.Body.Pruned); n > 0 {
				b.Body.Pruned = b.Body.Pruned[:n-1]
				return true
			}
			b.Body.Pruned = []wire.AccountPruned{{Address: m.w.address(r.Intn(8)), Account: wire.WrapAccount{Account: &wire.BasicAccount{}}}}
			return true
		})
	case 18: // roots with a meaning
		reblock("other_root", func(b *wire.Block) bool {
			roots := [][32]byte{{}, refRoot(nil)}
			for _, e := range m.es {
				if o, ok := readBlock(e.data); ok {
					roots = append(roots, o.Header.AccountsHash, o.Header.BodyHash)
				}
			}
			old := b.Header.AccountsHash
			if b.Header.AccountsHash = roots[r.Intn(len(roots))]; r.P(40) {
				b.Header.AccountsHash = roots[r.Intn(2)]
			}
			return b.Header.AccountsHash != old
		})
	case 17:
		d = nil
		name = "empty_entry"
	}
	if name == "" {
		return
	}
	m.es[i].data = d
	m.note(name, i)
}

func (m *importRun) note(what string, i int) {
	m.x.Count("fault.entry_" + what)
	m.dmg += fmt.Sprintf("%s %d; ", what, i)
}

func (m *importRun) fault(s *h.Step) {
	r := h.NewRand(s.UArg(2))
	f := "chain.tar"
	if k := s.Mod(0, 4); k > 0 {
		f = m.name + profFiles[k-1]
		if m.prof == nil {
			return
		}
	}
	ft := m.d.fs.Faults[f]
	if ft == nil {
		ft = &simos.Fault{ErrAt: -1}
		m.d.fs.Faults[f] = ft
	}
	k := s.Mod(1, 7)
	if !m.d.simulated() {
		if k != 0 {
			return
		}
	}
	switch k {
	case 0:
		ft.Missing = true
	case 1:
		ft.OpenErr = true
	case 2, 3, 6:
		ft.ErrAt = r.Intn(1 << uint(1+r.Intn(15)))
	case 4:
		ft.Short = 1 + r.Geo(40)
		for n := r.Intn(4); n > 0; n-- {
			ft.ShortSeq = append(ft.ShortSeq, 1+r.Geo(200))
		}
	case 5:
		ft.ErrEOF = true
	}
	m.dmg += fmt.Sprintf("%s %+v; ", f, *ft)
}

// damageProfile changes the initial state.
func (m *importRun) damageProfile(s *h.Step) {
	if m.prof == nil {
		return
	}
	k := s.Mod(0, 3)
	f := m.name + profFiles[k]
	b := append([]byte(nil), m.d.fs.Files[f]...)
	if k == 0 || len(b) == 0 {
		return
	}
	r := h.NewRand(s.UArg(1))
	if r.P(80) {
		b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
	} else {
		b = b[:r.Intn(len(b))]
	}
	m.d.fs.Files[f] = b
	m.dmg += "profile " + profFiles[k] + "; "
	m.x.Count("fault.damaged_profile")
	// What do the files say now?
	bl, ok1 := readBlock(m.d.fs.Files[m.name+profFiles[1]])
	es, ok2 := readAccounts(m.d.fs.Files[m.name+profFiles[2]])
	m.startOK = false
	if !ok1 || !ok2 {
		return
	}
	led := newLedger()
	for _, e := range es {
		led.set(e.a, e.c)
	}
	if bl.Header.Height > maxHeight {
		m.skip = true
		return
	}
	v := led.push(bl)
	if v.dontcare != "" {
		m.skip = true
	}
	if v.r == nil && refRoot(led.entries()) == bl.Header.AccountsHash {
		m.startOK = true
		m.start = led
	}
}

// archive writes the entries.
func (m *importRun) archive(r *h.Rand) []byte {
	var b bytes.Buffer
	t := tar.NewWriter(&b)
	format := []tar.Format{tar.FormatUSTAR, tar.FormatPAX, tar.FormatGNU, tar.FormatUnknown}[r.Intn(4)]
	for i, e := range m.es {
		hd := &tar.Header{Name: e.name, Mode: 0o644, Size: int64(len(e.data)), Format: format, Typeflag: tar.TypeReg}
		if r.P(2) {
			hd.Typeflag = tar.TypeCont
		}
		if format != tar.FormatUSTAR && r.P(2) {
			hd.Name = strings.Repeat("directory/", 5+r.Intn(30)) + hd.Name
		}
		if format == tar.FormatPAX && r.P(20) {
			hd.PAXRecords = map[string]string{"NIMIQ.height": fmt.Sprint(i)}
		}
		if err := t.WriteHeader(hd); err != nil {
			panic(err)
		}
		if _, err := t.Write(e.data); err != nil {
			panic(err)
		}
	}
	if err := t.Close(); err != nil {
		panic(err)
	}
	return b.Bytes()
}

func (m *importRun) damageArchive(b []byte, s *h.Step) []byte {
	r := h.NewRand(s.UArg(1))
	name := ""
	switch s.Mod(0, 7) {
	case 0:
		b = b[:r.Intn(len(b)+1)]
		name = "truncate"
	case 1: // at a block of the archive
		b = b[:r.Intn(len(b)/512+1)*512]
		name = "truncate"
	case 2, 3:
		if len(b) > 0 {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
		name = "bit_flip"
	case 4:
		if len(b) > 0 {
			o := r.Intn(len(b))
			if r.P(50) {
				o &^= 511
			}
			for i := o; i < len(b) && i < o+512; i++ {
				b[i] = 0
			}
		}
		name = "zero_block"
	case 5:
		b = append(b, r.Bytes(r.Intn(2000))...)
		name = "extend"
	case 6:
		b = append(append([]byte(nil), b...), b...)
		name = "twice"
	}
	m.x.Count("fault.archive_" + name)
	m.dmg += "archive " + name + "; "
	m.lenient = true
	return b
}

// expect says what an import of the archive has to report. fail is empty if it
// has to succeed; judged is false if the rules leave the outcome open.
func (m *importRun) expect(b []byte) (blocks, txs int, fail string, judged bool) {
	if !m.startOK {
		return 0, 0, "the profile is damaged", true
	}
	led := m.start.clone()
	t := tar.NewReader(bytes.NewReader(b))
	for i := 0; ; i++ {
		_, err := t.Next()
		if err == io.EOF {
			return blocks, txs, "", true
		}
		if err != nil {
			return blocks, txs, fmt.Sprintf("entry %d: %v", i, err), true
		}
		if i == 0 {
			continue
		}
		d, err := io.ReadAll(t)
		if err != nil {
			return blocks, txs, fmt.Sprintf("entry %d: %v", i, err), true
		}
		bl, ok := readBlock(d)
		if !ok {
			return blocks, txs, fmt.Sprintf("entry %d is not a block", i), true
		}
		if bl.Header.Height > maxHeight {
			return 0, 0, "", false
		}
		v := led.push(bl)
		if v.dontcare != "" {
			return 0, 0, "", false
		}
		if v.r != nil {
			return blocks, txs, fmt.Sprintf("entry %d: %s", i, v.r.why), true
		}
		if refRoot(led.entries()) != bl.Header.AccountsHash {
			return blocks, txs, fmt.Sprintf("entry %d has another root", i), true
		}
		blocks++
		txs += len(bl.Body.Txs)
	}
}

var (
	outFile, nullFile *os.File
	blocksLine        = regexp.MustCompile(`(?m)^Blocks: *(\d+)$`)
	txsLine           = regexp.MustCompile(`(?m)^Txs: *(\d+)$`)
)

// command runs the command. failed tells how it ended, empty if it exited with success.
func (m *importRun) command(args []string) (out, failed string) {
	if outFile == nil {
		var err error
		if outFile, err = os.CreateTemp("", "stdout-"); err == nil {
			nullFile, err = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		}
		if err != nil {
			panic(err)
		}
	}
	outFile.Truncate(0)
	outFile.Seek(0, 0)
	oldArgs, oldOut, oldErr := os.Args, os.Stdout, os.Stderr
	os.Args, os.Stdout, os.Stderr = append([]string{"gimiq"}, args...), outFile, nullFile
	simos.CatchExit, simos.Exited = true, nil
	pi := h.Catch(func() { simmain.Main() })
	simos.CatchExit = false
	os.Args, os.Stdout, os.Stderr = oldArgs, oldOut, oldErr
	outFile.Seek(0, 0)
	b, err := io.ReadAll(outFile)
	if err != nil {
		panic(err)
	}
	if e := simos.Exited; e != nil {
		if *e != 0 {
			failed = fmt.Sprintf("exit status %d", *e)
		}
	} else if pi != nil {
		if pi.At == "step budget" {
			m.x.Fail("C18", "no termination", "the import of [%s] does not end", m.dmg)
		} else if !pi.Repo && pi.At != "?" {
			panic(pi.Val)
		} else {
			failed = fmt.Sprintf("panic: %v", pi.Val)
		}
	}
	return string(b), failed
}

func (m *importRun) run(s *h.Step) {
	x := m.x
	r := h.NewRand(s.UArg(1))
	b := m.archive(r)
	for i := range m.tarOps {
		b = m.damageArchive(b, &m.tarOps[i])
	}
	m.d.fs.Files["chain.tar"] = b
	m.d.sync()
	blocks, txs, fail, judged := m.expect(b)
	if !judged || m.skip {
		x.Count("unjudged")
		return
	}
	args := []string{"-blocksPath", "chain.tar"}
	usage := s.Mod(0, 100) == 0
	if usage {
		args = nil
	}
	if m.name != "test" || r.P(50) {
		args = append(args, "-profile="+m.name)
	}
	if r.P(30) {
		args = append(args, "-debug")
	}
	if r.P(2) && m.prof != nil {
		args = append(args, "-profile", "nowhere")
		fail = "there is no such profile"
		m.dmg += "profile nowhere; "
		m.d.fs.Faults["nowhere.toml"] = &simos.Fault{ErrAt: -1, Missing: true}
	}
	hard := m.d.fs.Fired["read_error"] + m.d.fs.Fired["open_error"] + m.d.fs.Fired["missing"]
	out, failed := m.command(args)
	hit := m.d.fs.Fired["read_error"]+m.d.fs.Fired["open_error"]+m.d.fs.Fired["missing"] > hard
	if !m.d.simulated() {
		for _, f := range m.d.fs.Faults {
			hit = hit || f.Missing
		}
	}
	switch {
	case usage:
		fail = "no archive is given"
	case hit:
		fail = "a file access failed"
	}
	gb, gt := blocksLine.FindStringSubmatch(out), txsLine.FindStringSubmatch(out)
	x.Log("import [%s]: expected %q, got %q", m.dmg, fail, failed)
	x.State(h.HashBytes([]byte(m.dmg + fail)))
	if m.dmg != "" || blocks >= 2 {
		x.Nontrivial()
	}
	desc := fmt.Sprintf("import of %d entries [%s] %v", len(m.es), m.dmg, args)
	if failed != "" {
		x.Count("imports_failed")
		if fail == "" && !m.lenient {
			x.Fail("C18", "valid export refused", "%s: %s", desc, failed)
		}
		if gb != nil {
			x.Fail("C18", "success reported by a failed import", "%s: printed %q and then ended with %s", desc, out, failed)
		}
		return
	}
	x.Count("imports_succeeded")
	if fail != "" {
		x.Fail("C18", "damage not reported", "%s: succeeded (%q) although %s", desc, out, fail)
	}
	if gb == nil || gt == nil {
		x.Fail("C18", "counts missing", "%s: printed %q", desc, out)
	}
	nb, _ := strconv.Atoi(gb[1])
	nt, _ := strconv.Atoi(gt[1])
	if nb != blocks || nt != txs {
		x.Fail("C18", "counts wrong", "%s: reported %d blocks and %d transactions, there are %d and %d", desc, nb, nt, blocks, txs)
	}
}
