package scen

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"

	"nimsim/h"
	"nimsim/simos"
	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/genesis"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"
)

// The genesis scenario: profiles on a simulated disk, with damage.

func init() {
	h.Register(&h.Scenario{Name: "genesis", Exec: execGenesis, Budget: 200_000_000})
	h.RegisterCheck(&h.Check{Property: "C17", Quick: 30000, Thorough: 900000, Gen: genGenesis,
		Rule:    "A run puts generated profiles on a simulated disk, damages files and makes accesses fail, opens the profiles and initialises ledgers from them. Non-trivial: a damaged or failing profile was opened, or a profile was initialised.",
		Real:    []string{"genesis", "go-toml", "embedded profiles", "beserial", "wire", "accounts", "tree"},
		Stub:    []string{"file system (simulated: missing files, open and read errors, short reads)"},
		Measure: "distinct (damage, outcome, file length class)",
		Assume:  []string{"keys of a configuration written in other upper and lower case may count or not", "a configuration damaged into a text the generic TOML parser reads differently than before may always be refused"},
		Faults:  []string{"missing", "open_error", "read_error", "short_read", "data_with_eof", "bit_flip", "truncate", "extend", "swap files", "overwrite", "zero_block"}})
}

func genGenesis(r *h.Rand, tier string, idx int) *h.Plan {
	p := &h.Plan{Scenario: "genesis", Cfg: map[string]int64{"names": int64(r.Intn(len(profNames)))}}
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		p.Add("prof", int64(r.U64()>>1))
	}
	for k := 1 + r.Intn(5); k > 0; k-- {
		i := int64(r.Intn(n))
		if r.P(5) {
			p.Add("builtin", int64(r.Intn(2)), int64(r.Intn(3)))
			continue
		}
		for r.P(65) {
			p.Add("fault", i, int64(r.Intn(3)), int64(r.Intn(16)), int64(r.U64()>>1))
		}
		p.Add("open", i, int64(r.Intn(4)))
		if r.P(70) {
			p.Add("init", int64(r.Intn(6)), int64(r.U64()>>1))
		}
		if r.P(20) {
			p.Add("init", int64(r.Intn(6)), int64(r.U64()>>1))
		}
		if r.P(60) {
			p.Add("heal", i)
		}
	}
	return p
}

var profNames = []string{"prof", "dir/prof", "main2", "a.b/test", "main.toml", "TEST", "Main", "dev", "files/main", "tests", "a b/ü"}
var profFiles = []string{".toml", ".block.bin", ".accounts.bin"}

type genesisRun struct {
	x     *h.Ctx
	d     *diskSim
	ps    []*prof
	first int // among the names
	dmg   map[string]string
	last  *genesis.Profile
	lb    *prof // what the files of the last opened profile say
	accs  *accounts.Accounts
	led   *ledger
}

func (w *genesisRun) path(i int) string { return profNames[(i+w.first)%len(profNames)] }

func (w *genesisRun) file(i, k int) string { return w.path(i) + profFiles[k] }

func execGenesis(x *h.Ctx, p *h.Plan) {
	w := &genesisRun{x: x, d: mountDisk(), dmg: map[string]string{}, first: int(p.Cfg["names"] % 1000)}
	defer w.d.unmount()
	// The built-in profiles have to win against files of the same name.
	for _, n := range []string{"main", "test"} {
		for _, e := range profFiles {
			w.d.fs.Files[n+e] = []byte("x = [")
		}
	}
	for i := range p.Steps {
		s := &p.Steps[i]
		x.CurStep = i
		x.Count("op." + s.Op)
		if s.Op != "prof" && s.Op != "builtin" && len(w.ps) == 0 {
			continue
		}
		switch s.Op {
		case "prof":
			if len(w.ps) < len(profNames) {
				w.add(s)
			}
		case "fault":
			w.fault(s)
		case "heal":
			w.put(s.Mod(0, len(w.ps)))
		case "open":
			w.open(s)
		case "init":
			w.init(s)
		case "builtin":
			w.builtin(s)
		}
	}
	for _, k := range w.d.fs.FiredKeys() {
		x.CountN("fault."+k, w.d.fs.Fired[k])
	}
}

func (w *genesisRun) add(s *h.Step) {
	r := h.NewRand(s.UArg(0))
	wd := newWorld(s.UArg(0), 1+r.Intn(4), r.Intn(3))
	wd.fund(r, []uint64{1000, 1 << 40, 1 << 62}[r.Intn(3)], r.Intn(3))
	height := uint32(1)
	if r.P(10) {
		height = uint32(r.Intn(3000))
		if height == 0 {
			height = 1
		}
	}
	p := newProf(r, wd, height)
	w.ps = append(w.ps, p)
	w.put(len(w.ps) - 1)
}

// put writes the files of a profile afresh.
func (w *genesisRun) put(i int) {
	p := w.ps[i]
	for k, b := range [][]byte{p.toml, p.blk, p.accs} {
		f := w.file(i, k)
		w.d.fs.Files[f] = append([]byte(nil), b...)
		delete(w.d.fs.Faults, f)
		delete(w.dmg, f)
	}
}

func (w *genesisRun) fault(s *h.Step) {
	x := w.x
	i := s.Mod(0, len(w.ps))
	f := w.file(i, s.Mod(1, 3))
	r := h.NewRand(s.UArg(3))
	b := append([]byte(nil), w.d.fs.Files[f]...)
	name := ""
	set := func(mk func(*simos.Fault)) {
		ft := w.d.fs.Faults[f]
		if ft == nil {
			ft = &simos.Fault{ErrAt: -1}
			w.d.fs.Faults[f] = ft
		}
		mk(ft)
	}
	k := s.Mod(2, 16)
	if !w.d.simulated() && k >= 1 && k <= 5 {
		k = 0
	}
	switch k {
	case 0:
		set(func(ft *simos.Fault) { ft.Missing = true })
	case 1:
		set(func(ft *simos.Fault) { ft.OpenErr = true })
	case 2, 3:
		set(func(ft *simos.Fault) { ft.ErrAt = r.Intn(len(b) + 2) })
	case 4:
		set(func(ft *simos.Fault) {
			ft.Short = 1 + r.Geo(20)
			for n := r.Intn(4); n > 0; n-- {
				ft.ShortSeq = append(ft.ShortSeq, 1+r.Geo(50))
			}
		})
	case 5:
		set(func(ft *simos.Fault) { ft.ErrEOF = true })
	case 6, 7, 8:
		if len(b) > 0 {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
			name = "bit_flip"
		}
	case 9, 10:
		b = b[:r.Intn(len(b)+1)]
		name = "truncate"
	case 11:
		b = append(b, r.Bytes(1+r.Geo(3))...)
		if r.P(30) {
			b = append(b, '\n')
		}
		name = "extend"
	case 12: // the file of another profile
		j := r.Intn(len(w.ps))
		e := s.Mod(1, 3)
		if r.P(15) {
			e = r.Intn(3)
		}
		b = append([]byte(nil), w.d.fs.Files[w.file(j, e)]...)
		name = "swap_file"
	case 13: // a run of zeros, as after a lost write
		if len(b) > 0 {
			o := r.Intn(len(b))
			for q := o; q < len(b) && q < o+1+r.Intn(64); q++ {
				b[q] = 0
			}
			name = "zero_block"
		}
	case 14: // another byte, drawn from what matters in the file
		if len(b) > 0 {
			c := []byte("\"'[]=,\n#09af\\ \x00\xff.-+_")
			b[r.Intn(len(b))] = c[r.Intn(len(c))]
			name = "overwrite"
		}
	case 15:
		name = w.semantic(i, s.Mod(1, 3), r, &b)
	}
	if name != "" {
		w.d.fs.Files[f] = b
		w.dmg[f] += name + " "
		x.Count("fault." + name)
	}
}

// semantic makes a well-formed file that says something else.
func (w *genesisRun) semantic(i, k int, r *h.Rand, b *[]byte) string {
	p := w.ps[i]
	switch k {
	case 0:
		t := string(p.toml)
		hx := hex.EncodeToString(p.conf.hash[:])
		switch r.Intn(12) {
		case 0:
			t = strings.Replace(t, fmt.Sprintf("= %d", p.conf.id), []string{"= 256", "= -1", "= 3.5", "= \"7\"", "= 65537", "= true", "= []", "= 18446744073709551616"}[r.Intn(8)], 1)
		case 1:
			n := r.Intn(len(hx))
			if r.P(40) {
				n = []int{1, 1, 2, 40, 62, 63}[r.Intn(6)]
			}
			t = strings.Replace(t, hx, hx[:n], 1)
		case 2:
			t = strings.Replace(t, hx, hx+hx[:r.Intn(len(hx))], 1)
		case 3:
			t = strings.Replace(t, hx, hx[:20]+"g"+hx[21:], 1)
		case 4:
			t = "[table]\n" + t
		case 5:
			t += "name = \"twice\"\n"
		case 6:
			t = strings.Replace(t, "seed_peers", "seed_lists", 1)
		case 7:
			t = strings.Replace(t, "[", "[1, ", 1)
		case 8:
			t = strings.Replace(t, "name", []string{"Name", "NAME", "namE", "name.x", "\"name\""}[r.Intn(5)], 1)
		case 9: // complete and more
			t = strings.Replace(t, hx, hx+[]string{"g", "0", " ", "0x", "zz"}[r.Intn(5)], 1)
		case 10, 11: // texts at which the parser itself fails
			l := []string{"x = ]", "x = ,", "x = }", "x = =", "x = [ = ]", "x = {a = ,}", "x = 0y1", "x = 1979-05-27T", "[a]\n[a]", "[[a]]\n[a]", "a.b = 1\na = 2", "[", "x", "\"", "x = \"\\uD800\"", "[name.y]", "[seed_peers.z]", "[[name]]", "name.z = 1", "x = {", "x = [1,", "\xff = 1"}
			line := l[r.Intn(len(l))] + "\n"
			if r.P(50) {
				t += line
			} else {
				t = line + t
			}
		}
		*b = []byte(t)
	case 1:
		bl := *p.block
		bd := *p.block.Body
		bl.Body = &bd
		switch r.Intn(9) {
		case 6, 7: // a block that is refused, with the root of the accounts alone
			led := newLedger()
			for _, e := range p.es {
				led.set(e.a, e.c)
			}
			if bl.Header.AccountsHash = refRoot(led.entries()); r.P(30) {
				break
			}
			var from, to addr
			r.Fill(from[:])
			r.Fill(to[:])
			bd.Txs = append(bd.Txs[:len(bd.Txs):len(bd.Txs)], wire.WrapTx{Tx: &wire.ExtendedTx{Sender: from, Recipient: to, Value: 1 + uint64(r.Intn(9))}})
		case 8:
			bl.Header.AccountsHash = refRoot(nil)
		case 0:
			bl.Header.Height += uint32(1 + r.Intn(3))
		case 1:
			bl.Header.Height = uint32(r.Intn(2)) * 0xffffffff
		case 2:
			r.Fill(bl.Header.AccountsHash[:])
		case 3:
			r.Fill(bd.MinerAddr[:])
		case 4:
			bl.Body = nil
		case 5:
			bl.Header.AccountsHash = [32]byte{}
		}
		*b = refBlock(&bl)
	case 2:
		es := append([]profEntry(nil), p.es...)
		if len(es) == 0 {
			return ""
		}
		q := r.Intn(len(es))
		switch r.Intn(6) {
		case 0:
			es = append(es[:q:q], es[q+1:]...)
		case 1:
			es = append(es, es[q])
		case 2:
			o := r.Intn(len(es))
			es[q], es[o] = es[o], es[q]
		case 3:
			es[q].c.value += uint64(r.Intn(3)) - 1
		case 4:
			es[q].a[r.Intn(20)] ^= 1 << uint(r.Intn(8))
		case 5:
			es[q].c.total++
			es[q].c.step++
		}
		*b = writeAccounts(es)
	}
	return "semantic"
}

func (w *genesisRun) guard(what string, f func()) {
	if pi := h.Catch(f); pi != nil {
		if !pi.Repo && pi.At != "?" {
			panic(pi.Val)
		}
		w.x.Fail("C17", pi.Class(), "%s: %s", what, pi)
	}
}

func (w *genesisRun) open(s *h.Step) {
	x := w.x
	i := s.Mod(0, len(w.ps))
	path := w.path(i)
	p := w.ps[i]
	w.d.sync()
	hard := w.d.fs.Fired["read_error"] + w.d.fs.Fired["open_error"] + w.d.fs.Fired["missing"]
	var got *genesis.Profile
	var err error
	w.guard("opening "+path, func() { got, err = genesis.OpenProfile(path) })
	hit := w.d.fs.Fired["read_error"]+w.d.fs.Fired["open_error"]+w.d.fs.Fired["missing"] > hard
	if !w.d.simulated() {
		for k := range profFiles {
			if ft := w.d.fs.Faults[w.file(i, k)]; ft != nil && ft.Missing {
				hit = true
			}
		}
	}
	dmg := ""
	for k := range profFiles {
		if d := w.dmg[w.file(i, k)]; d != "" {
			dmg += profFiles[k] + ": " + d
		}
		if ft := w.d.fs.Faults[w.file(i, k)]; ft != nil {
			x.Nontrivial()
			dmg += fmt.Sprintf("%s: %+v ", profFiles[k], *ft)
		}
	}
	x.Log("open %s [%s]: %v", path, dmg, err != nil)
	x.State(h.HashBytes([]byte(fmt.Sprint(dmg, err != nil))) ^ uint64(len(w.d.fs.Files[w.file(i, 1)])))
	if err == nil && got == nil {
		x.Fail("C17", "no profile", "opening %s [%s] gave neither a profile nor an error", path, dmg)
	}
	if dmg != "" {
		x.Nontrivial()
	}
	w.last, w.lb = nil, nil
	if hit {
		if err == nil {
			x.Fail("C17", "file error ignored", "opening %s [%s] succeeded although an access failed", path, dmg)
		}
		return
	}
	text, blk, accs := w.d.fs.Files[w.file(i, 0)], w.d.fs.Files[w.file(i, 1)], w.d.fs.Files[w.file(i, 2)]
	q := &prof{}
	var okB, okA, okT bool
	q.block, okB = readBlock(blk)
	q.es, okA = readAccounts(accs)
	loose := map[string]bool{}
	q.blk, q.accs = blk, accs
	same := bytes.Equal(text, p.toml)
	if same {
		q.conf, okT = p.conf, true
	} else {
		w.guard("parsing "+path, func() { q.conf, loose, okT = readConf(text) })
	}
	if err != nil {
		if okB && okA && same {
			x.Fail("C17", "valid profile refused", "opening %s [%s]: %v", path, dmg, err)
		}
		return
	}
	if !okB {
		x.Fail("C17", "damaged block accepted", "opening %s [%s] succeeded with block %s", path, dmg, hexs(blk))
	}
	if !okA {
		x.Fail("C17", "damaged accounts accepted", "opening %s [%s] succeeded with accounts %s", path, dmg, hexs(accs))
	}
	if !okT {
		x.Fail("C17", "damaged configuration accepted", "opening %s [%s] succeeded with configuration %q", path, dmg, text)
	}
	w.compareConf(path, dmg, got.Config, &q.conf, loose)
	if out := refBlock(&got.Block); !bytes.Equal(out, blk) {
		x.Fail("C17", "block differs", "opening %s [%s]: block %s, the file has %s", path, dmg, hexs(out), hexs(blk))
	}
	if len(got.Accounts) != len(q.es) {
		x.Fail("C17", "accounts differ", "opening %s [%s]: %d accounts, the file has %d", path, dmg, len(got.Accounts), len(q.es))
	}
	for k, e := range q.es {
		c, ok := fromWire(got.Accounts[k].Account.Account)
		if !ok || got.Accounts[k].Address != e.a || c != e.c {
			x.Fail("C17", "accounts differ", "opening %s [%s]: account %d is %x %v, the file has %x %v", path, dmg, k, got.Accounts[k].Address, c, e.a, e.c)
		}
	}
	x.Count("profiles_opened")
	w.last, w.lb = got, q
}

func (w *genesisRun) compareConf(path, dmg string, c *genesis.Config, want *profConf, loose map[string]bool) {
	x := w.x
	if c == nil {
		x.Fail("C17", "no configuration", "opening %s [%s] gave no configuration", path, dmg)
	}
	diff := func(key string, got, want interface{}) {
		g, e := fmt.Sprintf("%q", got), fmt.Sprintf("%q", want)
		if g == e || loose[key] {
			return
		}
		x.Fail("C17", "configuration differs", "opening %s [%s]: %s is %s, the file says %s", path, dmg, key, g, e)
	}
	diff("network_id", int64(c.NetworkID), want.id)
	diff("name", c.Name, want.name)
	diff("seed_peers", append([]string{}, c.SeedPeers...), append([]string{}, want.peers...))
	diff("seed_lists", append([]string{}, c.SeedLists...), append([]string{}, want.lists...))
	diff("genesis_hash", c.GenesisHash[:], want.hash[:])
}

// init initialises a ledger from the last opened profile.
func (w *genesisRun) init(s *h.Step) {
	x := w.x
	if w.last == nil {
		return
	}
	if w.lb.block.Header.Height > maxHeight {
		return // the emission schedule is computed block by block
	}
	if s.Mod(0, 6) != 0 || w.accs == nil {
		w.accs = accounts.NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
		w.led = newLedger()
	}
	if s.Mod(0, 6) == 1 { // something is already there
		r := h.NewRand(s.UArg(1))
		var a addr
		r.Fill(a[:])
		if r.P(50) && len(w.lb.es) > 0 {
			a = w.lb.es[r.Intn(len(w.lb.es))].a
		}
		c := acct{value: 1 + r.U64()>>40}
		w.guard("put account", func() { w.accs.PutAccount(&a, c.toWire()) })
		w.led.set(a, c)
	}
	var err error
	w.guard("initialising accounts", func() { err = w.last.InitAccounts(w.accs) })
	for _, e := range w.lb.es {
		w.led.set(e.a, e.c)
	}
	v := w.led.push(w.lb.block)
	root := refRoot(w.led.entries())
	good := v.r == nil && root == w.lb.block.Header.AccountsHash
	x.Log("init: good %v, error %v", good, err != nil)
	x.State(h.HashBytes([]byte(fmt.Sprint(good, root))))
	x.Nontrivial()
	switch {
	case v.dontcare != "":
		if err == nil && w.accs.Tree.Hash() != w.lb.block.Header.AccountsHash {
			x.Fail("C17", "wrong root accepted", "initialising accepted root %x, the header has %x", w.accs.Tree.Hash(), w.lb.block.Header.AccountsHash)
		}
		w.accs = nil
		return
	case good && err != nil:
		x.Fail("C17", "valid profile refused", "initialising accounts: %v", err)
	case !good && err == nil:
		why := fmt.Sprintf("the root is %x, the header has %x", root, w.lb.block.Header.AccountsHash)
		if v.r != nil {
			why = v.r.why
		}
		x.Fail("C17", "damaged profile initialised", "initialising accounts succeeded although %s", why)
	}
	if err != nil {
		w.accs = nil
		x.Count("init_refused")
		return
	}
	x.Count("initialised")
	w.compare()
	var got [32]byte
	w.guard("state root", func() { got = w.accs.Tree.Hash() })
	if got != root {
		x.Fail("C17", "root differs", "after initialising the root is %x, expected %x", got, root)
	}
}

func (w *genesisRun) compare() {
	keys := make([]addr, 0, len(w.led.m))
	for k := range w.led.m {
		keys = append(keys, k)
	}
	for _, e := range w.lb.es {
		if _, ok := w.led.m[e.a]; !ok {
			keys = append(keys, e.a)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return string(keys[i][:]) < string(keys[j][:]) })
	for _, k := range keys {
		k := k
		var c acct
		var ok bool
		w.guard("lookup", func() { c, ok = fromWire(w.accs.GetAccount(&k)) })
		if !ok || c != w.led.m[k] {
			w.x.Fail("C17", "account differs", "after initialising %x is %v, expected %v", k, c, w.led.m[k])
		}
	}
}

type builtinProf struct {
	name         string
	id           uint8
	peers, lists int
	hash         string
	accounts     int
	first        string
}

var builtins = []builtinProf{
	{"main", 0, 20, 1, "264aaf8a4f9828a76c550635da078eb466306a189fcc03710bee9f649c869d12", 0, "wss://seed-1.nimiq.com:8443/b70d0c3e6cdf95485cac0688b086597a5139bc4237173023c83411331ef90507"},
	{"test", 1, 4, 0, "1fc28119e35b1418713218192012c7eda9e1d6d142ce8138a313366bd6068300", 0, "wss://seed1.nimiq-testnet.com:8080/175d5f01af8a5911c240a78df689a76eef782d793ca15d073bdc913edd07c74b"},
}

// builtin checks a profile that comes with the library.
func (w *genesisRun) builtin(s *h.Step) {
	x := w.x
	b := &builtins[s.Mod(0, 2)]
	w.d.sync()
	before := len(w.d.fs.Opened)
	var got *genesis.Profile
	var err error
	w.guard("opening "+b.name, func() { got, err = genesis.OpenProfile(b.name) })
	if err != nil || got == nil || got.Config == nil {
		x.Fail("C17", "built-in profile refused", "opening %s: %v", b.name, err)
	}
	if len(w.d.fs.Opened) != before {
		x.Fail("C17", "built-in profile read from disk", "opening %s read from the file system", b.name)
	}
	c := got.Config
	if c.NetworkID != b.id || c.Name != b.name || len(c.SeedPeers) != b.peers || len(c.SeedLists) != b.lists || hex.EncodeToString(c.GenesisHash[:]) != b.hash || c.SeedPeers[0] != b.first {
		x.Fail("C17", "built-in configuration differs", "%s: %s", b.name, show(*c))
	}
	for _, p := range append(append([]string(nil), c.SeedPeers...), c.SeedLists...) {
		if !strings.Contains(p, "://") || len(p) < 70 {
			x.Fail("C17", "built-in configuration differs", "%s: seed %q", b.name, p)
		}
	}
	if hh := refHash(refBlock(&got.Block)); hh != c.GenesisHash {
		x.Fail("C17", "genesis hash differs", "%s: the block's hash is %x, configured is %x", b.name, hh, c.GenesisHash)
	}
	w.last, w.lb = got, &prof{block: &got.Block}
	for _, a := range got.Accounts {
		ac, ok := fromWire(a.Account.Account)
		if !ok {
			x.Fail("C17", "built-in accounts differ", "%s: unknown account", b.name)
		}
		w.lb.es = append(w.lb.es, profEntry{a.Address, ac})
	}
	x.Count("builtin_" + b.name)
	if s.Mod(1, 3) == 0 { // damaged in memory
		if n := len(w.lb.es); n > 0 && w.lb.es[n/2].c.typ == 0 {
			v := w.lb.es[n/2].c.value + 1
			w.lb.es[n/2].c.value = v
			cc := w.lb.es[n/2].c
			got.Accounts[n/2].Account.Account = cc.toWire()
		}
	}
	w.init(&h.Step{A: []int64{2}})
}
