package scen

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"nimsim/h"
	"nimsim/simrt"
	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/genesis"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"
)

func init() {
	h.Register(&h.Scenario{Name: "ledger", Exec: execLedger, Budget: 80_000_000})
	real := []string{"accounts.Accounts", "wire accounts and transactions", "tree.PMTree", "tree.OverlayStore", "tree.MemStore", "beserial", "policy rewards", "genesis profiles (some runs)"}
	stub := []string{"durable node storage (simulated disk with commit groups, lost commits and failing accesses)", "the block producer"}
	faults := []string{"storage failure at any access of a push", "crash", "lost commit", "clock jump forwards and backwards", "refused block"}
	measure := "distinct state roots reached"
	rule := func(s string) string {
		return "A run is a seeded history of blocks on a seeded initial ledger: transactions of every kind with amounts, fees, proofs, types and prune lists at and around the limits of the rules, a chain clock that jumps to contract deadlines and back, storage failures and crashes during pushes, retries and reopens. Every push is compared with an independent reference ledger (verdict, every account, state root, sum). Non-trivial: " + s
	}
	reg := func(id string, quick, thorough int, g ledgerCfg, nt string, assume ...string) {
		h.RegisterCheck(&h.Check{Property: id, Quick: quick, Thorough: thorough, Gen: genLedger(g), Rule: rule(nt), Real: real, Stub: stub, Faults: faults, Measure: measure, Assume: assume})
	}
	reg("C05", 100000, 3500000, ledgerCfg{kinds: []int{18, 18, 12, 8, 8, 8, 14, 0}, bad: 45, fault: 35, prune: 35, nobody: 8}, "a block was refused after it had effects, or a storage failure or crash hit a push.",
		"the backend applies commit groups atomically and drops uncommitted writes in a crash")
	reg("C06", 40000, 1000000, ledgerCfg{kinds: []int{25, 20, 12, 8, 14, 4, 5, 0}, bad: 20, fault: 5, prune: 12, genesis: 1}, "at least two blocks with transactions were accepted.",
		"initial balances sum up to at most 2^62")
	reg("C07", 60000, 1000000, ledgerCfg{kinds: []int{22, 22, 10, 8, 10, 6, 14, 4}, bad: 25, fault: 3, prune: 20, nobody: 2, genesis: 1}, "at least two blocks with transactions were accepted.")
	reg("C08", 100000, 3500000, ledgerCfg{kinds: []int{6, 6, 22, 2, 34, 10, 3, 0}, bad: 12, fault: 3, prune: 8, contracts: 60, direct: 25, times: 30}, "a vesting contract was created or asked to pay.")
	reg("C09", 100000, 3000000, ledgerCfg{kinds: []int{6, 6, 2, 22, 34, 22, 3, 0}, bad: 12, fault: 3, prune: 8, contracts: 60, direct: 25, times: 30, htlc: true}, "a hashed time-lock contract was created or asked to pay.",
		"the pre-image in a proof is not compared with the hash root by the code (see C23)")
	reg("C10", 90000, 2400000, ledgerCfg{kinds: []int{8, 10, 10, 10, 40, 3, 4, 0}, bad: 8, fault: 4, prune: 45, contracts: 70, emptying: true}, "a block emptied a contract or declared a prune.")
}

type ledgerCfg struct {
	kinds     []int
	bad       int // percent of extreme amounts
	fault     int // percent of runs with storage faults
	prune     int // percent of pushes with another than the exact prune list
	nobody    int
	genesis   int
	contracts int // percent of runs that start with contracts
	direct    int
	times     int
	emptying  bool
	htlc      bool
}

func genLedger(c ledgerCfg) func(r *h.Rand, tier string, idx int) *h.Plan {
	return func(r *h.Rand, tier string, idx int) *h.Plan {
		p := &h.Plan{Scenario: "ledger", Cfg: map[string]int64{}}
		p.Cfg["world"] = int64(r.Intn(1 << 30))
		p.Cfg["actors"] = int64(1 + r.Intn(6))
		p.Cfg["slots"] = int64(1 + r.Intn(4))
		if r.P(c.genesis) {
			p.Cfg["genesis"] = int64(1 + r.Intn(2))
			p.Cfg["disk"] = 1
		}
		if r.P(c.contracts) || r.P(25) {
			p.Cfg["contracts"] = int64(1 + r.Intn(4))
		}
		faulty := r.P(c.fault)
		if faulty || r.P(40) {
			p.Cfg["disk"] = 1
		}
		if r.P(25) {
			p.Cfg["codec"] = 1
		}
		if c.htlc {
			p.Cfg["htlc"] = 1
		}
		if idx%4000 == 1111 && c.genesis > 0 {
			// Where the emission reaches its tail and where it ends.
			p.Cfg["high"] = []int64{48_692_956, 52_888_980}[r.Intn(2)] + int64(r.Intn(4))
			p.Cfg["genesis"] = 0
		}
		if r.P(60) {
			p.Cfg["vary"] = 1
		}
		if idx%150 == 99 {
			p.Cfg["top"] = int64(1) << uint(19+r.Intn(4))
			if idx%3000 == 99 {
				p.Cfg["top"] = int64(1) << uint(22+r.Intn(5))
			}
		}
		crowd := idx%1500 == 77 || c.emptying && idx%200 == 77
		few := !crowd && idx%40 == 7
		if few {
			p.Cfg["crowd"] = 1 + int64(r.Intn(8<<uint(r.Intn(4))))
		}
		if crowd {
			p.Cfg["crowd"] = 1 + int64(r.Intn(520))
			if r.P(60) {
				p.Cfg["crowd"] = 254 + int64(r.Intn(5))
			}
		}
		blocks := 1 + r.Intn(6)
		if r.P(10) {
			blocks = 6 + r.Intn(14)
		}
		if idx%1300 == 500 {
			blocks = 40 + r.Intn(160)
		}
		bad := c.bad
		if r.P(30) {
			bad = 0
		} // calm runs get far
		// Transactions that are only included if the block stays acceptable.
		good := []int{0, 50, 90, 100, 100}[r.Intn(5)]
		for i := 0; i < blocks; i++ {
			if r.P(15 + c.times) {
				p.Add("time", int64(r.Intn(6)), int64(r.Intn(1<<16)), int64(r.Intn(5)-2), int64(r.Intn(12)))
			}
			n := r.Geo(2 + good/30)
			if r.P(5) {
				n = 6 + r.Intn(8)
			}
			for j := 0; j < n; j++ {
				w := append([]int(nil), c.kinds...)
				if bad == 0 {
					w[5], w[6] = 0, 0
				}
				am := []int64{0, 0, 1, 1, 2, 2, 6, 6, 9, 9, 9}[r.Intn(11)]
				fm := int64(r.Intn(5))
				if r.P(bad) {
					am = int64(r.Intn(11))
					if r.P(40) {
						fm = int64(r.Intn(10))
					}
				}
				k := r.Weighted(w)
				if k >= 4 && k <= 5 && r.P(60) {
					am = int64(11 + r.Intn(5))
					if c.emptying && r.P(70) {
						am = 14
					}
				}
				variant := int64(r.Intn(6))
				if r.P(bad) {
					variant = int64(r.Intn(12))
				}
				if k == 5 {
					variant = int64(r.Intn(12))
				}
				extra := int64(r.Intn(64))
				op := "tx"
				if r.P(good) {
					op = "good"
				}
				p.Add(op, int64(k), int64(r.Intn(1<<10)), int64(r.Intn(64)), am, fm, variant, int64(r.Intn(1<<31)), extra)
			}
			if crowd && r.P(50) {
				kind := int64(r.Intn(4))
				if c.emptying && r.P(60) {
					kind = 1
				}
				p.Add("bulk", kind, []int64{0, 1, 255, 256, 300, 600, 1200}[r.Intn(7)], int64(r.Intn(1<<20)))
			}
			if few && r.P(60) {
				p.Add("bulk", int64(r.Intn(4)), int64(1+r.Intn(6<<uint(r.Intn(6)))), int64(r.Intn(1<<20)))
			}
			if r.P(c.direct) {
				p.Add("direct", int64(r.Intn(1<<30)), int64(1+r.Intn(4)))
			}
			prune, fa, fo, body := int64(0), int64(0), int64(0), int64(0)
			if r.P(c.prune) && (bad > 0 || r.P(30)) {
				prune = int64(1 + r.Intn(10))
			}
			if crowd && c.emptying && r.P(50) {
				prune = int64(1 + r.Intn(10)) // one wrong among very many
			}
			if faulty && r.P(60) {
				fa, fo = int64(1+r.Geo(25)), int64(r.Intn(2))
			}
			if r.P(c.nobody) {
				body = int64(1 + r.Intn(4))
			}
			p.Add("push", int64(r.Intn(1<<12)), prune, fa, fo, body, int64(r.Intn(1<<16)))
			if p.Cfg["disk"] == 1 && r.P(8) {
				p.Add("crash", int64(r.Intn(3)))
			}
			if r.P(4) {
				p.Add("reopen")
			}
			for n := r.Intn(6); n > 0 && p.Cfg["high"] > 0; n-- {
				// Blocks that pay next to nothing, to anyone.
				p.Add("push", int64(r.Intn(1<<8)*16), 0, 0, 0, 0, int64(r.Intn(1<<16)))
			}
		}
		return p
	}
}

type ledgerRun struct {
	x        *h.Ctx
	w        *world
	disk     *simDisk
	store    tree.Store
	accs     *accounts.Accounts
	hist     []ledgerPoint // per disk commit
	sum      *big.Int      // of the real accounts
	accepted int
	fallout  int
	concern  map[string]bool
	genesis  uint32
	crowd    []addr
}

type ledgerPoint struct {
	led    *ledger
	height uint32
}

func execLedger(x *h.Ctx, p *h.Plan) {
	l := &ledgerRun{x: x, concern: map[string]bool{}}
	l.w = newWorld(uint64(p.Cfg["world"]), int(p.Cfg["actors"]%16), int(p.Cfg["slots"]%16))
	w := l.w
	w.vary = p.Cfg["vary"] == 1
	if t := p.Cfg["top"]; t > maxHeight && t <= 1<<27 {
		w.top = uint32(t)
		simrt.Rearm(4_000_000_000)
	}
	if p.Cfg["disk"] == 1 || p.Cfg["genesis"] != 0 {
		l.disk = newSimDisk()
		l.store = l.disk
	} else {
		l.store = tree.NewMemStore()
	}
	l.accs = accounts.NewAccounts(&tree.PMTree{Store: l.store})
	r := h.NewRand(uint64(p.Cfg["world"]) + 99)
	if g := p.Cfg["genesis"]; g != 0 {
		l.startGenesis([]string{genesis.ProfileMain, genesis.ProfileTest}[g%2])
	} else {
		budget := []uint64{1000, 1 << 40, 1 << 62, 252_000_000_000_000, 1 << uint(10+r.Intn(53))}[r.Intn(5)]
		w.fund(r, budget, int(p.Cfg["contracts"]))
		if p.Cfg["htlc"] == 1 {
			for k, c := range w.led.m {
				if c.typ == 1 && c.total%3 != 0 {
					c.typ, c.alg, c.hashCount, c.step, c.stepAmt, c.b = 2, 1, 1, 0, 0, w.actors[0].addr
					w.led.set(k, c)
				}
			}
		}
		for _, k := range w.universe() {
			if c, ok := w.led.m[k]; ok {
				k := k
				l.call("put account", func() { l.accs.PutAccount(&k, c.toWire()) })
			}
		}
		if s := w.led.sum(); s.Cmp(new(big.Int).Lsh(big.NewInt(1), 63)) > 0 {
			panic("initial balances too large")
		}
	}
	l.gather(int(p.Cfg["crowd"] % 1000))
	if g := p.Cfg["high"]; g > 0 {
		w.height, w.top = uint32(g), uint32(g)+maxHeight
		simrt.Rearm(4_000_000_000)
		x.Count("high_chain")
	}
	if l.disk != nil {
		l.disk.commit()
		l.disk.sync()
	}
	l.hist = []ledgerPoint{{w.led.clone(), w.height}}
	l.sum = l.realSum()
	l.compare("initially", "C07", nil)
	for i := range p.Steps {
		s := &p.Steps[i]
		x.CurStep = i
		x.Count("op." + s.Op)
		switch s.Op {
		case "time":
			if len(w.txs) > 0 {
				continue
			}
			before := w.now()
			w.setTime(s)
			if w.now() < before {
				x.Count("fault.clock_jump_back")
			} else if w.now() > before+1 {
				x.Count("fault.clock_jump")
			}
		case "tx", "good":
			if s.Op == "tx" {
				w.addTx(s)
			} else if !w.addGood(s) {
				x.Count("unacceptable_tx_left_out")
				continue
			}
			x.Count(fmt.Sprintf("op.tx_kind_%d", s.Mod(tKind, 8)))
		case "bulk":
			l.bulk(s)
		case "push":
			l.push(s, p)
		case "direct":
			l.direct(s)
		case "crash":
			if l.disk != nil {
				l.crash(s.Mod(0, 8))
			}
		case "reopen":
			l.accs = accounts.NewAccounts(&tree.PMTree{Store: l.store})
			x.Count("fault.reopen")
		}
	}
	nontrivial := l.accepted >= 2
	switch {
	case x.Is("C05"):
		nontrivial = l.fallout > 0
	case x.Is("C08 C09 C10"):
		nontrivial = l.concern[x.Prop]
	}
	if nontrivial {
		x.Nontrivial()
	}
}

// call runs repository code that must not panic.
func (l *ledgerRun) call(what string, f func()) {
	if pi := h.Catch(f); pi != nil {
		if !pi.Repo {
			panic(pi.Val)
		}
		l.x.Fail("C05 C07", pi.Class(), "%s: %s", what, pi)
	}
}

func (l *ledgerRun) startGenesis(name string) {
	w := l.w
	var prof *genesis.Profile
	var err error
	l.call("genesis", func() {
		if prof, err = genesis.OpenProfile(name); err == nil {
			err = prof.InitAccounts(l.accs)
		}
	})
	if err != nil {
		l.x.Fail("C07 C17", "genesis refused", "genesis profile %s: %v", name, err)
	}
	for _, a := range prof.Accounts {
		c, ok := fromWire(a.Account.Account)
		if !ok {
			l.x.Fail("C07 C17", "genesis account", "unknown account in %s", name)
		}
		w.led.set(a.Address, c)
	}
	if v := w.led.push(&prof.Block); v.r != nil {
		l.x.Fail("C07 C17", "genesis block", "genesis block of %s is invalid: %s", name, v.r.why)
	}
	w.height = 1
	l.genesis = 1
	// Give the actors some of the coins held by others: take over addresses.
	i := 0
	for _, a := range prof.Accounts {
		if i >= len(w.actors) {
			break
		}
		if c := w.led.m[a.Address]; c.typ == 0 && c.value > 0 {
			w.actors[i].addr = a.Address
			w.actors[i].multi = true // only extended transactions: the key is unknown
			i++
		}
	}
}

// realSum adds up what the code under test says the accounts hold.
func (l *ledgerRun) realSum() *big.Int {
	s := new(big.Int)
	if l.disk != nil {
		for _, b := range l.disk.data {
			if leaf, ok := decodeNode(b).(*tree.Leaf); ok {
				if c, ok := decAcct(leaf.Value); ok {
					s.Add(s, new(big.Int).SetUint64(c.value))
				}
			}
		}
		return s
	}
	for _, k := range l.keys(nil) {
		k := k
		l.call("lookup", func() { s.Add(s, new(big.Int).SetUint64(l.accs.GetAccount(&k).Balance())) })
	}
	return s
}

func (l *ledgerRun) keys(touched map[addr]bool) []addr {
	ks := l.keySet(touched)
	out := make([]addr, 0, len(ks))
	for k := range ks {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return string(out[i][:]) < string(out[j][:]) })
	return out
}

func (l *ledgerRun) keySet(touched map[addr]bool) map[addr]bool {
	ks := map[addr]bool{}
	for _, k := range l.w.universe() {
		ks[k] = true
	}
	if len(l.w.led.m) < 500 || l.disk == nil {
		for k := range l.w.led.m {
			ks[k] = true
		}
	}
	for k := range touched {
		ks[k] = true
	}
	return ks
}

// compare checks every account and the root against the reference.
func (l *ledgerRun) compare(when, props string, touched map[addr]bool) {
	x, w := l.x, l.w
	for _, k := range l.keys(touched) {
		k := k
		want := w.led.m[k]
		var got acct
		known := false
		l.call("lookup", func() { got, known = fromWire(l.accs.GetAccount(&k)) })
		if !known {
			x.Fail(props, "unknown account", "%s: account %x has an unknown type", when, k[:4])
		}
		if got != want {
			pr := props
			if got.value != want.value || got.typ != want.typ {
				if s := l.realSum(); s.Cmp(w.led.sum()) != 0 {
					pr += " C06"
				}
			}
			for _, t := range []uint8{got.typ, want.typ} {
				if t == 1 {
					pr += " C08"
				} else if t == 2 {
					pr += " C09"
				}
			}
			_, exists := w.led.m[k]
			if got.typ != 0 && got.value == 0 && !exists || got == (acct{}) && exists {
				pr += " C10"
			}
			x.Fail(pr, "wrong account", "%s: account %x is %s, expected %s", when, k[:4], got, want)
		}
	}
	var root [32]byte
	l.call("root", func() { root = l.accs.Tree.Hash() })
	want := refRoot(w.led.entries())
	x.State(h.HashBytes(want[:]))
	x.Note(root[:])
	if root != want {
		x.Fail(props+" C10 C01", "wrong state root", "%s: state root is %x, expected %x", when, root[:6], want[:6])
	}
	if l.disk != nil {
		// Exactly the expected entries are stored: no leftovers.
		n := 0
		for _, b := range l.disk.data {
			if leaf, ok := decodeNode(b).(*tree.Leaf); ok {
				n++
				if c, ok := decAcct(leaf.Value); !ok || c.typ == 0 && c.value == 0 {
					x.Fail(props+" C10", "empty account stored", "%s: the state stores the entry %x", when, leaf.Value)
				}
			}
		}
		if n != len(w.led.m) {
			x.Fail(props+" C10 C06", "leftover entries", "%s: %d entries are stored, expected %d", when, n, len(w.led.m))
		}
	}
}

func (c acct) String() string {
	switch c.typ {
	case 0:
		return fmt.Sprintf("basic(%d)", c.value)
	case 1:
		return fmt.Sprintf("vesting(%d owner %x start %d step %d x %d total %d)", c.value, c.a[:3], c.start, c.step, c.stepAmt, c.total)
	default:
		return fmt.Sprintf("htlc(%d %x->%x alg %d hash %x count %d timeout %d total %d)", c.value, c.a[:3], c.b[:3], c.alg, c.hash[:3], c.hashCount, c.start, c.total)
	}
}

func describe(b *wire.Block) string {
	if b.Body == nil {
		return fmt.Sprintf("block %d without body", b.Header.Height)
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "block %d miner %x", b.Header.Height, b.Body.MinerAddr[:3])
	for _, t := range b.Body.Txs {
		if t.Tx == nil {
			sb.WriteString("; no transaction")
			continue
		}
		c := contentOf(t.Tx)
		fmt.Fprintf(&sb, "; %x/%d->%x/%d %d+%d", c.sender[:3], c.st, c.recipient[:3], c.rt, c.value, c.fee)
		if c.creation {
			sb.WriteString(" create")
		}
	}
	for _, p := range b.Body.Pruned {
		fmt.Fprintf(&sb, "; prune %x", p.Address[:3])
	}
	return sb.String()
}

// holes tells whether a block has places without content, which have no encoding.
func holes(b *wire.Block) bool {
	for i := range b.Body.Txs {
		if b.Body.Txs[i].Tx == nil {
			return true
		}
	}
	for i := range b.Body.Pruned {
		if b.Body.Pruned[i].Account.Account == nil {
			return true
		}
	}
	return false
}

// mutatePrunes declares another than the exact prune list.
func (l *ledgerRun) mutatePrunes(mode int, exact []wire.AccountPruned, r *h.Rand) []wire.AccountPruned {
	w := l.w
	out := append([]wire.AccountPruned(nil), exact...)
	extra := func(k addr, c acct) {
		out = append(out, wire.AccountPruned{Address: k, Account: wire.WrapAccount{Account: c.toWire()}})
	}
	switch mode {
	case 1:
		if len(out) > 0 {
			i := r.Intn(len(out))
			out = append(out[:i:i], out[i+1:]...)
		}
	case 2: // not emptied at all
		cs := w.contracts(w.led)
		if len(cs) > 0 {
			k := cs[r.Intn(len(cs))]
			c := w.led.m[k]
			if r.P(50) {
				c.value = 0
			}
			extra(k, c)
		} else {
			extra(w.address(r.Intn(20)), acct{})
		}
	case 3, 4: // altered content
		if len(out) > 0 {
			i := r.Intn(len(out))
			c, _ := fromWire(out[i].Account.Account)
			if c.typ == 1 {
				switch r.Intn(7) {
				case 0:
					c.value++
				case 1:
					c.a[r.Intn(20)] ^= 1
				case 2:
					c.start++
				case 3:
					c.step++
				case 4:
					c.stepAmt++
				case 5:
					c.total++
				case 6:
					c = acct{}
				}
			} else {
				switch r.Intn(9) {
				case 0:
					c.value++
				case 1:
					c.a[r.Intn(20)] ^= 1
				case 2:
					c.b[r.Intn(20)] ^= 1
				case 3:
					c.alg++
				case 4:
					c.hash[r.Intn(32)] ^= 1
				case 5:
					c.hashCount++
				case 6:
					c.start++
				case 7:
					c.total++
				case 8:
					c.typ = 1
				}
			}
			out[i].Account.Account = c.toWire()
		}
	case 5: // other order
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	case 6: // an ordinary or unknown address
		extra(w.address(r.Intn(20)), acct{})
	case 8, 9: // listed twice
		if len(out) > 0 {
			i := r.Intn(len(out))
			e := out[i]
			if mode == 9 { // with different content, the right one in front or behind
				c, _ := fromWire(e.Account.Account)
				c.value += uint64(r.Intn(2))
				c.total++
				e.Account.Account = c.toWire()
			}
			at := r.Intn(len(out) + 1)
			out = append(append(append([]wire.AccountPruned(nil), out[:at]...), e), out[at:]...)
		}
	case 10: // an entry without an account
		if len(out) == 0 || r.P(30) {
			out = append(out, wire.AccountPruned{Address: w.address(r.Intn(20))})
		} else {
			out[r.Intn(len(out))].Account.Account = nil
		}
	case 7: // right content, wrong address
		if len(out) > 0 {
			out[r.Intn(len(out))].Address[r.Intn(20)] ^= 1
		}
	}
	return out
}

func (l *ledgerRun) push(s *h.Step, p *h.Plan) {
	x, w := l.x, l.w
	r := h.NewRand(s.UArg(5) + 5)
	b := w.block(w.miner(s.UArg(0)))
	if w.vary {
		w.varyHeader(r, b)
	}
	exact := w.neededPrunes(b)
	if len(exact) > 0 && s.UArg(5)%8 == 0 {
		b.Body.MinerAddr = exact[0].Address // paid where a contract has just been removed
		x.Count("miner_at_pruned_address")
	}
	b.Body.Pruned = l.mutatePrunes(s.Mod(1, 11), exact, r)
	if len(exact) > 0 {
		l.concern["C10"] = true
		x.Count("prunes_needed")
	}
	switch s.Mod(4, 5) {
	case 4: // a hole in the list of transactions
		i := r.Intn(len(b.Body.Txs) + 1)
		txs := append(append(append([]wire.WrapTx(nil), b.Body.Txs[:i]...), wire.WrapTx{}), b.Body.Txs[i:]...)
		b.Body.Txs = txs
		x.Count("missing_transaction")
	case 1:
		b.Body = nil
	case 2:
		b.Header.Height = 0
	case 3:
		b.Body.ExtraData = r.Bytes(r.Intn(60))
	}
	if p.Cfg["codec"] == 1 && b.Body != nil && !holes(b) {
		b = l.transmit(b)
	}
	desc := describe(b)

	w.led.begin()
	v := w.led.push(b)
	if v.dontcare != "" {
		w.led.rollback()
		x.Count("skipped_" + strings.ReplaceAll(v.dontcare, " ", "_"))
		w.clock = 0
		return
	}
	for _, f := range strings.Fields(v.features) {
		l.concern[f] = true
	}
	if b.Body != nil && len(b.Body.Pruned) > 0 {
		l.concern["C10"] = true
	}
	// A storage failure may end the push.
	if l.disk != nil && s.Arg(2) > 0 {
		l.disk.failAt = s.Mod(2, 4096)
		l.disk.failOn = s.Mod(3, 2)
		err, fault := l.tryPush(b, desc, v.features)
		if fault {
			w.led.rollback()
			l.fallout++
			if l.disk.dirty {
				x.Count("crash_with_partial_writes")
			}
			x.Count("fault.storage_failure_during_push")
			x.Count("fault.crash")
			l.disk.crash(0)
			if s.UArg(5)%3 != 0 { // otherwise the process lives on
				l.accs = accounts.NewAccounts(&tree.PMTree{Store: l.store})
			}
			x.Log("%s: storage failure", desc)
			l.compare("after a storage failure during the push of "+desc, "C05 C03", v.touched)
			// Try again on the recovered state.
			w.led.begin()
			v = w.led.push(b)
			err, _ = l.tryPush(b, desc, v.features)
		}
		l.disk.failAt = 0
		l.judge(b, desc, &v, err)
		return
	}
	var twin *accounts.Accounts
	if s.UArg(5)%16 == 3 && len(w.led.m) < 500 {
		twin = l.twin()
	}
	err, _ := l.tryPush(b, desc, v.features)
	l.judge(b, desc, &v, err)
	if err != nil && s.UArg(5)%4 == 1 {
		// The same block once more.
		var again error
		l.call("push", func() { again = l.accs.Push(b) })
		if again == nil {
			x.Fail(v.r.props+v.features, "accepted the second time: "+v.r.why, "%s was refused and then accepted, but: %s", desc, v.r.why)
		}
		l.compare("after refusing twice "+desc, "C05", v.touched)
		x.Count("refused_twice")
	}
	if twin != nil {
		// The outcome depends on nothing but the state before and the block.
		var other error
		var root, want [32]byte
		l.call("push", func() { other, root, want = twin.Push(b), twin.Tree.Hash(), l.accs.Tree.Hash() })
		if (other == nil) != (err == nil) {
			x.Fail("C07 C11"+v.features, "other verdict on the same block", "%s: %v, and by a second ledger with the same state: %v", desc, err, other)
		}
		if root != want {
			x.Fail("C07 C11"+v.features, "other state after the same block", "after %s two ledgers that held the same state have the roots %x and %x", desc, want[:6], root[:6])
		}
		x.Count("second_ledger")
	}
}

// twin is another ledger with the state the open group of changes started from.
func (l *ledgerRun) twin() *accounts.Accounts {
	now := l.w.led
	a := accounts.NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
	pre := now.before()
	for _, k := range pre.keys() {
		k, c := k, pre.m[k]
		l.call("put account", func() { a.PutAccount(&k, c.toWire()) })
	}
	return a
}

// gather adds a crowd of contracts that can be emptied at any time.
func (l *ledgerRun) gather(n int) {
	r := h.NewRand(l.w.seed + 1234)
	if n > 0 {
		l.genesis = 0 // more coins than the chain started with
	}
	for i := 0; i < n; i++ {
		var k addr
		r.Fill(k[:])
		c := acct{typ: 1, value: uint64(1 + r.Intn(3)), a: l.w.actors[r.Intn(len(l.w.actors))].addr}
		if l.w.vary && r.P(50) {
			c.typ, c.b, c.alg, c.hashCount = 2, l.w.actors[r.Intn(len(l.w.actors))].addr, 1, 1
			r.Fill(c.hash[:])
			c.start = l.w.now() + uint32(r.Intn(20))
		}
		l.w.led.set(k, c)
		l.crowd = append(l.crowd, k)
		l.call("put account", func() { l.accs.PutAccount(&k, c.toWire()) })
	}
}

// bulk adds many transactions to the pending block.
func (l *ledgerRun) bulk(s *h.Step) {
	w := l.w
	r := h.NewRand(s.UArg(2) + 17)
	n, old := s.Mod(1, 2000), len(w.txs)
	w.ensurePeek()
	if kind := s.Mod(0, 4); kind != 1 {
		rich := w.rich(w.peek)
		for i := 0; i < n && len(rich) > 0; i++ {
			from := rich[r.Intn(len(rich))]
			to := w.actors[r.Intn(len(w.actors))].addr
			if kind >= 2 {
				r.Fill(to[:]) // one account more
			}
			t := &wire.ExtendedTx{Sender: from, Recipient: to, Value: 1,
				ValidityStartHeight: w.now(), NetworkID: 4, Proof: append([]byte(nil), w.actorOf(from).proof...)}
			if kind == 3 && r.P(80) {
				t.Flags, t.RecipientType = wire.TxFlagContractCreation, uint8(1+r.Intn(2))
				if owner := w.actors[r.Intn(len(w.actors))].addr; t.RecipientType == 1 {
					t.Data = w.vestingData(r, owner, 1, r.Intn(4))
				} else {
					t.Data = w.htlcData(r, from, owner, 0)
				}
			}
			w.txs = append(w.txs, wire.WrapTx{Tx: t})
		}
	} else {
		for _, k := range l.crowd {
			c := w.peek.m[k]
			if c.typ == 0 || n == 0 {
				continue
			}
			n--
			proof := append([]byte(nil), w.actorOf(c.a).proof...)
			if c.typ == 2 {
				proof = w.contractProof(r, &c, 0, r.Intn(8))
			}
			w.txs = append(w.txs, wire.WrapTx{Tx: &wire.ExtendedTx{Sender: k, SenderType: c.typ, Recipient: w.actors[0].addr, Value: c.value,
				ValidityStartHeight: w.now(), NetworkID: 4, Proof: proof}})
		}
	}
	for i := old; i < len(w.txs); i++ {
		c := contentOf(w.txs[i].Tx)
		if n, ref := w.peek.m[c.sender].spend(&c, w.now()); ref == nil {
			w.peek.set(c.sender, n)
		}
	}
	l.x.Count("bulk_transactions")
}

func (l *ledgerRun) tryPush(b *wire.Block, desc, features string) (err error, fault bool) {
	before := 0
	if l.disk != nil {
		before = l.disk.fired
	}
	pi := h.Catch(func() {
		if err = l.accs.Push(b); err != nil {
			_ = err.Error() // whoever pushes will want to say why
		}
	})
	// The failure may come back as a panic or be reported as an error.
	if (pi != nil || err != nil) && l.disk != nil && l.disk.fired > before {
		return nil, true
	}
	if pi == nil {
		return err, false
	}
	if !pi.Repo {
		panic(pi.Val)
	}
	l.x.Fail("C05 C07"+features, pi.Class(), "push of %s: %s", desc, pi)
	return nil, false
}

// judge compares the outcome of a push with the reference, whose changes are
// still in an open group.
func (l *ledgerRun) judge(b *wire.Block, desc string, v *verdict, err error) {
	x, w := l.x, l.w
	if err == nil && v.r != nil {
		x.Fail(v.r.props+v.features, "accepted: "+v.r.why, "%s was accepted, but: %s", desc, v.r.why)
	}
	if err != nil && v.r == nil {
		x.Fail("C07"+v.features, "valid block refused", "%s was refused: %v", desc, err)
	}
	if err != nil {
		w.led.rollback()
		l.fallout++
		x.Count("refused")
		x.Count("refused: " + v.r.why)
		x.Log("%s: refused (%s)", desc, v.r.why)
		l.compare("after refusing "+desc, "C05", v.touched)
		w.clock = 0
		return
	}
	w.led.keep()
	x.Log("%s: accepted", desc)
	x.Count("accepted")
	if n := len(b.Body.Txs); n > 0 {
		l.accepted++
		x.CountN("accepted_txs", n)
	}
	reward := new(big.Int).SetUint64(refReward(b.Header.Height))
	want := new(big.Int).Add(l.sum, reward)
	now := l.realSum()
	if now.Cmp(want) != 0 {
		x.Fail("C06 C07"+v.features, "coins not conserved", "%s changed the sum of all balances by %s, the reward is %s", desc, new(big.Int).Sub(now, l.sum), reward)
	}
	l.sum = now
	if l.genesis != 0 && b.Header.Height == l.genesis+1 {
		l.genesis++
		if s := new(big.Int).SetUint64(refSupply(l.genesis)); now.Cmp(s) != 0 {
			x.Fail("C06", "wrong total supply", "after %s all accounts hold %s, the supply is %s", desc, now, s)
		}
		x.Count("supply_compared_from_genesis")
	} else {
		l.genesis = 0
	}
	x.Sim(60_000)
	if b.Header.Height > w.height {
		x.Sim(60_000 * float64(b.Header.Height-w.height-1))
	}
	w.height = b.Header.Height
	w.clock = 0
	l.compare("after accepting "+desc, "C05 C07"+v.features, v.touched)
	if l.disk != nil {
		l.disk.commit()
		l.hist = append(l.hist, ledgerPoint{w.led.clone(), w.height})
	}
}

func (l *ledgerRun) crash(lose int) {
	x, w := l.x, l.w
	n := l.disk.crash(lose)
	x.Count("fault.crash")
	x.CountN("fault.lost_commit", n)
	l.fallout++
	l.hist = l.hist[:len(l.hist)-n]
	pt := l.hist[len(l.hist)-1]
	w.led, w.height = pt.led.clone(), pt.height
	w.clock, w.txs, w.peek = 0, nil, nil
	l.genesis = 0
	l.accs = accounts.NewAccounts(&tree.PMTree{Store: l.store})
	l.sum = l.realSum()
	x.Log("crash losing %d blocks", n)
	l.compare("after a crash", "C05 C03", nil)
}

// transmit passes a block through the codec.
func (l *ledgerRun) transmit(b *wire.Block) *wire.Block {
	out := new(wire.Block)
	var err error
	l.call("codec", func() {
		var buf []byte
		if buf, err = beserial.Marshal(nil, b); err == nil {
			err = beserial.UnmarshalFull(buf, out)
		}
	})
	if err != nil {
		l.x.Fail("C12 C13", "block does not survive the codec", "%s: %v", describe(b), err)
	}
	return out
}

// direct lets a lone contract pay again and again at arbitrary heights.
func (l *ledgerRun) direct(s *h.Step) {
	x, w := l.x, l.w
	r := h.NewRand(s.UArg(0) + 3)
	c := w.randContract(r, []uint64{0, 1, 1000, 1 << 40, 1<<64 - 1}[r.Intn(5)]+uint64(r.Intn(2)))
	if x.Is("C08") {
		for c.typ != 1 {
			c = w.randContract(r, 1+uint64(r.Intn(1000)))
		}
	} else if x.Is("C09") {
		for c.typ != 2 {
			c = w.randContract(r, 1+uint64(r.Intn(1000)))
		}
	}
	// Anything goes here, up to the last height there is.
	word := func() uint32 {
		switch r.Intn(5) {
		case 4:
			return mag32(r)
		case 0:
			return uint32(r.Intn(20))
		case 1:
			return uint32(0xffffffff) - uint32(r.Intn(20))
		case 2:
			return uint32(1)<<31 - 5 + uint32(r.Intn(10))
		}
		return uint32(r.U64())
	}
	long := func() uint64 {
		switch r.Intn(7) {
		case 6:
			return mag(r)
		case 0:
			return uint64(r.Intn(20))
		case 1:
			return ^uint64(0) - uint64(r.Intn(20))
		case 2:
			return r.U64()
		case 3:
			return 1<<63 - 3 + uint64(r.Intn(6))
		case 4:
			return 1<<32 - 3 + uint64(r.Intn(6))
		}
		return c.value/uint64(1+r.Intn(4)) + uint64(r.Intn(3))
	}
	if r.P(60) {
		c.start, c.value, c.total = word(), long(), long()
		if c.typ == 1 {
			c.step, c.stepAmt = word(), long()
		}
	}
	props := "C08"
	if c.typ == 2 {
		props = "C09"
	}
	l.concern[props] = true
	for i := 0; i < s.Mod(1, 8); i++ {
		height := word()
		switch r.Intn(3) {
		case 0:
			height = c.start + uint32(r.Intn(5)) - 2
		case 1:
			height = c.start + c.step*uint32(r.Intn(8)) + uint32(r.Intn(3)) - 1
		}
		if height == 0 {
			height = 1
		}
		w.clock = height
		f := []uint64{0, 0, 1, long()}[r.Intn(4)]
		v := long()
		if lk := c.locked(height); c.typ == 1 && r.P(70) && lk <= c.value {
			v = c.value - lk - f + uint64(r.Intn(3)) - 1
		} else if r.P(50) {
			v = c.value - f
		}
		if v == 0 && f == 0 {
			continue
		}
		bad := 0
		if r.P(25) {
			bad = 1 + r.Intn(12)
		}
		tx := &wire.ExtendedTx{SenderType: c.typ, Value: v, Fee: f, Proof: w.contractProof(r, &c, bad, r.Intn(8))}
		ct := contentOf(tx)
		want, ref := c.spend(&ct, height)
		var got wire.Account
		var err error
		acc := c.toWire()
		if pi := h.Catch(func() { got, err = acc.ApplyOutgoingTx(tx, height) }); pi != nil {
			if !pi.Repo {
				panic(pi.Val)
			}
			x.Fail("C05 "+props, pi.Class(), "payment of %d+%d at %d from %s: %s", v, f, height, c, pi)
		}
		x.Count("direct_payments")
		if err == nil && ref != nil {
			x.Fail(ref.props, "accepted: "+ref.why, "payment of %d+%d at height %d from %s was accepted, but: %s", v, f, height, c, ref.why)
		}
		if err != nil && ref == nil {
			x.Fail("C07 "+props, "valid payment refused", "payment of %d+%d at height %d from %s was refused: %v", v, f, height, c, err)
		}
		if err != nil {
			continue
		}
		g, _ := fromWire(got)
		if g != want {
			x.Fail("C07 "+props, "wrong account", "after a payment of %d+%d at height %d from %s it is %s, expected %s", v, f, height, c, g, want)
		}
		c = want
		x.Count("direct_accepted")
	}
	w.clock = 0
}
