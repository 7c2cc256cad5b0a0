package scen

import (
	"encoding/hex"
	"sort"

	"nimsim/h"
	"nimsim/simrt"
	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"
)

// The locality scenario: a tree with hundreds of entries on storage that counts
// accesses. What an operation costs may depend on the length of the paths it
// touches, never on how much else the tree holds, on what is pending in overlays,
// or on what happened before: crashes, failed accesses, discarded layers.

func init() {
	h.Register(&h.Scenario{Name: "local", Exec: execLocal, Budget: 400_000_000})
	h.RegisterCheck(&h.Check{Property: "C26", Quick: 6000, Thorough: 250000, Gen: genLocal,
		Rule:    "A run fills a tree with 100 to 3000 entries and then puts, deletes, looks up, commits blocks, flushes and discards overlays, crashes and reopens; non-trivial if at least ten operations were judged on 100 entries or more.",
		Real:    []string{"tree", "accounts", "wire accounts and transactions", "policy"},
		Stub:    []string{"node storage (counts accesses; simulated disk with crashes and failing accesses or MemStore)", "time (statements executed are counted)"},
		Measure: "distinct (operation, depth of the tree, magnitude of its size, layers, storage accesses)",
		Assume:  []string{"heights are small, so that the emission curve adds nothing"},
		Faults:  []string{"crash", "lost_commit", "storage_failure", "discard", "reopen", "refused_block"}})
}

func genLocal(r *h.Rand, tier string, idx int) *h.Plan {
	p := &h.Plan{Scenario: "local", Cfg: map[string]int64{}}
	p.Cfg["keymode"] = int64([]int{0, 0, 0, 0, 3, 6, 5, 4}[r.Intn(8)])
	p.Cfg["keyseed"] = int64(r.Intn(1 << 30))
	n := 100 << uint(r.Intn(3))
	n += r.Intn(n)
	if r.P(5) {
		n = 1000 + r.Intn(2000)
	}
	if tier == "thorough" && r.P(3) {
		n = 2000 + r.Intn(6000)
	}
	p.Cfg["nkeys"] = int64(n)
	p.Cfg["disk"] = int64(r.Intn(2))
	p.Cfg["ledger"] = int64(r.Intn(2))
	layered := r.P(60)
	if r.P(35) {
		p.Add("push")
	}
	p.Add("fill", int64(n/2+r.Intn(n/2+1)), int64(r.Intn(1<<20)))
	if r.P(30) {
		p.Add("flush")
	}
	w := []int{30, 25, 10, 0, 0, 0, 25, 4, 3, 3, 12, 3}
	if layered {
		w[3], w[4], w[5] = 8, 8, 4
	}
	if p.Cfg["disk"] == 0 {
		w[7], w[8] = 0, 0
	}
	for k := 20 + r.Intn(100); k > 0; k-- {
		switch r.Weighted(w) {
		case 0:
			if v := int64(r.Intn(1 << 20)); r.P(40) {
				p.Add("put", int64(r.Intn(min(n, 20))), v%2) // often what is there
			} else {
				p.Add("put", int64(r.Intn(n)), v)
			}
		case 1:
			p.Add("del", int64(r.Intn(n)))
		case 2:
			p.Add("get", int64(r.Intn(n)))
		case 3:
			p.Add("push")
		case 4:
			p.Add("flush", int64(r.Intn(2)))
		case 5:
			p.Add("discard")
		case 6:
			p.Add("settle")
		case 7:
			p.Add("crash", int64(r.Intn(3)))
		case 8:
			p.Add("fail", int64(1+r.Intn(30)), int64(r.Intn(2)))
		case 9:
			p.Add([]string{"commit", "reopen"}[r.Intn(2)])
		case 10:
			p.Add("block", int64(r.Intn(n)), int64(r.Intn(8)), int64(r.Intn(1<<20)))
		case 11:
			p.Add("thin", int64(r.Intn(n)), int64(1+r.Intn(n)), int64(1+r.Intn(3)))
		}
	}
	return p
}

// countStore counts accesses to the store below.
type countStore struct {
	low tree.Store
	n   int
}

func (c *countStore) GetNode(k tree.Nibbles) tree.Node    { c.n++; return c.low.GetNode(k) }
func (c *countStore) PutNode(k tree.Nibbles, n tree.Node) { c.n++; c.low.PutNode(k, n) }
func (c *countStore) DelNode(k tree.Nibbles)              { c.n++; c.low.DelNode(k) }

// depthOf returns the most branches that a path to one of the keys can have.
func depthOf(keys [][20]byte) int {
	all := make([]string, len(keys))
	for i := range keys {
		all[i] = hex.EncodeToString(keys[i][:])
	}
	sort.Strings(all)
	forks := map[string]bool{"": true}
	for i := 1; i < len(all); i++ {
		k := 0
		for k < 40 && all[i-1][k] == all[i][k] {
			k++
		}
		forks[all[i][:k]] = true
	}
	most := 0
	for _, s := range all {
		d := 0
		for k := 0; k < 40; k++ {
			if forks[s[:k]] {
				d++
			}
		}
		most = max(most, d)
	}
	return most
}

type localLayer struct {
	store tree.Store
	ov    *tree.OverlayStore
	t     *tree.PMTree
	pend  int // nodes that may be pending
}

type localRun struct {
	x      *h.Ctx
	keys   [][20]byte
	ledger bool
	disk   *simDisk
	count  *countStore
	ls     []*localLayer
	depth  int
	spent0 int
	steps0 uint64
	credit int // accesses allowed since the last settlement
	work   int // statements allowed since then
	free   bool
	judged int
	filled int
	height uint32
}

const (
	localBase, localPer = 48, 10
	localWork           = 1600
)

func execLocal(x *h.Ctx, p *h.Plan) {
	nk := int(p.Cfg["nkeys"])
	if nk < 2 {
		nk = 2
	}
	l := &localRun{x: x, keys: makeKeys(int(p.Cfg["keymode"]), uint64(p.Cfg["keyseed"]), nk), ledger: p.Cfg["ledger"] == 1}
	l.depth = depthOf(l.keys)
	l.count = &countStore{}
	if p.Cfg["disk"] == 1 {
		l.disk = newSimDisk()
		l.count.low = l.disk
	} else {
		l.count.low = tree.NewMemStore()
	}
	l.reopen()
	l.steps0, _ = simrt.Counters()
	l.settle("start")
	for i := range p.Steps {
		x.CurStep = i
		l.step(&p.Steps[i])
	}
	l.settle("end")
	if l.judged >= 10 && l.filled >= 100 {
		x.Nontrivial()
	}
}

func (l *localRun) reopen() {
	l.ls = []*localLayer{{store: l.count, t: &tree.PMTree{Store: l.count}}}
}

func (l *localRun) top() *localLayer { return l.ls[len(l.ls)-1] }

// per is what one update of an entry may cost.
func (l *localRun) per() int { return localBase + localPer*(l.depth+1) }

// op runs an operation that touches n entries, plus pend nodes of an overlay.
func (l *localRun) op(what string, n, pend int, f func()) bool {
	x := l.x
	l.credit += n*l.per() + 4*pend
	l.work += n*localWork*(l.depth+2) + 200*pend + localWork
	l.top().pend += n * 2 * (l.depth + 3)
	before := l.count.n
	if pi := h.Catch(f); pi != nil {
		df, ok := pi.Val.(diskFault)
		if !ok {
			if !pi.Repo {
				panic(pi.Val)
			}
			x.Fail("C01 C02 C03 C05 C26", pi.Class(), "%s: %s", what, pi)
		}
		x.Count("fault.storage_failure")
		x.Log("%s: %s failure after %d accesses", what, df.kind, l.count.n-before)
		l.judge(what)
		x.Count("fault.crash")
		l.disk.crash(0)
		l.reopen()
		return false
	}
	l.judged++
	x.Log("%s: %d accesses", what, l.count.n-before)
	x.State(h.HashBytes([]byte(what)) ^ h.Mix(uint64(l.depth)<<32|uint64(len(l.ls))<<24|uint64(l.count.n-before)))
	l.judge(what)
	return true
}

func (l *localRun) judge(what string) {
	if got := l.count.n - l.spent0; got > l.credit {
		l.x.Fail("C26", "storage accesses out of proportion", "%s: %d storage accesses since the last settlement where paths of at most %d branches account for %d; about %d entries", what, got, l.depth, l.credit, l.filled)
	}
	if now, _ := simrt.Counters(); !l.free && now-l.steps0 > uint64(l.work) {
		l.x.Fail("C26", "work out of proportion", "%s: %d statements since the last settlement where paths of at most %d branches account for %d; about %d entries", what, now-l.steps0, l.depth, l.work, l.filled)
	}
}

// settle asks for the root, so that nothing is left to do later, and starts a new account.
func (l *localRun) settle(why string) {
	var root [32]byte
	if l.op("root, "+why, 1, 0, func() { root = l.top().t.Hash() }) {
		l.x.Log("root %x", root[:6])
	}
	l.spent0, l.credit, l.work, l.free = l.count.n, 0, 0, false
	l.steps0, _ = simrt.Counters()
}

func (l *localRun) put(k int, seed int64) {
	t := l.top().t
	key := l.keys[k]
	if !l.ledger {
		if seed < 0 {
			t.PutEntry(&key, nil)
		} else {
			t.PutEntry(&key, h.NewRand(uint64(seed)).Bytes(1+int(seed%40)))
		}
		return
	}
	a := accounts.NewAccounts(t)
	if seed < 0 {
		a.PutAccount(&key, nil)
	} else {
		a.PutAccount(&key, &wire.BasicAccount{Value: 1 + uint64(seed)})
	}
}

func (l *localRun) step(s *h.Step) {
	x := l.x
	nk := len(l.keys)
	switch s.Op {
	case "fill":
		n := s.Mod(0, 1<<16)
		for i := 0; i < n; i++ {
			k := (i*7 + s.Mod(1, nk)) % nk
			if nk%7 == 0 {
				k = (i + s.Mod(1, nk)) % nk
			}
			if !l.op("fill", 1, 0, func() { l.put(k, int64(1+i)) }) {
				break
			}
			l.filled = max(l.filled, min(i, nk))
		}
		l.settle("filled")
	case "put":
		l.op("put", 1, 0, func() { l.put(s.Mod(0, nk), 1+int64(s.Mod(1, 1<<20))) })
	case "del":
		l.op("delete", 1, 0, func() { l.put(s.Mod(0, nk), -1) })
	case "thin": // every few entries go
		for i, n := s.Mod(0, nk), s.Mod(1, nk); n > 0; n-- {
			i = (i + 1 + s.Mod(2, 4)) % nk
			if !l.op("thin", 1, 0, func() { l.put(i, -1) }) {
				break
			}
			if n%5 == 0 {
				l.settle("thin")
			}
		}
	case "get":
		key := l.keys[s.Mod(0, nk)]
		l.op("get", 1, 0, func() { l.top().t.GetEntry(&key) })
	case "push":
		if len(l.ls) < 4 {
			ov := tree.NewOverlayStore(l.top().store)
			l.ls = append(l.ls, &localLayer{store: ov, ov: ov, t: &tree.PMTree{Store: ov}})
		}
	case "flush", "discard":
		if len(l.ls) < 2 {
			return
		}
		l.settle("before " + s.Op)
		if len(l.ls) < 2 {
			return
		}
		up := l.top()
		if s.Op == "flush" {
			l.ls[len(l.ls)-2].pend += up.pend
			if !l.op("flush", 0, up.pend+4, up.ov.Flush) {
				return
			}
			if up.pend = 0; s.Mod(0, 2) == 1 {
				return // the layer stays in use
			}
		} else {
			x.Count("fault.discard")
		}
		l.ls = l.ls[:len(l.ls)-1]
	case "settle":
		l.settle("asked")
	case "commit":
		if l.disk != nil && len(l.ls) == 1 {
			l.settle("before commit")
			if len(l.ls) == 1 {
				l.disk.commit()
			}
		}
	case "reopen":
		if len(l.ls) == 1 {
			l.settle("before reopen")
			l.reopen()
			x.Count("fault.reopen")
		}
	case "crash":
		if l.disk != nil {
			n := l.disk.crash(s.Mod(0, 4))
			x.Count("fault.crash")
			x.CountN("fault.lost_commit", n)
			l.reopen()
		}
	case "fail":
		if l.disk != nil {
			l.disk.failAt, l.disk.failOn = 1+s.Mod(0, 64), s.Mod(1, 2)
		}
	case "block":
		if l.ledger {
			l.block(s)
		}
	}
}

// block commits a block with a few payments between accounts.
func (l *localRun) block(s *h.Step) {
	r := h.NewRand(s.UArg(2))
	l.height = l.height%500 + 1
	b := &wire.Block{Body: &wire.BlockBody{MinerAddr: l.keys[s.Mod(0, len(l.keys))]}}
	b.Header.Height = l.height
	n := s.Mod(1, 9)
	for i := 0; i < n; i++ {
		t := &wire.ExtendedTx{Sender: l.keys[r.Intn(len(l.keys))], Recipient: l.keys[r.Intn(len(l.keys))], Value: uint64(r.Intn(40)), Fee: uint64(r.Intn(3))}
		b.Body.Txs = append(b.Body.Txs, wire.WrapTx{Tx: t})
	}
	var err error
	l.free = true // the emission curve is computed here
	touched := 3*n + 2
	l.op("block", touched, touched*2*(l.depth+3), func() { err = accounts.NewAccounts(l.top().t).Push(b) })
	if err != nil {
		l.x.Count("fault.refused_block")
	}
	l.settle("after block")
}
