package scen

import (
	"bytes"
	"container/heap"
	"encoding/binary"
	"fmt"

	"golang.org/x/crypto/blake2b"
	"nimsim/h"
	"nimsim/simos"
	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/genesis"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"
)

// The cluster scenario: a producer and replicas exchange encoded messages over
// a simulated network and keep their state on simulated disks.

func init() {
	h.Register(&h.Scenario{Name: "cluster", Exec: execCluster, Budget: 400_000_000})
	h.RegisterCheck(&h.Check{Property: "C11", Quick: 20000, Thorough: 500000, Gen: genCluster,
		Rule:    "A run is a discrete-event simulation of a producer and 2 to 5 replicas that load a generated genesis profile, exchange inventory, request and block messages with the repository's codec over a faulty network, validate blocks on overlays and persist them on simulated disks. After every step of a replica its whole durable state is compared with the reference ledger at its height. Non-trivial: at least one fault hit and at least one replica accepted two blocks.",
		Real:    []string{"wire messages and codec", "beserial", "accounts", "tree", "policy", "genesis"},
		Stub:    []string{"network", "clock and timers", "durable storage", "sync protocol around the messages", "block producer", "file system of the profile"},
		Measure: "distinct (replica heights, faults active)",
		Assume:  []string{"replicas accept only blocks whose header hash was announced, and check the root in the header", "the backend applies commit groups atomically"},
		Faults:  []string{"loss", "duplication", "delay and reordering", "corruption", "altered body", "partition", "crash", "lost commit", "storage failure", "stall", "clock skew", "profile read fault"}})
}

func genCluster(r *h.Rand, tier string, idx int) *h.Plan {
	p := &h.Plan{Scenario: "cluster", Cfg: map[string]int64{}}
	p.Cfg["world"] = int64(r.Intn(1 << 30))
	p.Cfg["actors"] = int64(1 + r.Intn(5))
	p.Cfg["slots"] = int64(r.Intn(4))
	p.Cfg["contracts"] = int64(r.Intn(3))
	p.Cfg["replicas"] = int64(2 + r.Intn(4))
	p.Cfg["net"] = int64(r.Intn(1 << 30))
	p.Cfg["batch"] = int64(1 + r.Intn(8))
	if !r.P(15) { // faulty
		p.Cfg["loss"] = int64([]int{0, 5, 20, 50}[r.Intn(4)])
		p.Cfg["dup"] = int64([]int{0, 5, 30}[r.Intn(3)])
		p.Cfg["slow"] = int64([]int{0, 5, 30}[r.Intn(3)])
		p.Cfg["corrupt"] = int64([]int{0, 5, 25}[r.Intn(3)])
		p.Cfg["evil"] = int64([]int{0, 10, 40}[r.Intn(3)])
	}
	n := 4 + r.Intn(14)
	for i := 0; i < n; i++ {
		switch r.Weighted([]int{50, 25, 8, 5, 10, 6, 6, 5}) {
		case 0:
			if r.P(15) {
				p.Add("time", int64(r.Intn(5)), int64(r.Intn(1<<12)), int64(r.Intn(5)-2), int64(r.Intn(12)))
			}
			for n := r.Geo(2); n > 0; n-- {
				k := r.Weighted([]int{30, 25, 10, 10, 20})
				am := []int64{0, 0, 1, 2, 6, 9, 14}[r.Intn(7)]
				p.Add("good", int64(k), int64(r.Intn(1<<12)), int64(r.Intn(1<<12)), am, int64(r.Intn(5)), int64(r.Intn(6)), int64(r.Intn(1<<30)), int64(r.Intn(1<<12)))
			}
			p.Add("mine", int64(r.Intn(1<<12)), int64(r.U64()>>1))
		case 1:
			p.Add("run", int64(r.Geo(400)))
		case 2:
			p.Add("partition", int64(r.Intn(64)))
		case 3:
			p.Add("heal")
		case 4:
			p.Add("crash", int64(r.Intn(8)), int64(r.Intn(4)), int64(r.Intn(1500)))
		case 5:
			p.Add("diskfail", int64(r.Intn(8)), int64(1+r.Geo(30)), int64(r.Intn(3)))
		case 6:
			p.Add("stall", int64(r.Intn(8)), int64(r.Intn(1500)))
		case 7:
			p.Add("net", int64(r.Intn(5)), int64(r.Intn(60)))
		}
		if r.P(50) {
			p.Add("run", int64(r.Geo(120)))
		}
	}
	return p
}

// cEvent is something that happens at a time.
type cEvent struct {
	at   int64
	seq  int
	node int
	kind int // 0 frame, 1 tick, 2 restart
	from int
	b    []byte
	ok   bool // undamaged
	life int  // of the node a tick belongs to
}

type cQueue []*cEvent

func (q cQueue) Len() int { return len(q) }
func (q cQueue) Less(i, j int) bool {
	return q[i].at < q[j].at || q[i].at == q[j].at && q[i].seq < q[j].seq
}
func (q cQueue) Swap(i, j int)       { q[i], q[j] = q[j], q[i] }
func (q *cQueue) Push(x interface{}) { *q = append(*q, x.(*cEvent)) }
func (q *cQueue) Pop() interface{} {
	o := *q
	x := o[len(o)-1]
	*q = o[:len(o)-1]
	return x
}

// cPoint is the reference state after a block.
type cPoint struct {
	hash    [32]byte
	entries map[addr][]byte
	root    [32]byte
	block   []byte
	height  uint32
}

// cNode is a node. disk and chain survive a crash.
type cNode struct {
	id     int
	disk   *simDisk
	chain  [][]byte // accepted blocks as this node encodes them
	hashes [][32]byte
	ready  bool // the genesis state is in place
	up     bool
	life   int
	stall  int64
	period int64
	style  int
	rot    int
	// volatile
	tree    *tree.PMTree
	wanted  map[[32]byte]bool
	orphans map[[32]byte]*wire.Block
	ordered [][32]byte
	okHash  map[[32]byte]bool // orphans that arrived undamaged
}

func (n *cNode) head(c *cluster) [32]byte {
	if len(n.hashes) == 0 {
		return c.points[0].hash
	}
	return n.hashes[len(n.hashes)-1]
}

type cluster struct {
	x        *h.Ctx
	w        *world
	d        *diskSim
	r        *h.Rand
	points   []cPoint
	byHash   map[[32]byte]int
	nodes    []*cNode
	q        cQueue
	seq      int
	now      int64
	groups   int // bit per node: which side of the partition
	parted   bool
	loss     int
	dup      int
	slow     int
	corrupt  int
	evil     int
	batch    int
	faults   int
	accepted int
	final    bool
	profile  string
}

const cPeriod = 200

func execCluster(x *h.Ctx, p *h.Plan) {
	c := &cluster{x: x, d: mountDisk(), byHash: map[[32]byte]int{}}
	defer c.d.unmount()
	cfg := func(k string, lo, hi int) int { return min(max(int(p.Cfg[k]), lo), hi) }
	r := h.NewRand(uint64(p.Cfg["world"]) + 3)
	c.r = h.NewRand(uint64(p.Cfg["net"]) * 7919)
	c.w = newWorld(uint64(p.Cfg["world"]), cfg("actors", 1, 15), cfg("slots", 0, 15))
	c.w.fund(r, []uint64{1000, 1 << 40, 1 << 60}[r.Intn(3)], cfg("contracts", 0, 9))
	pr := newProf(r, c.w, 1)
	c.w.vary = r.P(50)
	if !pr.intact {
		return
	}
	c.profile = "net"
	for k, b := range [][]byte{pr.toml, pr.blk, pr.accs} {
		c.d.fs.Files[c.profile+profFiles[k]] = b
	}
	c.d.sync()
	c.addPoint(pr.block)
	c.loss, c.dup, c.slow, c.corrupt, c.evil = cfg("loss", 0, 90), cfg("dup", 0, 90), cfg("slow", 0, 90), cfg("corrupt", 0, 90), cfg("evil", 0, 90)
	c.batch = cfg("batch", 1, 50)
	for i := 0; i <= cfg("replicas", 1, 7); i++ {
		n := &cNode{id: i, disk: newSimDisk(), period: cPeriod + int64(c.r.Intn(61)-30), style: c.r.Intn(4)}
		c.nodes = append(c.nodes, n)
		c.boot(n)
	}
	for i := range p.Steps {
		s := &p.Steps[i]
		x.CurStep = i
		x.Count("op." + s.Op)
		switch s.Op {
		case "time":
			if len(c.w.txs) == 0 {
				c.w.setTime(s)
				if c.w.now() <= c.w.height {
					c.w.clock = 0
				}
			}
		case "good":
			c.w.addGood(s)
		case "mine":
			c.mine(s)
		case "run":
			c.run(c.now + s.Arg(0)%100000)
		case "partition":
			c.groups, c.parted = s.Mod(0, 1<<uint(len(c.nodes))), true
			c.fault("partition")
		case "heal":
			c.parted = false
		case "crash":
			if n := c.node(s); n.up {
				c.crash(n, s.Mod(1, 4), s.Arg(2)%100000)
			}
		case "diskfail":
			n := c.node(s)
			n.disk.failAt, n.disk.failOn = 1+s.Mod(1, 1000), s.Mod(2, 2)
		case "stall":
			c.node(s).stall = c.now + s.Arg(1)%100000
			c.fault("stall")
		case "net":
			v := s.Mod(1, 61)
			switch s.Mod(0, 5) {
			case 0:
				c.loss = v
			case 1:
				c.dup = v
			case 2:
				c.slow = v
			case 3:
				c.corrupt = v
			case 4:
				c.evil = v
			}
		}
	}
	c.settle()
	x.Sim(float64(c.now))
	if c.faults > 0 && c.accepted >= 2 {
		x.Nontrivial()
	}
	for _, k := range c.d.fs.FiredKeys() {
		x.CountN("fault.profile_"+k, c.d.fs.Fired[k])
	}
}

// node picks a replica.
func (c *cluster) node(s *h.Step) *cNode { return c.nodes[1+s.Mod(0, len(c.nodes)-1)] }

func (c *cluster) fault(kind string) {
	c.x.Count("fault." + kind)
	c.faults++
}

func (c *cluster) addPoint(b *wire.Block) {
	enc := refBlock(b)
	pt := cPoint{hash: refHash(enc), entries: c.w.led.entries(), root: b.Header.AccountsHash, block: enc, height: b.Header.Height}
	c.byHash[pt.hash] = len(c.points)
	c.points = append(c.points, pt)
}

// mine makes the producer build and announce a block.
func (c *cluster) mine(s *h.Step) {
	r := h.NewRand(s.UArg(1))
	b := c.w.block(c.w.miner(s.UArg(0)))
	b.Body.Pruned = c.w.neededPrunes(b)
	if r.P(30) {
		b.Body.ExtraData = r.Bytes(r.Intn(40))
	}
	if c.w.vary {
		c.w.varyHeader(r, b)
	}
	b.Header.PrevHash = c.points[len(c.points)-1].hash
	b.Header.Nonce = uint32(r.U64())
	if r.P(20) {
		b.Interlink, _ = (&wg{r, false}).interlink()
	}
	v := c.w.led.push(b)
	if v.r != nil {
		return
	}
	c.w.height, c.w.clock = b.Header.Height, 0
	b.Header.AccountsHash = refRoot(c.w.led.entries())
	c.addPoint(b)
	c.x.Count("blocks")
	p := c.nodes[0]
	pt := &c.points[len(c.points)-1]
	// The producer goes through the same validation as everyone.
	var blk wire.Block
	var err error
	c.guard(p, "decoding a produced block", func() { err = beserial.UnmarshalFull(pt.block, &blk) })
	if err != nil {
		c.x.Fail("C11", "valid block refused", "the producer cannot decode its block: %v", err)
	}
	if c.apply(p, &blk, pt.hash, true); len(p.chain) != len(c.points)-1 {
		c.x.Fail("C11", "valid block refused", "the producer did not accept block %d", len(c.points)-1)
	}
	for i := 1; i < len(c.nodes); i++ {
		c.send(0, i, &wire.InvMessage{MessageType: wire.MessageInv, Vectors: []wire.InvVector{{Type: wire.InvBlock, Hash: pt.hash}}})
	}
}

// guard runs repository code of a node. It reports whether a storage failure
// interrupted it.
func (c *cluster) guard(n *cNode, what string, f func()) (failed bool) {
	before := n.disk.fired
	pi := h.Catch(f)
	if n.disk.fired > before { // as a panic or as an error
		c.fault("storage_failure")
		return true
	}
	if pi == nil {
		return false
	}
	if !pi.Repo {
		panic(pi.Val)
	}
	c.x.Fail("C11", pi.Class(), "node %d: %s: %s", n.id, what, pi)
	return false
}

// boot starts a node from its durable state.
func (c *cluster) boot(n *cNode) {
	n.up = true
	n.life++
	n.stall = 0
	n.wanted = map[[32]byte]bool{}
	n.orphans = map[[32]byte]*wire.Block{}
	n.okHash = map[[32]byte]bool{}
	n.ordered = nil
	n.tree = &tree.PMTree{Store: n.disk}
	if !n.ready {
		var err error
		hit := c.d.fs.Fired["read_error"]
		if c.guard(n, "loading genesis", func() {
			var prof *genesis.Profile
			if c.d.simulated() && !c.final && n.id != 0 && c.r.P(5) { // sometimes the profile cannot be read at first
				f := c.profile + profFiles[c.r.Intn(3)]
				c.d.fs.Faults[f] = &simos.Fault{ErrAt: c.r.Intn(len(c.d.fs.Files[f]) + 1)}
				defer delete(c.d.fs.Faults, f)
			}
			if prof, err = genesis.OpenProfile(c.profile); err != nil {
				return
			}
			if err = prof.InitAccounts(accounts.NewAccounts(n.tree)); err != nil {
				c.x.Fail("C11", "genesis refused", "node %d: %v", n.id, err)
			}
		}) {
			c.crash(n, 0, 300)
			return
		}
		if err != nil {
			if c.d.fs.Fired["read_error"] == hit {
				c.x.Fail("C11", "genesis refused", "node %d: %v", n.id, err)
			}
			c.crash(n, 0, 300)
			return
		}
		n.disk.commit()
		n.disk.sync()
		n.ready = true
	}
	c.check(n, "after a restart")
	c.at(n.period/2, &cEvent{node: n.id, kind: 1, life: n.life})
}

func (c *cluster) crash(n *cNode, lose int, down int64) {
	if n.up {
		c.fault("crash")
	}
	n.up = false
	if lost := n.disk.crash(lose); lost > 0 {
		n.chain = n.chain[:len(n.chain)-lost]
		n.hashes = n.hashes[:len(n.hashes)-lost]
		for i := 0; i < lost; i++ {
			c.fault("lost_commit")
		}
	}
	n.tree = nil
	c.at(1+down, &cEvent{node: n.id, kind: 2, life: n.life})
}

func (c *cluster) at(delay int64, e *cEvent) {
	c.seq++
	e.seq = c.seq
	e.at = c.now + delay
	heap.Push(&c.q, e)
}

// send encodes a message and puts it on the network.
func (c *cluster) send(from, to int, m wire.Message) {
	var b []byte
	var err error
	c.guard(c.nodes[from], fmt.Sprintf("encoding %T", m), func() { b, err = wire.MarshalMessage(m) })
	if err != nil {
		c.x.Fail("C11", "message not encodable", "node %d: %s: %v", from, show(m), err)
	}
	c.x.Count("op.send")
	if c.r.P(c.loss) {
		c.fault("loss")
		return
	}
	copies := 1
	if c.r.P(c.dup) {
		copies += 1 + c.r.Intn(2)
		c.fault("duplication")
	}
	for ; copies > 0; copies-- {
		e := &cEvent{node: to, from: from, b: b, ok: true}
		if c.r.P(c.corrupt) {
			e.b, e.ok = c.damage(b), false
			c.fault("corruption")
		} else if c.r.P(c.evil) && len(b) > 154 && binary.BigEndian.Uint64(b) == wire.MessageBlock {
			if nb := c.alterBody(b[8:]); nb != nil {
				e.b, e.ok = append(append([]byte(nil), b[:8]...), nb...), false
				c.fault("altered_body")
			}
		}
		delay := int64(1 + c.r.Intn(30))
		if c.r.P(c.slow) {
			delay += int64(c.r.Intn(2000))
			c.fault("delay")
		}
		c.at(delay, e)
	}
}

func (c *cluster) damage(b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := 1 + c.r.Intn(2); n > 0; n-- {
		switch c.r.Intn(5) {
		case 0, 1, 2:
			b[c.r.Intn(len(b))] ^= 1 << uint(c.r.Intn(8))
		case 3:
			b = b[:8+c.r.Intn(len(b)-7)]
		case 4:
			b = append(b, c.r.Bytes(1+c.r.Geo(2))...)
		}
	}
	return b
}

// alterBody changes what a block does but not its header.
func (c *cluster) alterBody(b []byte) []byte {
	bl, ok := readBlock(b)
	if !ok || bl.Body == nil {
		return nil
	}
	r := c.r
	switch k := r.Intn(6); {
	case k == 0:
		bl.Body.MinerAddr = c.w.address(r.Intn(12))
	case k == 1:
		t := &wire.ExtendedTx{Sender: c.w.address(r.Intn(8)), Recipient: c.w.address(r.Intn(8)), Value: uint64(r.Intn(100))}
		at := r.Intn(len(bl.Body.Txs) + 1)
		bl.Body.Txs = append(bl.Body.Txs[:at:at], append([]wire.WrapTx{{Tx: t}}, bl.Body.Txs[at:]...)...)
	case k == 2 && len(bl.Body.Txs) > 0:
		switch t := bl.Body.Txs[r.Intn(len(bl.Body.Txs))].Tx.(type) {
		case *wire.BasicTx:
			t.Value++
		case *wire.ExtendedTx:
			t.Fee++
		}
	case k == 3 && len(bl.Body.Txs) > 0:
		i := r.Intn(len(bl.Body.Txs))
		bl.Body.Txs = append(bl.Body.Txs[:i:i], bl.Body.Txs[i+1:]...)
	case k == 4 && len(bl.Body.Txs) > 1:
		i := r.Intn(len(bl.Body.Txs) - 1)
		bl.Body.Txs[i], bl.Body.Txs[i+1] = bl.Body.Txs[i+1], bl.Body.Txs[i]
	case k == 5 && len(bl.Body.Pruned) > 0:
		bl.Body.Pruned = bl.Body.Pruned[1:]
	default:
		bl.Body.Pruned = append(bl.Body.Pruned, wire.AccountPruned{Address: c.w.address(r.Intn(8)), Account: wire.WrapAccount{Account: &wire.BasicAccount{Value: 1}}})
	}
	return refBlock(bl)
}

// run processes events until a time.
func (c *cluster) run(until int64) {
	for len(c.q) > 0 && c.q[0].at <= until {
		e := heap.Pop(&c.q).(*cEvent)
		c.now = e.at
		n := c.nodes[e.node]
		switch e.kind {
		case 2:
			if !n.up && e.life == n.life {
				c.boot(n)
			}
		case 1:
			if !n.up || e.life != n.life {
				continue
			}
			c.at(n.period, e)
			if n.stall > c.now {
				continue
			}
			c.tick(n)
		case 0:
			if !n.up {
				c.x.Count("fault.receiver_down")
				continue
			}
			if c.parted && (c.groups>>uint(e.from)^c.groups>>uint(e.node))&1 == 1 {
				c.fault("partitioned_frame")
				continue
			}
			if n.stall > c.now {
				c.at(n.stall-c.now, e)
				continue
			}
			c.receive(n, e)
		}
	}
	if c.now < until {
		c.now = until
	}
}

// tick asks a peer for news.
func (c *cluster) tick(n *cNode) {
	if n.id == 0 {
		return
	}
	n.rot++
	peer := n.rot % len(c.nodes)
	if peer == n.id {
		n.rot++
		peer = n.rot % len(c.nodes)
	}
	if len(n.wanted) > 200 {
		n.wanted = map[[32]byte]bool{}
	}
	switch {
	case n.rot%7 == 3:
		head := wire.GetHeadMessage
		c.send(n.id, peer, &head)
		fallthrough
	default:
		c.send(n.id, peer, c.getBlocks(n))
	}
	c.x.Count("op.tick")
}

func (c *cluster) getBlocks(n *cNode) wire.Message {
	m := &wire.GetBlocksMessage{MaxInvSize: uint16(c.batch), Direction: wire.DirectionForward}
	for i := len(n.hashes) - 1; i >= 0 && len(m.Locators) < 4; i -= 2 {
		m.Locators = append(m.Locators, n.hashes[i])
	}
	m.Locators = append(m.Locators, c.points[0].hash)
	return m
}

func (n *cNode) find(c *cluster, hash [32]byte) int {
	if hash == c.points[0].hash {
		return 0
	}
	for i := range n.hashes {
		if n.hashes[i] == hash {
			return i + 1
		}
	}
	return -1
}

// receive handles a frame.
func (c *cluster) receive(n *cNode, e *cEvent) {
	x := c.x
	x.Count("op.receive")
	if len(e.b) < 8 {
		return
	}
	var m wire.Message
	var err error
	buf := append([]byte(nil), e.b[8:]...)
	c.guard(n, "decoding "+hexs(e.b), func() { m, err = wire.UnmarshalMessage(binary.BigEndian.Uint64(e.b), buf) })
	if err != nil {
		if e.ok {
			x.Fail("C11", "valid message refused", "node %d: %s: %v", n.id, hexs(e.b), err)
		}
		return
	}
	for i := range buf {
		buf[i] = 0xee // the receive buffer is used for something else
	}
	switch m := m.(type) {
	case *wire.InvMessage:
		if m.Type() == wire.MessageGetData {
			c.serve(n, e.from, m)
			return
		}
		if m.Type() != wire.MessageInv {
			return
		}
		get := &wire.InvMessage{MessageType: wire.MessageGetData}
		for _, v := range m.Vectors {
			if v.Type == wire.InvBlock && n.find(c, v.Hash) < 0 && len(get.Vectors) < 100 {
				n.wanted[v.Hash] = true
				get.Vectors = append(get.Vectors, v)
			}
		}
		if len(get.Vectors) > 0 {
			c.send(n.id, e.from, get)
		}
	case *wire.GetBlocksMessage:
		inv := &wire.InvMessage{MessageType: wire.MessageInv}
		for _, l := range m.Locators {
			if i := n.find(c, l); i >= 0 {
				for ; i < len(n.hashes) && len(inv.Vectors) < int(m.MaxInvSize) && len(inv.Vectors) < 100; i++ {
					inv.Vectors = append(inv.Vectors, wire.InvVector{Type: wire.InvBlock, Hash: n.hashes[i]})
				}
				break
			}
		}
		if len(inv.Vectors) > 0 {
			c.send(n.id, e.from, inv)
		}
	case *wire.BlockMessage:
		c.block(n, &m.Block, e)
	case *wire.EmptyMessage:
		if m.Type() == wire.MessageGetHead && len(n.chain) > 0 {
			var blk wire.Block
			c.guard(n, "decoding a stored block", func() { err = beserial.UnmarshalFull(n.chain[len(n.chain)-1], &blk) })
			if err != nil {
				x.Fail("C11", "stored block unreadable", "node %d: %v", n.id, err)
			}
			c.send(n.id, e.from, &wire.HeadMessage{BlockHeader: blk.Header})
		}
	case *wire.HeadMessage:
		if hash := c.hash(n, &m.BlockHeader); n.find(c, hash) < 0 {
			c.send(n.id, e.from, c.getBlocks(n))
		}
	}
}

// serve answers a request for blocks.
func (c *cluster) serve(n *cNode, to int, m *wire.InvMessage) {
	miss := &wire.InvMessage{MessageType: wire.MessageNotFound}
	for k, v := range m.Vectors {
		if k >= 100 {
			break
		}
		i := n.find(c, v.Hash)
		if i < 1 {
			miss.Vectors = append(miss.Vectors, v)
			continue
		}
		msg := new(wire.BlockMessage)
		var err error
		c.guard(n, "decoding a stored block", func() { err = beserial.UnmarshalFull(n.chain[i-1], &msg.Block) })
		if err != nil {
			c.x.Fail("C11", "stored block unreadable", "node %d: %v", n.id, err)
		}
		c.send(n.id, to, msg)
	}
	if len(miss.Vectors) > 0 {
		c.send(n.id, to, miss)
	}
}

// hash is the block hash by the code under test.
func (c *cluster) hash(n *cNode, hd *wire.BlockHeader) [32]byte {
	var b []byte
	var err error
	c.guard(n, "encoding a header", func() { b, err = beserial.Marshal(nil, hd) })
	if err != nil || len(b) != 146 {
		c.x.Fail("C11", "header not encodable", "node %d: %d bytes, %v", n.id, len(b), err)
	}
	return blake2b.Sum256(b)
}

// block takes a received block.
func (c *cluster) block(n *cNode, b *wire.Block, e *cEvent) {
	hash := c.hash(n, &b.Header)
	if e.ok {
		if _, known := c.byHash[hash]; !known {
			c.x.Fail("C11", "block differs", "node %d: an undamaged block has hash %x, which was never produced", n.id, hash)
		}
	}
	if !n.wanted[hash] || n.find(c, hash) >= 0 {
		return
	}
	// A replica may pass on a body that differs in what the root does not cover.
	i, known := c.byHash[hash]
	intact := known && bytes.Equal(e.b[8:], c.points[i].block)
	if b.Header.PrevHash != n.head(c) {
		if len(n.ordered) < 60 {
			if _, have := n.orphans[b.Header.PrevHash]; !have || intact {
				n.orphans[b.Header.PrevHash] = b
				n.okHash[b.Header.PrevHash] = intact
				n.ordered = append(n.ordered, b.Header.PrevHash)
			}
		} else {
			n.orphans, n.okHash, n.ordered = map[[32]byte]*wire.Block{}, map[[32]byte]bool{}, nil
		}
		return
	}
	c.apply(n, b, hash, intact)
	for n.up {
		o := n.orphans[n.head(c)]
		if o == nil {
			return
		}
		ok := n.okHash[n.head(c)]
		delete(n.orphans, n.head(c))
		hash := c.hash(n, &o.Header)
		before := len(n.chain)
		c.apply(n, o, hash, ok)
		if len(n.chain) == before {
			return
		}
	}
}

// apply validates and persists the next block of a node.
func (c *cluster) apply(n *cNode, b *wire.Block, hash [32]byte, intact bool) {
	x := c.x
	if b.Header.Height > maxHeight {
		return // a damaged height
	}
	before := n.disk.digest()
	var err error
	fine := false
	crashed := c.guard(n, "applying a block", func() {
		switch n.style {
		case 0: // on an overlay that is flushed if the root is right
			o := tree.NewOverlayStore(n.disk)
			t := &tree.PMTree{Store: o}
			if err = accounts.NewAccounts(t).Push(b); err != nil {
				return
			}
			if fine = t.Hash() == b.Header.AccountsHash; fine {
				o.Flush()
			}
		case 1: // inside the storage transaction, with one tree for the life of the node
			if err = accounts.NewAccounts(n.tree).Push(b); err == nil {
				fine = n.tree.Hash() == b.Header.AccountsHash
			}
		case 2: // twice: first a trial run, then for real
			o := tree.NewOverlayStore(n.disk)
			t := &tree.PMTree{Store: o}
			if err = accounts.NewAccounts(t).Push(b); err != nil || t.Hash() != b.Header.AccountsHash {
				return
			}
			t = &tree.PMTree{Store: n.disk}
			err = accounts.NewAccounts(t).Push(b)
			fine = err == nil
		case 3: // on an overlay over an overlay
			lower := tree.NewOverlayStore(n.disk)
			o := tree.NewOverlayStore(lower)
			t := &tree.PMTree{Store: o}
			if err = accounts.NewAccounts(t).Push(b); err != nil {
				return
			}
			o.Flush()
			t = &tree.PMTree{Store: lower}
			if fine = t.Hash() == b.Header.AccountsHash; fine {
				lower.Flush()
			}
		}
	})
	if crashed {
		c.crash(n, c.r.Intn(2), int64(c.r.Intn(500)))
		return
	}
	x.Count("op.apply")
	if err != nil || !fine {
		if n.style == 1 && err == nil { // abort the transaction
			n.disk.crash(0)
			n.tree = &tree.PMTree{Store: n.disk}
		}
		if intact {
			x.Fail("C11", "valid block refused", "node %d refused block %d (height %d): error %v, root right: %v", n.id, len(n.chain)+1, b.Header.Height, err, fine)
		}
		x.Count("altered_block_refused")
		if n.disk.digest() != before {
			x.Fail("C11", "refused block changed the state", "node %d: %v", n.id, err)
		}
		return
	}
	var enc []byte
	c.guard(n, "encoding a block", func() { enc, err = beserial.Marshal(nil, b) })
	if err != nil {
		x.Fail("C11", "block not encodable", "node %d: %v", n.id, err)
	}
	n.chain = append(n.chain, enc)
	n.hashes = append(n.hashes, hash)
	n.disk.commit()
	if c.r.P(40) {
		n.disk.sync()
	}
	delete(n.wanted, hash)
	if n.id != 0 {
		c.accepted++
	}
	if intact {
		if i := c.byHash[hash]; !bytes.Equal(enc, c.points[i].block) {
			x.Fail("C11", "block differs", "node %d: block %d reads %s, was sent as %s", n.id, i, hexs(enc), hexs(c.points[i].block))
		}
	}
	c.check(n, "after a block")
}

// check compares the durable state of a node with the reference.
func (c *cluster) check(n *cNode, when string) {
	x := c.x
	i := len(n.chain)
	if i >= len(c.points) || i > 0 && n.hashes[i-1] != c.points[i].hash {
		x.Fail("C11", "unknown chain", "node %d %s: its block %d was never produced", n.id, when, i)
	}
	pt := &c.points[i]
	var root [32]byte
	save := n.disk.failAt
	n.disk.failAt = 0
	c.guard(n, "state root", func() { root = (&tree.PMTree{Store: n.disk}).Hash() })
	n.disk.failAt = save
	if root != pt.root {
		x.Fail("C11", "roots diverge", "node %d %s: root %x at block %d, expected %x", n.id, when, root, i, pt.root)
	}
	got := 0
	for _, b := range n.disk.data {
		if b[0] != 2 {
			continue
		}
		leaf := decodeNode(b).(*tree.Leaf)
		got++
		k, ok := nibbleAddr(leaf.Prefix)
		if !ok || !bytes.Equal(pt.entries[k], leaf.Value) {
			x.Fail("C11", "accounts diverge", "node %d %s: account %x at block %d is %x, expected %x", n.id, when, k, i, leaf.Value, pt.entries[k])
		}
	}
	if got != len(pt.entries) {
		x.Fail("C11", "accounts diverge", "node %d %s: %d accounts at block %d, expected %d", n.id, when, got, i, len(pt.entries))
	}
	var v uint64
	for _, o := range c.nodes {
		v = h.Mix(v*31 + uint64(len(o.chain))*2)
		if o.up {
			v++
		}
	}
	if c.parted {
		v ^= uint64(c.groups+1) << 40
	}
	x.State(h.Mix(v))
	if x.Verbose {
		x.Log("t=%d node %d %s: block %d root %x", c.now, n.id, when, i, root[:4])
	} else {
		x.Note(root[:8])
	}
}

func nibbleAddr(n tree.Nibbles) (a addr, ok bool) {
	if len(n) != 40 {
		return a, false
	}
	for i, x := range []byte(n) {
		if x >= '0' && x <= '9' {
			x -= '0'
		} else if x >= 'a' && x <= 'f' {
			x -= 'a' - 10
		} else if x > 15 {
			return a, false
		}
		a[i/2] = a[i/2]<<4 | x
	}
	return a, true
}

// settle ends the faults and demands progress.
func (c *cluster) settle() {
	x := c.x
	c.final = true
	c.parted = false
	c.loss, c.dup, c.slow, c.corrupt, c.evil = 0, 0, 0, 0, 0
	for _, n := range c.nodes {
		n.stall = 0
		n.disk.failAt = 0
		if !n.up {
			c.boot(n)
		}
	}
	want := len(c.points) - 1
	rounds := len(c.nodes)*(want/c.batch+2) + 4
	start := c.now
	for i := 0; i < rounds; i++ {
		c.run(c.now + cPeriod + 30)
		done := true
		for _, n := range c.nodes {
			done = done && len(n.chain) == want
		}
		if done {
			x.CountN("rounds_to_converge", i+1)
			x.Count("converged")
			break
		}
	}
	for _, n := range c.nodes {
		c.check(n, "at the end")
		if len(n.chain) != want {
			x.Fail("C11", "no convergence", "node %d is at block %d of %d, %d rounds (%d ms) after the last fault", n.id, len(n.chain), want, rounds, c.now-start)
		}
	}
}
