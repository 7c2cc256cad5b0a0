package scen

import (
	"bytes"
	"fmt"

	"nimsim/h"
	"terorie.dev/nimiq/tree"
)

func init() {
	h.Register(&h.Scenario{Name: "tree", Exec: execTree, Budget: 60_000_000})
	h.Register(&h.Scenario{Name: "nodes", Exec: execNodes, Budget: 60_000_000})
	real := []string{"tree.PMTree", "tree.Branch/Leaf", "tree.MemStore", "tree.OverlayStore"}
	stub := []string{"durable node storage (simulated disk with commit groups, lost commits and failing accesses)"}
	faults := []string{"crash", "lost_commit", "storage_failure", "discard", "reopen"}
	measure := "distinct root hashes (tree runs) or layer contents (node runs) reached"
	rule := "A run is a seeded sequence of puts, overwrites, deletes, lookups, overlay pushes, flushes, discards, commits, crashes and storage failures over a seeded key set and storage stack; it is non-trivial if at least three writes changed the state and, for crash and overlay properties, at least one crash or flush/discard hit pending state."
	h.RegisterCheck(&h.Check{Property: "C01", Quick: 60000, Thorough: 2000000, Gen: genTree(treeCfg{crash: 3, overlay: 12}), Rule: rule, Real: real, Stub: stub, Faults: faults, Measure: measure,
		Assume: []string{"Blake2b-256 of golang.org/x/crypto is trusted by code and reference alike"}})
	h.RegisterCheck(&h.Check{Property: "C02", Quick: 60000, Thorough: 1600000, Gen: genTree(treeCfg{crash: 2, overlay: 12, sweep: true}), Rule: rule, Real: real, Stub: stub, Faults: faults, Measure: measure})
	h.RegisterCheck(&h.Check{Property: "C03", Quick: 60000, Thorough: 2000000, Gen: genTree(treeCfg{crash: 18, overlay: 8, disk: true}), Rule: rule, Real: real, Stub: stub, Faults: faults, Measure: measure,
		Assume: []string{"the storage backend applies the writes of a commit group atomically"}})
	h.RegisterCheck(&h.Check{Property: "C04", Quick: 60000, Thorough: 2000000, Gen: func(r *h.Rand, tier string, idx int) *h.Plan {
		if r.P(40) {
			return genNodes(r)
		}
		return genTree(treeCfg{crash: 3, overlay: 40})(r, tier, idx)
	}, Rule: rule, Real: real, Stub: stub, Faults: faults, Measure: measure,
		Assume: []string{"a store is not written behind the back of an overlay tree that has pending changes"}})
}

type treeCfg struct {
	crash, overlay int
	disk, sweep    bool
}

func genTree(c treeCfg) func(r *h.Rand, tier string, idx int) *h.Plan {
	return func(r *h.Rand, tier string, idx int) *h.Plan {
		p := &h.Plan{Scenario: "tree", Cfg: map[string]int64{}}
		p.Cfg["keymode"] = int64(r.Intn(7))
		p.Cfg["keyseed"] = int64(r.Intn(1 << 30))
		nk := 2 + r.Intn(4)
		if r.P(45) {
			nk = 4 + r.Intn(20)
		}
		if r.P(3) {
			nk = 60 + r.Intn(200)
		}
		if p.Cfg["keymode"] == 6 {
			nk += 14 + r.Intn(12) // full branches
		}
		big := r.P(5)
		p.Cfg["nkeys"] = int64(nk)
		disk := c.disk || r.P(60)
		if disk {
			p.Cfg["disk"] = 1
		}
		p.Cfg["autocommit"] = int64(r.Intn(2))
		p.Cfg["zeroctor"] = int64(r.Intn(2))
		p.Cfg["onekey"] = int64(r.Intn(2))
		if c.sweep || r.P(50) {
			p.Cfg["sweep"] = 1
		}
		n := 3 + r.Intn(30)
		if r.P(15) {
			n = 30 + r.Intn(150)
		}
		if nk >= 60 {
			n = nk + r.Intn(2*nk)
			p.Cfg["sweep"] = 0
			big = false
		}
		// Swarm: each run enables a subset of operations.
		w := []int{50, 8, 22, 6, 0, 0, 0, 0, 0, 0, 0, 8}
		if r.P(25) {
			w[2] = 45 // delete-heavy
		}
		if big {
			w[11] = 40 // long values that change in details
		}
		ov := c.overlay
		if ov > 0 && r.P(70) {
			w[4] = ov / 3     // push
			w[5] = ov / 3     // flush
			w[6] = ov/4 + 1   // discard
			w[10] = ov/10 + 1 // read/write at another layer
		}
		if disk && r.P(80) {
			w[7] = c.crash // crash
			w[8] = c.crash // failing operation
			w[9] = 6       // commit / sync / reopen
		} else {
			w[9] = 3
		}
		for i := 0; i < n; i++ {
			switch r.Weighted(w) {
			case 0:
				size := int64(1 + r.Geo(12))
				if big && r.P(30) {
					size = bigValue + int64(r.Intn(len(bigSizes)))
				} else if (big || r.P(1)) && r.P(30) {
					size = bigExact + 1 + int64(r.Intn(1<<uint(5+r.Intn(12))))
				}
				p.Add("put", int64(r.Intn(nk)), int64(r.Intn(1<<20)), size)
			case 1:
				p.Add("same", int64(r.Intn(nk)))
			case 2:
				p.Add("del", int64(r.Intn(nk)))
			case 3:
				p.Add("get", int64(r.Intn(nk)))
			case 4:
				p.Add("push")
			case 5:
				p.Add("flush")
			case 6:
				p.Add("discard")
			case 7:
				p.Add("crash", int64(r.Intn(4)))
			case 8:
				// A storage failure inside one of the operations that follow.
				p.Add("fail", int64(1+r.Intn(14)), int64(r.Intn(2)), int64(r.Intn(3)))
			case 9:
				p.Add([]string{"commit", "sync", "reopen", "commit"}[r.Intn(4)])
			case 11:
				p.Add("edit", int64(r.Intn(nk)), int64(r.Intn(1<<20)), int64(r.Intn(8)))
			case 10:
				p.Add("low", int64(r.Intn(4)), int64(r.Intn(nk)), int64(r.Intn(1<<20)))
			}
		}
		if idx%1500 == 700 || tier == "thorough" && idx%400 == 100 {
			genBulk(p, r, idx)
		}
		return p
	}
}

// genBulk makes a run of a few steps that write or delete very many entries each.
func genBulk(p *h.Plan, r *h.Rand, idx int) {
	nk := []int{300, 1100, 1100, 1600, 2500}[r.Intn(5)]
	if idx%9 == 0 {
		nk = 5000
	}
	p.Cfg["nkeys"] = int64(nk)
	p.Cfg["keymode"] = 0
	p.Cfg["sweep"] = 0
	p.Steps = nil
	for i := 0; i < 2+r.Intn(5); i++ {
		switch r.Intn(6) {
		case 0, 1:
			p.Add("push")
			p.Add("bulk", int64(r.Intn(nk)), int64(nk/4+r.Intn(nk)), int64(r.Intn(1<<20)))
			p.Add([]string{"flush", "flush", "discard"}[r.Intn(3)])
		case 2, 3:
			p.Add("bulk", int64(r.Intn(nk)), int64(1+r.Intn(nk)), int64(r.Intn(1<<20)))
		case 4:
			p.Add("thin", int64(r.Intn(nk)), int64(1+r.Intn(nk)), int64(1+r.Intn(3)))
		case 5:
			p.Add([]string{"commit", "crash", "reopen", "fail"}[r.Intn(4)], int64(r.Intn(64)), int64(r.Intn(2)))
		}
	}
}

// makeKeys derives the key set of a run.
func makeKeys(mode int, seed uint64, n int) [][20]byte {
	r := h.NewRand(seed)
	keys := make([][20]byte, 0, n)
	seen := map[[20]byte]bool{}
	base := tree.KeyToNibbles((*[20]byte)(r.Bytes(20)))
	if r.P(20) {
		base = make([]byte, 40) // zeros
	}
	nib := func() byte { return byte(r.Intn(16)) }
	// Branch points within shared prefixes.
	depth := []int{r.Intn(40), r.Intn(40), 39, 38, 0, r.Intn(40)}
	for tries := 0; len(keys) < n && tries < 50*n; tries++ {
		k := append([]byte(nil), base...)
		switch mode % 7 {
		case 0: // unrelated
			for i := range k {
				k[i] = nib()
			}
		case 1: // differ in the last nibbles
			for i := 40 - 1 - r.Intn(3); i < 40; i++ {
				k[i] = nib()
			}
		case 2: // leave the common path at any depth
			d := r.Intn(40)
			k[d] = nib()
			if r.P(50) {
				for i := d + 1; i < 40; i++ {
					k[i] = nib()
				}
			}
		case 3: // few values per nibble
			for i := range k {
				if r.P(8) {
					k[i] ^= 1
				}
			}
		case 4: // dense at fixed branch points
			for _, d := range depth[:3] {
				k[d] = byte(r.Intn(3))
			}
		case 5: // derived from an earlier key
			if len(keys) > 0 {
				e := keys[r.Intn(len(keys))]
				k = append([]byte(nil), tree.KeyToNibbles(&e)...)
			}
			k[r.Intn(40)] = nib()
		case 6: // all children of a branch
			k[depth[0]] = nib()
			if r.P(20) {
				k[depth[1]] = nib()
			}
		}
		var key [20]byte
		for i := range key {
			key[i] = k[2*i]<<4 | k[2*i+1]
		}
		if !seen[key] {
			seen[key] = true
			keys = append(keys, key)
		}
	}
	return keys
}

// Sizes from bigValue on stand for values beyond what one or two bytes count.
// Sizes from bigExact on stand for values of exactly that many more bytes.
const (
	bigValue = 1 << 20
	bigExact = 1 << 21
)

var bigSizes = []int{119, 255, 256, 257, 1000, 4096, 65535, 65536, 70000}

func valueOf(seed int64, size int64) []byte {
	if size >= bigExact {
		return h.NewRand(uint64(seed)).Bytes(1 + int(uint64(size-bigExact)%(1<<17)))
	}
	if size >= bigValue {
		return h.NewRand(uint64(seed)).Bytes(bigSizes[uint64(size)%uint64(len(bigSizes))])
	}
	n := int(uint64(size) % 120)
	if n == 0 {
		n = 1
	}
	return h.NewRand(uint64(seed)).Bytes(n)
}

type layer struct {
	store tree.Store
	ov    *tree.OverlayStore
	t     *tree.PMTree
	m     map[[20]byte][]byte
	wrote bool // a tree wrote to it since it was created or flushed
}

func copyEntries(m map[[20]byte][]byte) map[[20]byte][]byte {
	c := make(map[[20]byte][]byte, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

type treeRun struct {
	x      *h.Ctx
	keys   [][20]byte
	disk   *simDisk
	ls     []*layer // bottom first
	hist   []map[[20]byte][]byte
	writes int
	hit    int
	zero   bool
	crashN int
	oneKey bool
	keyVar [20]byte
}

const treeProps = "C01 C02 C03 C04"

func execTree(x *h.Ctx, p *h.Plan) {
	nk := int(p.Cfg["nkeys"])
	if nk < 1 {
		nk = 1
	}
	t := &treeRun{x: x, keys: makeKeys(int(p.Cfg["keymode"]), uint64(p.Cfg["keyseed"]), nk), zero: p.Cfg["zeroctor"] == 1, oneKey: p.Cfg["onekey"] == 1}
	var base tree.Store
	if p.Cfg["disk"] == 1 {
		t.disk = newSimDisk()
		base = t.disk
	} else {
		base = tree.NewMemStore()
	}
	t.ls = []*layer{{store: base, t: &tree.PMTree{Store: base}, m: map[[20]byte][]byte{}}}
	t.hist = []map[[20]byte][]byte{{}}
	auto := p.Cfg["autocommit"] == 1
	sweep := p.Cfg["sweep"] == 1
	t.checkRoot("start")
	for i := range p.Steps {
		s := &p.Steps[i]
		x.CurStep = i
		t.step(s)
		if auto && len(t.ls) == 1 && t.disk != nil && t.disk.dirty {
			t.commit()
		}
		if sweep {
			t.sweepAll("after " + s.Op)
		}
	}
	x.CurStep = len(p.Steps)
	t.sweepAll("at the end")
	t.checkRoot("end")
	if t.writes >= 3 && (!x.Is("C03 C04") || t.hit > 0) {
		x.Nontrivial()
	}
}

func (t *treeRun) top() *layer { return t.ls[len(t.ls)-1] }

// guard runs a tree operation; a storage failure is followed by crash and recovery.
func (t *treeRun) guard(what string, f func()) bool {
	pi := h.Catch(f)
	if pi == nil {
		return true
	}
	if df, ok := pi.Val.(diskFault); ok {
		t.x.Count("fault.storage_" + df.kind + "_failure")
		t.x.Log("%s: storage failure, crash", what)
		t.hit++
		t.crash(0)
		return false
	}
	if !pi.Repo {
		panic(pi.Val)
	}
	props := treeProps
	t.x.Fail(props, pi.Class(), "%s: %s", what, pi)
	return false
}

func (t *treeRun) commit() {
	t.disk.commit()
	t.hist = append(t.hist, copyEntries(t.ls[0].m))
}

func (t *treeRun) crash(lose int) {
	x := t.x
	if t.disk == nil {
		return
	}
	if len(t.ls) > 1 || t.disk.dirty {
		t.hit++
		x.Count("crash_with_pending_state")
	}
	n := t.disk.crash(lose)
	x.Count("fault.crash")
	x.CountN("fault.lost_commit", n)
	if n > 0 {
		t.hit++
	}
	t.hist = t.hist[:len(t.hist)-n]
	m := copyEntries(t.hist[len(t.hist)-1])
	t.ls = []*layer{{store: t.disk, t: &tree.PMTree{Store: t.disk}, m: m}}
	t.crashN++
	t.sweepAll("after crash")
	t.checkRootLayer("after crash", 0)
}

func (t *treeRun) step(s *h.Step) {
	x := t.x
	x.Count("op." + s.Op)
	l := t.top()
	switch s.Op {
	case "put":
		t.write(len(t.ls)-1, t.keys[s.Mod(0, len(t.keys))], valueOf(s.Arg(1), s.Arg(2)))
	case "same":
		k := t.keys[s.Mod(0, len(t.keys))]
		t.write(len(t.ls)-1, k, append([]byte(nil), l.m[k]...))
	case "edit":
		// A value that differs in a detail from the one it replaces.
		k := t.keys[s.Mod(0, len(t.keys))]
		t.write(len(t.ls)-1, k, editValue(l.m[k], s.Arg(1), s.Mod(2, 8)))
	case "bulk":
		t.many(s.Mod(0, len(t.keys)), s.Mod(1, 2*len(t.keys)+1), func(i int) []byte { return valueOf(s.Arg(2)+int64(i), s.Arg(2)+int64(i)) })
	case "thin":
		n := 1 + s.Mod(2, 8)
		t.many(s.Mod(0, len(t.keys)), s.Mod(1, 2*len(t.keys)+1), func(i int) []byte {
			if k := t.keys[i]; i%n != 0 {
				return l.m[k]
			}
			return nil
		})
	case "del":
		var v []byte
		if s.Arg(0)%2 == 1 {
			v = []byte{}
		}
		t.write(len(t.ls)-1, t.keys[s.Mod(0, len(t.keys))], v)
	case "get":
		t.lookup(len(t.ls)-1, t.keys[s.Mod(0, len(t.keys))], "get")
	case "push":
		if len(t.ls) >= 4 {
			return
		}
		var ov *tree.OverlayStore
		if t.zero {
			ov = &tree.OverlayStore{Lower: l.store}
		} else {
			ov = tree.NewOverlayStore(l.store)
		}
		t.ls = append(t.ls, &layer{store: ov, ov: ov, t: &tree.PMTree{Store: ov}, m: copyEntries(l.m)})
		x.Log("push overlay %d", len(t.ls)-1)
	case "flush":
		if l.ov == nil {
			return
		}
		x.Log("flush overlay %d", len(t.ls)-1)
		if !t.guard("flush", l.ov.Flush) {
			return
		}
		if l.wrote {
			t.hit++
			x.Count("flush_with_changes")
		}
		lower := t.ls[len(t.ls)-2]
		lower.m = copyEntries(l.m)
		lower.wrote = lower.wrote || l.wrote
		l.wrote = false
		t.sweepAll("after flush")
		t.checkRoot("after flush")
	case "discard":
		if l.ov == nil {
			return
		}
		if l.wrote {
			t.hit++
			x.Count("fault.discard_with_changes")
		}
		t.ls = t.ls[:len(t.ls)-1]
		x.Log("discard overlay")
		t.sweepAll("after discard")
		t.checkRoot("after discard")
	case "crash":
		x.Log("crash losing up to %d commits", s.Arg(0))
		t.crash(s.Mod(0, 8))
	case "fail":
		if t.disk != nil {
			t.disk.failAt = s.Mod(0, 64)
			t.disk.failOn = s.Mod(1, 2)
		}
	case "commit":
		if t.disk != nil && t.disk.dirty {
			t.commit()
			x.Log("commit")
		}
	case "sync":
		if t.disk != nil {
			t.disk.sync()
		}
	case "reopen":
		for _, l := range t.ls {
			l.t = &tree.PMTree{Store: l.store}
		}
		x.Count("fault.reopen")
	case "low":
		// Work on a lower layer: reads always, writes when nothing above has pending changes.
		i := s.Mod(0, len(t.ls))
		k := t.keys[s.Mod(1, len(t.keys))]
		for _, u := range t.ls[i+1:] {
			if u.wrote {
				t.lookup(i, k, "low")
				return
			}
		}
		if s.Arg(2)%3 == 0 {
			t.write(i, k, nil)
		} else {
			t.write(i, k, valueOf(s.Arg(2), s.Arg(2)%50))
		}
		for j := i + 1; j < len(t.ls); j++ {
			t.ls[j].m = copyEntries(t.ls[i].m)
		}
		t.sweepAll("after low write")
	}
}

func editValue(old []byte, seed int64, how int) []byte {
	v := append([]byte(nil), old...)
	r := h.NewRand(uint64(seed))
	if len(v) == 0 {
		return r.Bytes(1 + r.Intn(100))
	}
	at := r.Intn(len(v))
	switch how {
	case 0, 1, 2:
		v[at] ^= 1 << uint(r.Intn(8))
	case 3:
		v[len(v)-1]++
	case 4:
		v = append(v, byte(r.Intn(3)))
	case 5:
		v = v[:at]
	case 6:
		v = append(v, v...)
		if len(v) > 70000 {
			v = v[:70000]
		}
	case 7:
		o := r.Intn(len(v))
		v[at], v[o] = v[o], v[at]
	}
	return v
}

// many writes a run of keys of the top layer.
func (t *treeRun) many(from, n int, val func(i int) []byte) {
	x, l := t.x, t.top()
	for j := 0; j < n; j++ {
		i := (from + j) % len(t.keys)
		k, v := t.keys[i], val(i)
		want := !bytes.Equal(l.m[k], v)
		var got bool
		if !t.guard("put", func() { got = l.t.PutEntry(t.key(k), v) }) {
			return
		}
		l.wrote = true
		if len(v) == 0 {
			delete(l.m, k)
		} else {
			l.m[k] = v
		}
		if want {
			t.writes++
		}
		if got != want {
			t.observe("C02", "changed flag", "write %d of many: %s to %x reported changed=%v", j, short(v), k[:], got)
		}
	}
	x.Log("wrote %d keys", n)
	t.sweepAll("after many writes")
	t.checkRoot("after many writes")
}

func (t *treeRun) write(i int, k [20]byte, v []byte) {
	x, l := t.x, t.ls[i]
	old := l.m[k]
	want := !bytes.Equal(old, v)
	var got bool
	if !t.guard("put", func() { got = l.t.PutEntry(t.key(k), v) }) {
		return
	}
	l.wrote = true
	if len(v) == 0 {
		delete(l.m, k)
	} else {
		l.m[k] = v
	}
	if want {
		t.writes++
	}
	x.Log("put layer %d %x = %s changed=%v", i, k[:], short(v), got)
	if got != want {
		t.observe("C02", "changed flag", "write of %s over %s to %x reported changed=%v", short(v), short(old), k[:], got)
	}
	t.lookup(i, k, "after write")
	t.checkRootLayer("after write", i)
}

// observe reports something wrong. A run for the roots goes on when only a lookup
// was wrong and the other way round: the model does not depend on the answers.
func (t *treeRun) observe(props, class, format string, a ...interface{}) {
	if t.x.Is(props) || !t.x.Is("C01 C02") {
		t.x.Fail(props, class, format, a...)
	}
	t.x.Count("other_property_violated")
}

// propsAt names the properties a wrong observation at a layer contradicts.
func (t *treeRun) propsAt(base string) string {
	p := base
	if t.crashN > 0 || t.x.Is("C03") && t.disk != nil {
		p += " C03"
	}
	if t.x.Plan != nil && (len(t.ls) > 1 || t.x.Is("C04")) {
		p += " C04"
	}
	return p
}

func (t *treeRun) lookup(i int, k [20]byte, when string) {
	if i >= len(t.ls) {
		return
	}
	l := t.ls[i]
	var got []byte
	if !t.guard("get", func() { got = l.t.GetEntry(t.key(k)) }) {
		return
	}
	want := l.m[k]
	if !bytes.Equal(got, want) {
		t.observe(t.propsAt("C02"), "wrong entry", "%s, layer %d of %d: %x is %s, expected %s", when, i, len(t.ls), k[:], short(got), short(want))
	}
}

func (t *treeRun) sweepAll(when string) {
	crashes := t.crashN
	for i := 0; i < len(t.ls); i++ {
		for _, k := range t.keys {
			t.lookup(i, k, when)
			if t.crashN != crashes {
				return
			}
		}
	}
	t.x.CountN("lookups", len(t.ls)*len(t.keys))
}

func (t *treeRun) checkRoot(when string) {
	for i := range t.ls {
		c := t.crashN
		t.checkRootLayer(when, i)
		if c != t.crashN {
			return
		}
	}
}

func (t *treeRun) checkRootLayer(when string, i int) {
	if i >= len(t.ls) {
		return
	}
	l := t.ls[i]
	var got [32]byte
	if !t.guard("hash", func() { got = l.t.Hash() }) {
		return
	}
	want := refRoot(l.m)
	t.x.State(h.HashBytes(want[:]))
	t.x.Note(got[:])
	if got != want {
		t.observe(t.propsAt("C01"), "wrong root", "%s, layer %d of %d, %d entries: root is %x, expected %x", when, i, len(t.ls), len(l.m), got[:6], want[:6])
	}
	if i == 0 && t.disk != nil {
		t.audit(when)
	}
}

// key is the address as the caller passes it: some callers use one variable
// for all of them.
func (t *treeRun) key(k addr) *[20]byte {
	if t.oneKey {
		t.keyVar = k
		return &t.keyVar
	}
	return &k
}

// audit compares the nodes in storage with those the entries need.
func (t *treeRun) audit(when string) {
	want := refNodes(t.ls[0].m)
	missing, extra := "-", "-"
	for k := range want {
		if _, ok := t.disk.data[k]; !ok && (missing == "-" || k < missing) {
			missing = k
		}
	}
	for k := range t.disk.data {
		if !want[k] && (extra == "-" || k < extra) {
			extra = k
		}
	}
	if missing != "-" {
		t.observe("C01 C03", "node missing in storage", "%s: no node at %x for the %d entries", when, missing, len(t.ls[0].m))
	}
	if extra != "-" {
		t.observe("C03", "node left in storage", "%s: storage holds %d nodes, %d entries need %d; left over is %x", when, len(t.disk.data), len(t.ls[0].m), len(want), extra)
	}
}

// --- node level overlays ---

func genNodes(r *h.Rand) *h.Plan {
	p := &h.Plan{Scenario: "nodes", Cfg: map[string]int64{
		"disk": int64(r.Intn(2)), "zeroctor": int64(r.Intn(2)), "nprefix": int64(1 + r.Intn(6)), "layers": int64(1 + r.Intn(3)),
	}}
	n := 3 + r.Intn(40)
	if r.P(2) {
		// A lot of nodes written, then deleted or replaced in a layer above.
		size := int64([]int{200, 1100, 4200, 9000}[r.Weighted([]int{60, 20, 12, 8})])
		top := p.Cfg["layers"]
		p.Add("bulk", int64(r.Intn(2)), 0, size, int64(r.Intn(1<<20)))
		p.Add("bulk", top, int64(1+r.Intn(2)), size, int64(r.Intn(1<<20)))
		for i := top; i > 0; i-- {
			if r.P(85) {
				p.Add("flush", i)
			}
		}
		n = 1 + r.Intn(5)
	}
	for i := 0; i < n; i++ {
		switch r.Weighted([]int{30, 15, 15, 12, 5, 5, 3, 2}) {
		case 0:
			p.Add("put", int64(r.Intn(8)), int64(r.Intn(8)), int64(r.Intn(1<<20)))
		case 1:
			p.Add("del", int64(r.Intn(8)), int64(r.Intn(8)))
		case 2:
			p.Add("rmw", int64(r.Intn(8)), int64(r.Intn(8)), int64(r.Intn(1<<20)))
		case 3:
			p.Add("flush", int64(r.Intn(8)))
		case 4:
			p.Add("push")
		case 5:
			p.Add("discard")
		case 6:
			p.Add("crash")
		case 7:
			p.Add("fail", int64(1+r.Intn(6)))
		}
	}
	return p
}

type nodeLayer struct {
	store tree.Store
	ov    *tree.OverlayStore
	m     map[string][]byte // pending: nil marks a deletion (overlays), content (base)
}

func execNodes(x *h.Ctx, p *h.Plan) {
	var disk *simDisk
	var base tree.Store
	if p.Cfg["disk"] == 1 {
		disk = newSimDisk()
		base = disk
	} else {
		base = tree.NewMemStore()
	}
	ls := []*nodeLayer{{store: base, m: map[string][]byte{"": encodeNode(&tree.Branch{})}}}
	committed := map[string][]byte{"": encodeNode(&tree.Branch{})}
	push := func() {
		low := ls[len(ls)-1].store
		var ov *tree.OverlayStore
		if p.Cfg["zeroctor"] == 1 {
			ov = &tree.OverlayStore{Lower: low}
		} else {
			ov = tree.NewOverlayStore(low)
		}
		ls = append(ls, &nodeLayer{store: ov, ov: ov, m: map[string][]byte{}})
	}
	for i := 0; i < int(p.Cfg["layers"])%5; i++ {
		push()
	}
	np := int(p.Cfg["nprefix"])
	if np < 1 {
		np = 1
	}
	prefixes := make([]string, np)
	for i := range prefixes {
		b := make([]byte, 0, 4)
		for j := i; j > 0; j /= 2 {
			b = append(b, byte(j%2)*7+1)
		}
		prefixes[i] = string(b)
	}
	model := func(i int, k string) []byte {
		for ; i > 0; i-- {
			if v, ok := ls[i].m[k]; ok {
				return v
			}
		}
		return ls[0].m[k]
	}
	crash := func() {
		if disk == nil {
			return
		}
		x.Count("fault.crash")
		disk.crash(0)
		m := map[string][]byte{}
		for k, v := range committed {
			m[k] = v
		}
		ls = []*nodeLayer{{store: disk, m: m}}
		push()
	}
	guard := func(what string, f func()) bool {
		pi := h.Catch(f)
		if pi == nil {
			return true
		}
		if df, ok := pi.Val.(diskFault); ok {
			x.Count("fault.storage_" + df.kind + "_failure")
			crash()
			return false
		}
		if !pi.Repo {
			panic(pi.Val)
		}
		x.Fail("C04", pi.Class(), "%s: %s", what, pi)
		return false
	}
	var bulk []string
	check := func(when string) {
		keys := prefixes
		if when == "after flush" || when == "after bulk" || when == "after crash" {
			keys = append(append([]string(nil), prefixes...), bulk...)
		}
		for i := 0; i < len(ls); i++ {
			for _, k := range keys {
				var got []byte
				ok := guard("get", func() {
					if n := ls[i].store.GetNode(tree.Nibbles(k)); n != nil {
						got = encodeNode(n)
					}
				})
				if !ok {
					return
				}
				if want := model(i, k); !bytes.Equal(got, want) {
					x.Fail("C04", "wrong node", "%s: node %x at layer %d of %d is %s, expected %s", when, k, i, len(ls), short(got), short(want))
				}
			}
		}
	}
	writes, hits := 0, 0
	for si := range p.Steps {
		s := &p.Steps[si]
		x.CurStep = si
		x.Count("op.node_" + s.Op)
		i := s.Mod(0, len(ls))
		k := prefixes[s.Mod(1, np)]
		set := func(b []byte) {
			if i == 0 && b == nil {
				delete(ls[0].m, k)
			} else {
				ls[i].m[k] = b
			}
			writes++
		}
		switch s.Op {
		case "put":
			n := randNode(k, s.Arg(2))
			b := encodeNode(n)
			if guard("put", func() { ls[i].store.PutNode(tree.Nibbles(k), n) }) {
				set(b)
			}
		case "del":
			if guard("del", func() { ls[i].store.DelNode(tree.Nibbles(k)) }) {
				set(nil)
			}
		case "bulk":
			n := s.Mod(2, 10000)
			for j := len(bulk); j < n; j++ {
				bulk = append(bulk, string([]byte{15, byte(j & 15), byte(j >> 4 & 15), byte(j >> 8 & 15), byte(j >> 12)}))
			}
			r := h.NewRand(uint64(s.Arg(3)))
			kind := s.Mod(1, 3)
			ok := guard("bulk", func() {
				for _, k := range bulk {
					if kind == 1 || kind == 2 && r.P(50) {
						ls[i].store.DelNode(tree.Nibbles(k))
						if ls[i].m[k] = nil; i == 0 {
							delete(ls[0].m, k)
						}
						continue
					}
					n := randNode(k, int64(r.Intn(1<<20)))
					b := encodeNode(n)
					ls[i].store.PutNode(tree.Nibbles(k), n)
					ls[i].m[k] = b
				}
			})
			if ok {
				writes++
			}
		case "rmw":
			// What the tree does: read a branch, change it in place, write it back.
			var b []byte
			ok := guard("rmw", func() {
				br, is := ls[i].store.GetNode(tree.Nibbles(k)).(*tree.Branch)
				if !is {
					return
				}
				c := &br.Children[s.Arg(2)%16&15]
				c.Exists = !c.Exists
				c.Suffix = tree.Nibbles{byte(s.Arg(2) % 16 & 15)}
				c.Hash[0] = byte(s.Arg(2))
				ls[i].store.PutNode(tree.Nibbles(k), br)
				b = encodeNode(br)
			})
			if ok && b != nil {
				set(b)
			}
		case "flush":
			if ls[i].ov == nil {
				continue
			}
			if !guard("flush", ls[i].ov.Flush) {
				break
			}
			if len(ls[i].m) > 0 {
				hits++
			}
			for k, b := range ls[i].m {
				if i-1 == 0 && b == nil {
					delete(ls[0].m, k)
				} else {
					ls[i-1].m[k] = b
				}
			}
			ls[i].m = map[string][]byte{}
		case "push":
			if len(ls) < 5 {
				push()
			}
		case "discard":
			if len(ls) > 1 {
				if len(ls[len(ls)-1].m) > 0 {
					hits++
					x.Count("fault.discard_with_changes")
				}
				ls = ls[:len(ls)-1]
			}
		case "crash":
			crash()
		case "fail":
			if disk != nil {
				disk.failAt = s.Mod(0, 64)
				disk.failOn = 0
			}
			continue
		}
		check("after " + s.Op)
		if disk != nil && disk.dirty {
			disk.commit()
			committed = map[string][]byte{}
			for k, v := range ls[0].m {
				committed[k] = v
			}
		}
		for i := range ls {
			for _, k := range prefixes {
				x.Note(model(i, k))
			}
		}
		x.State(stateOf(ls, prefixes, model))
	}
	if writes >= 3 && hits > 0 {
		x.Nontrivial()
	}
}

func stateOf(ls []*nodeLayer, prefixes []string, model func(int, string) []byte) uint64 {
	var v uint64
	for i := range ls {
		for _, k := range prefixes {
			v = h.Mix(v ^ h.HashBytes(model(i, k)) + uint64(i))
		}
	}
	return v
}

func randNode(prefix string, seed int64) tree.Node {
	r := h.NewRand(uint64(seed))
	pre := append(tree.Nibbles(nil), prefix...)
	if r.P(40) {
		return &tree.Leaf{Prefix: pre, Value: r.Bytes(1 + r.Intn(6))}
	}
	b := &tree.Branch{Prefix: pre}
	for i := 0; i < 3; i++ {
		c := &b.Children[r.Intn(16)]
		c.Exists = true
		c.Suffix = tree.Nibbles{byte(r.Intn(16))}
		c.Hash[0] = byte(r.Intn(256))
	}
	return b
}

var _ = fmt.Sprint
