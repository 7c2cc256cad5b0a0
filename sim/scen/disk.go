package scen

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"sort"

	"golang.org/x/crypto/blake2b"
	"nimsim/h"
	"terorie.dev/nimiq/tree"
)

// diskFault is the panic value of an injected storage failure.
type diskFault struct{ kind string }

func (d diskFault) Error() string { return "storage failure: " + d.kind }

// simDisk is a node store that keeps only bytes. Writes become durable in
// commit groups; a crash drops everything uncommitted and may lose commits
// that were never synced.
type simDisk struct {
	data    map[string][]byte // what reads see
	commits []map[string][]byte
	synced  int // commits[:synced+1] cannot be lost
	undo    map[string][]byte
	failAt  int // accesses until the injected failure (0: none)
	failOn  int // 0 any access, 1 writes only
	reads   int
	writes  int
	dirty   bool
	fired   int // injected failures so far
	opaque  map[string]tree.Node
}

func newSimDisk() *simDisk {
	d := &simDisk{data: map[string][]byte{}, undo: map[string][]byte{}}
	d.data[""] = encodeNode(&tree.Branch{})
	d.commit()
	d.synced = 0
	return d
}

func encodeNode(n tree.Node) []byte {
	switch n := n.(type) {
	case *tree.Branch:
		b := []byte{1, byte(len(n.Prefix))}
		b = append(b, n.Prefix...)
		for i := range n.Children {
			c := &n.Children[i]
			if !c.Exists {
				b = append(b, 0)
				continue
			}
			b = append(b, 1, byte(len(c.Suffix)))
			b = append(b, c.Suffix...)
			b = append(b, c.Hash[:]...)
		}
		return b
	case *tree.Leaf:
		b := []byte{2, byte(len(n.Prefix))}
		b = append(b, n.Prefix...)
		var l [4]byte
		binary.BigEndian.PutUint32(l[:], uint32(len(n.Value)))
		b = append(b, l[:]...)
		return append(b, n.Value...)
	default:
		return nil
	}
}

func decodeNode(b []byte) tree.Node {
	kind := b[0]
	pl := int(b[1])
	var prefix tree.Nibbles
	if pl > 0 {
		prefix = append(tree.Nibbles(nil), b[2:2+pl]...)
	}
	b = b[2+pl:]
	if kind == 2 {
		l := int(binary.BigEndian.Uint32(b))
		return &tree.Leaf{Prefix: prefix, Value: append([]byte(nil), b[4:4+l]...)}
	}
	n := &tree.Branch{Prefix: prefix}
	for i := range n.Children {
		e := b[0]
		b = b[1:]
		if e == 0 {
			continue
		}
		c := &n.Children[i]
		c.Exists = true
		l := int(b[0])
		c.Suffix = append(tree.Nibbles(nil), b[1:1+l]...)
		copy(c.Hash[:], b[1+l:])
		b = b[1+l+32:]
	}
	return n
}

func (d *simDisk) access(write bool) {
	if write {
		d.writes++
	} else {
		d.reads++
	}
	if d.failAt > 0 && (d.failOn == 0 || write) {
		d.failAt--
		if d.failAt == 0 {
			k := "read"
			if write {
				k = "write"
			}
			d.fired++
			panic(diskFault{k})
		}
	}
}

func (d *simDisk) GetNode(k tree.Nibbles) tree.Node {
	d.access(false)
	if n, ok := d.opaque[string(k)]; ok {
		return n
	}
	b, ok := d.data[string(k)]
	if !ok {
		return nil
	}
	return decodeNode(b)
}

func (d *simDisk) remember(k string) {
	d.dirty = true
	if _, ok := d.undo[k]; !ok {
		d.undo[k] = d.data[k]
	}
}

func (d *simDisk) PutNode(k tree.Nibbles, n tree.Node) {
	d.access(true)
	d.remember(string(k))
	b := encodeNode(n)
	if b == nil {
		if d.opaque == nil {
			d.opaque = map[string]tree.Node{}
		}
		d.opaque[string(k)] = n
		return
	}
	d.data[string(k)] = b
}

func (d *simDisk) DelNode(k tree.Nibbles) {
	d.access(true)
	d.remember(string(k))
	delete(d.data, string(k))
}

// commit makes the pending writes a commit group. Its undo record allows to lose it later.
func (d *simDisk) commit() {
	d.commits = append(d.commits, d.undo)
	d.undo = map[string][]byte{}
	d.dirty = false
}

// sync makes all commits safe.
func (d *simDisk) sync() { d.synced = len(d.commits) - 1 }

func (d *simDisk) rollback(u map[string][]byte) {
	for k, v := range u {
		if v == nil {
			delete(d.data, k)
		} else {
			d.data[k] = v
		}
	}
}

// crash drops pending writes and loses up to lose unsynced commits. It returns
// the number of commits lost.
func (d *simDisk) crash(lose int) int {
	d.rollback(d.undo)
	d.undo = map[string][]byte{}
	d.dirty = false
	d.failAt = 0
	n := 0
	for n < lose && len(d.commits)-1 > d.synced {
		last := len(d.commits) - 1
		d.rollback(d.commits[last])
		d.commits = d.commits[:last]
		n++
	}
	return n
}

func (d *simDisk) digest() uint64 {
	keys := make([]string, 0, len(d.data))
	for k := range d.data {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var v uint64
	for _, k := range keys {
		v = h.Mix(v ^ h.HashBytes([]byte(k)) ^ h.HashBytes(d.data[k])*3)
	}
	return v
}

// --- reference root ---

type refEntry struct {
	hex string
	val []byte
}

func refLeaf(hexKey string, val []byte) [32]byte {
	buf := make([]byte, 0, 42+len(val))
	buf = append(buf, 0xFF, 40)
	buf = append(buf, hexKey...)
	buf = append(buf, val...)
	return blake2b.Sum256(buf)
}

// refRoot is the Patricia-Merkle root of a set of entries.
func refRoot(m map[[20]byte][]byte) [32]byte {
	es := make([]refEntry, 0, len(m))
	for k, v := range m {
		es = append(es, refEntry{hex.EncodeToString(k[:]), v})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].hex < es[j].hex })
	return refBranch("", es)
}

func refBranch(prefix string, es []refEntry) [32]byte {
	buf := []byte{0, byte(len(prefix))}
	buf = append(buf, prefix...)
	at := len(buf)
	buf = append(buf, 0)
	for i := 0; i < len(es); {
		j := i + 1
		for j < len(es) && es[j].hex[len(prefix)] == es[i].hex[len(prefix)] {
			j++
		}
		var suffix string
		var sum [32]byte
		if j == i+1 {
			suffix = es[i].hex[len(prefix):]
			sum = refLeaf(es[i].hex, es[i].val)
		} else {
			a, b := es[i].hex, es[j-1].hex
			n := len(prefix)
			for a[n] == b[n] {
				n++
			}
			suffix = a[len(prefix):n]
			sum = refBranch(a[:n], es[i:j])
		}
		buf = append(buf, byte(len(suffix)))
		buf = append(buf, suffix...)
		buf = append(buf, sum[:]...)
		buf[at]++
		i = j
	}
	return blake2b.Sum256(buf)
}

// refNodes lists the prefixes of the nodes of the tree of a set of entries.
func refNodes(m map[[20]byte][]byte) map[string]bool {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, string(tree.KeyToNibbles(&k)))
	}
	sort.Strings(ks)
	ns := map[string]bool{"": true}
	for i, k := range ks {
		ns[k] = true
		if i > 0 {
			// Neighbours part at a branch.
			n := 0
			for ks[i-1][n] == k[n] {
				n++
			}
			ns[k[:n]] = true
		}
	}
	return ns
}

func short(b []byte) string {
	if len(b) > 8 {
		return fmt.Sprintf("%x..(%d)", b[:8], len(b))
	}
	return fmt.Sprintf("%x", b)
}
