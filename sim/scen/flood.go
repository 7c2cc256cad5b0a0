package scen

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime"
	"runtime/metrics"

	"nimsim/h"
	"nimsim/simrt"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/wire"
)

// The flood scenario: a hostile sender announces more than it sends. A
// decoder gets the bytes of honest values with lengths and counts blown up at
// every place, cut short, or made up altogether, and what it allocates and
// how long it runs is held against the number of bytes it was given.

func init() {
	h.Register(&h.Scenario{Name: "flood", Exec: execFlood})
	h.RegisterCheck(&h.Check{Property: "C24", Quick: 40000, Thorough: 2500000, Gen: genFlood,
		Rule:    "at least one announced length or count was blown up, or one input cut short, before decoding.",
		Real:    []string{"beserial", "wire"},
		Stub:    []string{"network (the bytes received)", "memory (allocations are counted, not limited)", "time (statements executed are counted)"},
		Measure: "distinct (decoded type, place and size of the announced count, input size, verdict)",
		Assume: []string{"application types have fixed-size elements of at most 96 bytes per encoded byte",
			"allocation is what the Go runtime accounts for; elements that encode to no bytes are counted as work"},
		Faults: []string{"hostile_count", "truncate", "garbage", "extend"}})
}

func genFlood(r *h.Rand, tier string, idx int) *h.Plan {
	p := &h.Plan{Scenario: "flood"}
	for n := 1 + r.Intn(4); n > 0; n-- {
		// what, seed, kind, attack, amount of data behind
		what := r.Weighted([]int{40, 25, 35})
		op := []string{"frame", "item", "value"}[what]
		kinds := []int{nMessages, nItems, len(floodTypes)}[what]
		attack := r.Intn(4)
		if r.P(2) {
			attack = 4
		}
		p.Add(op, int64(r.U64()>>1), int64(r.Intn(kinds)), int64(attack), int64(r.Intn(4)))
	}
	return p
}

// --- types an application may define ---

type floodPoint struct {
	A uint32
	B [28]byte
	C uint64
}

type floodNode struct {
	Id   uint16
	Next *floodPoint `beserial:"optional"`
	Tags []uint16    `beserial:"len_tag=uint8"`
	Memo string      `beserial:"len_tag=uint32"`
}

type floodGroup struct {
	Nodes []floodNode  `beserial:"len_tag=uint32"`
	Refs  []*floodNode `beserial:"len_tag=uint16"`
	Blob  []byte       `beserial:"len_tag=uint64"`
}

type floodNone struct{}

var floodTypes = []interface{}{
	struct {
		L []uint64 `beserial:"len_tag=uint32"`
	}{},
	struct {
		L []uint64 `beserial:"len_tag=uint64"`
	}{},
	struct {
		L []floodPoint `beserial:"len_tag=uint16"`
	}{},
	struct {
		K uint8
		L []*floodPoint `beserial:"len_tag=uint32"`
		M []string      `json:"-" beserial:"len_tag=uint8"` // strings in lists have no place for a tag
	}{},
	struct {
		B []byte `beserial:"len_tag=uint32"`
	}{},
	struct {
		B []byte `beserial:"len_tag=uint64"`
		S string `beserial:"len_tag=uint64"`
	}{},
	struct {
		S string `beserial:"len_tag=uint32"`
		T string `beserial:"len_tag=uint16"`
	}{},
	floodGroup{},
	struct {
		G *floodGroup   `beserial:"optional"`
		H [3]floodGroup `json:"h"`
	}{},
	struct {
		L []floodGroup `beserial:"len_tag=uint64"`
	}{},
	struct {
		L []int8 `beserial:"len_tag=uint32"`
		M []int8 `beserial:"len_tag=uint64"`
	}{},
	struct {
		L []bool  `beserial:"len_tag=uint64,optional"`
		P *[]bool `beserial:"optional,len_tag=uint32"`
	}{},
	struct {
		L []floodNone `beserial:"len_tag=uint32"`
	}{},
	struct {
		L []custP `beserial:"len_tag=uint32"`
		M []custV `beserial:"len_tag=uint64"`
	}{},
	struct {
		L []wire.WrapTx  `beserial:"len_tag=uint32"`
		M []wire.BitSet  `beserial:"len_tag=uint32"`
		N []wire.Message `beserial:"len_tag=uint32"`
	}{},
	struct {
		L []recTree `beserial:"len_tag=uint32"`
		M []recLog  `beserial:"len_tag=uint64"`
	}{},
	recList{},
}

// floodBytes encodes something of the type: the counts are small, the data
// behind them is there.
func floodBytes(r *h.Rand, t reflect.Type, tag int, b []byte, deep int) []byte {
	if deep > 6 {
		return b
	}
	num := func(size int, u uint64) {
		var x [8]byte
		binary.BigEndian.PutUint64(x[:], u)
		b = append(b, x[8-size:]...)
	}
	switch t.Kind() {
	case reflect.Bool:
		return append(b, byte(r.Intn(2)))
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			b = floodBytes(r, t.Elem(), 0, b, deep+1)
		}
	case reflect.Slice, reflect.String:
		n := r.Geo(3)
		num(tag, uint64(n))
		for i := 0; i < n; i++ {
			if t.Kind() == reflect.String {
				b = append(b, byte(r.U64()))
			} else if t.Elem() != reflect.TypeOf("") {
				b = floodBytes(r, t.Elem(), 0, b, deep+1)
			}
		}
	case reflect.Ptr:
		return floodBytes(r, t.Elem(), tag, b, deep+1)
	case reflect.Interface:
	case reflect.Struct:
		switch t {
		case reflect.TypeOf(custP{}):
			n := r.Geo(3)
			return append(append(b, byte(n)), make([]byte, n)...)
		case reflect.TypeOf(wire.WrapTx{}):
			g := &wg{r, false}
			_, e := g.tx()
			return append(b, e...)
		case reflect.TypeOf(wire.BitSet{}):
			g := &wg{r, false}
			_, e := g.bitSet(g.bitLen())
			return append(b, e...)
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			opt, size := false, 0
			s := f.Tag.Get("beserial")
			for _, w := range [][2]interface{}{{"int8", 1}, {"int16", 2}, {"int32", 4}, {"int64", 8}} {
				if hasWord(s, w[0].(string)) {
					size = w[1].(int)
				}
			}
			opt = hasWord(s, "optional") && f.Type.Kind() == reflect.Ptr
			if opt {
				on := r.P(60)
				b = append(b, map[bool]byte{true: 1}[on])
				if !on {
					continue
				}
			}
			if f.Type.Kind() == reflect.Slice && f.Type.Elem().Kind() == reflect.String {
				b = append(b, 0)
				continue
			}
			b = floodBytes(r, f.Type, size, b, deep+1)
		}
	default:
		if t == reflect.TypeOf(custV(0)) {
			return append(b, 1, 2, 0x55)
		}
		num(int(t.Size()), r.U64())
	}
	return b
}

func hasWord(s, w string) bool {
	for i := 0; i+len(w) <= len(s); i++ {
		if s[i:i+len(w)] == w {
			return true
		}
	}
	return false
}

type floodRun struct {
	x       *h.Ctx
	per     int // bytes allocated per byte received, at most
	samples []metrics.Sample
}

func execFlood(x *h.Ctx, p *h.Plan) {
	f := &floodRun{x: x, samples: []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}}
	for i := range p.Steps {
		x.CurStep = i
		f.per = floodPer
		s := &p.Steps[i]
		r := h.NewRand(s.UArg(0))
		bulk := s.Mod(2, 5) == 4
		g := &wg{r, bulk}
		var name string
		var ref []byte
		var dec func(b []byte) error
		switch s.Op {
		case "frame":
			m, typ, b := g.message(s.Mod(1, nMessages))
			name, ref = fmt.Sprintf("%T", m), b
			dec = func(b []byte) error { _, err := wire.UnmarshalMessage(typ, b); return err }
		case "item":
			kind := s.Mod(1, nItems)
			v, b := g.item(kind)
			name, ref = fmt.Sprintf("%T", v), b
			dec = func(b []byte) error { _, err := beserial.Unmarshal(b, blank(kind)); return err }
		case "value":
			kind := s.Mod(1, len(floodTypes))
			t := reflect.TypeOf(floodTypes[kind])
			name, ref = fmt.Sprintf("type %d (%s)", kind, t), floodBytes(r, t, 0, nil, 0)
			if bulk {
				kind = 13
				t = reflect.TypeOf(floodTypes[kind])
				n := 3000 + r.Intn(30000)
				if r.P(40) {
					f.huge(s, r)
					continue
				}
				name, ref = fmt.Sprintf("type %d (%s)", kind, t), append(make([]byte, 4+7, 4+8+3*n), byte(n))
				binary.BigEndian.PutUint64(ref[4:], uint64(n))
				ref = append(ref, r.Bytes(3*n)...)
			}
			dec = func(b []byte) error { _, err := beserial.Unmarshal(b, reflect.New(t).Interface()); return err }
		default:
			continue
		}
		f.attack(s, r, name, ref, dec)
	}
}

// huge decodes bytes or text of up to a megabyte, which nothing but a little more than
// themselves is needed for.
func (f *floodRun) huge(s *h.Step, r *h.Rand) {
	v, w := floodTypes[4], 4
	switch r.Intn(3) {
	case 1:
		v, w = floodTypes[5], 8
	case 2:
		v = floodTypes[6]
	}
	n := 100_000 + r.Intn(1_000_000)
	ref := make([]byte, w+n+8)
	if w == 8 {
		binary.BigEndian.PutUint64(ref, uint64(n))
	} else {
		binary.BigEndian.PutUint32(ref, uint32(n))
	}
	t := reflect.TypeOf(v)
	f.per = floodPlain
	f.attack(s, r, fmt.Sprintf("type %s", t), ref, func(b []byte) error { _, err := beserial.Unmarshal(b, reflect.New(t).Interface()); return err })
}

// attack decodes variants of an honest encoding.
func (f *floodRun) attack(s *h.Step, r *h.Rand, name string, ref []byte, dec func([]byte) error) {
	x := f.x
	behind := []int{0, 0, 3 + r.Intn(200), 1000 + r.Intn(6000)}[s.Mod(3, 4)]
	switch s.Mod(2, 5) {
	case 4: // much honest data, some of it missing
		x.Count("op.bulk")
		f.decode(name, append([]byte(nil), ref...), "bulk", dec, 0)
		for i := 0; i < 2 && len(ref) > 0; i++ {
			cut := r.Intn(len(ref))
			x.Count("fault.truncate")
			f.decode(name, append([]byte(nil), ref[:cut]...), "bulk, truncate", dec, uint64(cut)<<8)
		}
	case 0, 1: // announce more than there is, at every place
		step := 1 + len(ref)/120
		for i := r.Intn(step); i < len(ref); i += step {
			w := []int{1, 2, 4, 8}[r.Intn(4)]
			if r.P(50) {
				w = 2
			}
			if i+w > len(ref) {
				continue
			}
			cut := len(ref)
			if r.P(40) {
				cut = i + w + r.Intn(len(ref)-i-w+1)
			}
			b := append(append([]byte(nil), ref[:cut]...), make([]byte, behind)...)
			if behind > 0 && r.P(50) {
				r.Fill(b[cut:])
			}
			// Counts are either within what a machine could allocate, so that a
			// faulty decoder is caught and not killed, or beyond any machine.
			var c [8]byte
			u := uint64(1)<<uint(10+r.Intn(11)) + uint64(r.Intn(99))
			if w == 8 && r.P(30) {
				u = []uint64{1<<63 - 1, 1 << 62, 1 << 63, 1<<64 - 1, 1 << 60}[r.Intn(5)]
			}
			if w <= 2 {
				u = []uint64{0xffff, 0xfffe, 0x8000, 0x7fff, 0xff00, 0xff}[r.Intn(6)]
			}
			binary.BigEndian.PutUint64(c[:], u)
			copy(b[i:], c[8-w:])
			x.Count("fault.hostile_count")
			f.decode(name, b, fmt.Sprintf("count at %d of %d bytes", i, w), dec, uint64(i)<<8|uint64(w))
		}
	case 2: // end early
		step := 1 + len(ref)/60
		for i := r.Intn(step); i <= len(ref); i += step {
			x.Count("fault.truncate")
			f.decode(name, append([]byte(nil), ref[:i]...), "truncate", dec, uint64(i)<<8)
		}
	default: // make it up
		for n := 0; n < 12; n++ {
			b := r.Bytes(r.Geo(60))
			fill := []byte{0xff, 0x01, 0x00, 0x10}[r.Intn(4)]
			for i := range b {
				if r.P(45) {
					b[i] = fill
				}
			}
			// No count of the widest tags may cost more than the machine has.
			for i := range b {
				if fill == 0xff && i%8 >= 2 && r.P(30) {
					b[i] = 0
				}
			}
			if len(b) > 0 && r.P(30) {
				b[0] = byte(r.Intn(4))
			}
			x.Count("fault.garbage")
			if behind > 0 {
				b = append(b, make([]byte, behind)...)
				x.Count("fault.extend")
			}
			f.decode(name, b, "garbage", dec, uint64(len(b))<<8)
		}
	}
}

const (
	floodConst = 64 << 10
	floodPer   = 1024
	floodPlain = 64 // where bytes and text are all there is
	stepsConst = 4000
	stepsPer   = 200
)

// decode decodes once and judges what that took.
func (f *floodRun) decode(name string, b []byte, how string, dec func([]byte) error, place uint64) {
	x := f.x
	bound := uint64(floodConst + f.per*len(b))
	var err error
	metrics.Read(f.samples)
	before := f.samples[0].Value.Uint64()
	t0, _ := simrt.Counters()
	if pi := h.Catch(func() { err = dec(b) }); pi != nil {
		x.Fail("C24", "decoding panics", "decoding %d bytes as %s (%s): %v; input %s", len(b), name, how, pi, hexs(b))
	}
	t1, _ := simrt.Counters()
	metrics.Read(f.samples)
	x.Nontrivial()
	x.Count("op.decode")
	verdict := "refused"
	if err == nil {
		verdict = "decoded"
	}
	x.Log("%s, %d bytes, %s: %s", name, len(b), how, verdict)
	x.State(h.HashBytes([]byte(name+verdict)) ^ h.Mix(place<<20|uint64(len(b))))
	if f.samples[0].Value.Uint64()-before > bound/2 {
		// The runtime counts in spans: look closer, and take the least of
		// three, as the rest of the process may allocate as well.
		least := ^uint64(0)
		for i := 0; i < 3; i++ {
			var m0, m1 runtime.MemStats
			runtime.ReadMemStats(&m0)
			h.Catch(func() { dec(b) })
			runtime.ReadMemStats(&m1)
			if d := m1.TotalAlloc - m0.TotalAlloc; d < least {
				least = d
			}
		}
		x.Count("op.measured_again")
		if least > bound {
			x.Fail("C24", "allocation out of proportion", "decoding %d bytes as %s (%s) allocated more than %d KiB; input %s", len(b), name, how, bound>>10, hexs(b))
		}
	}
	if work, most := t1-t0, uint64(stepsConst+stepsPer*len(b)); work > most {
		for i := 0; i < 2 && work > most; i++ { // what is done once does not count
			t0, _ = simrt.Counters()
			h.Catch(func() { dec(b) })
			t1, _ = simrt.Counters()
			work = min(work, t1-t0)
		}
		if work > most {
			x.Fail("C24", "work out of proportion", "decoding %d bytes as %s (%s) took %d statements; input %s", len(b), name, how, work, hexs(b))
		}
	}
}
