package scen

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"reflect"
	"sort"

	"nimsim/h"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/wire"
)

// The wire scenario: one node talks to another over a simulated network. Time
// is discrete; frames are cut into fragments, delayed, reordered, duplicated,
// lost and (for C13) damaged. The receiver assembles every frame in one and the
// same buffer.

func init() {
	h.Register(&h.Scenario{Name: "wire", Exec: execWire})
	real := []string{"wire", "beserial"}
	stub := []string{"network (discrete-event link)", "clock", "sender and receiver loop"}
	h.RegisterCheck(&h.Check{Property: "C12", Quick: 60000, Thorough: 1600000, Gen: genWire("C12"),
		Rule: "at least two messages were encoded, sent over the simulated link and decoded from the shared receive buffer.",
		Real: real, Stub: stub, Measure: "distinct (message kind, payload size, fault kinds of the frame)",
		Faults: []string{"drop", "duplicate", "reorder", "delay", "fragment", "buffer_reuse", "sender_scribble"}})
	h.RegisterCheck(&h.Check{Property: "C13", Quick: 36000, Thorough: 900000, Gen: genWire("C13"),
		Rule: "at least one damaged frame reached the decoder.",
		Real: real, Stub: stub, Measure: "distinct (message kind, damage kinds, verdict, payload size)",
		Faults: []string{"bit_flip", "truncate", "extend", "hostile_count", "wrong_type", "splice", "garbage", "drop", "duplicate", "reorder"}})
}

func genWire(id string) func(r *h.Rand, tier string, idx int) *h.Plan {
	return func(r *h.Rand, tier string, idx int) *h.Plan {
		p := &h.Plan{Scenario: "wire", Cfg: map[string]int64{}}
		n := 3 + r.Intn(14)
		big := 0
		if r.P(6) {
			big = 1
		}
		p.Cfg["big"] = int64(big)
		lossy, dup := 0, 0
		if r.P(30) {
			lossy = 10 + r.Intn(30)
		}
		if r.P(50) {
			dup = 10 + r.Intn(40)
		}
		jitter := 1 + r.Intn(300)
		for i := 0; i < n; i++ {
			if r.P(25) {
				if id == "C12" {
					p.Add("item", int64(r.U64()>>1), int64(r.Intn(nItems)), int64(r.Geo(3)), int64(r.Intn(40)))
				} else {
					p.Add("badItem", int64(r.U64()>>1), int64(r.Intn(nItems)), int64(1+r.Intn(6)))
				}
				continue
			}
			kind := int64(r.Intn(nMessages))
			if r.P(25) {
				kind = []int64{0, 6, 6, 8, 10}[r.Intn(5)]
			}
			var flags int64
			if r.P(lossy) {
				flags |= 1
			}
			if r.P(dup) {
				flags |= 2
			}
			if r.P(50) {
				flags |= 4 // sender reuses the message object
			}
			frag := int64(0)
			if r.P(60) {
				frag = int64(1 + r.Intn(200))
			}
			op := "send"
			dmg := int64(0)
			if id == "C13" {
				dmg = int64(1 + r.Intn(3))
				switch {
				case r.P(6):
					op = "sweep"
				case r.P(12):
					dmg = 0
				}
			}
			p.Add(op, int64(r.U64()>>1), kind, flags, int64(r.Intn(jitter)), frag, dmg)
			if r.P(30) {
				p.Add("tick", int64(r.Intn(2*jitter)))
			}
		}
		return p
	}
}

type frame struct {
	at, seq int
	b       []byte // type and payload
	seed    uint64 // recreates the message
	kind    int
	intact  bool
	frag    int
	dmg     string
}

type wireRun struct {
	x     *h.Ctx
	big   bool
	now   int
	seq   int
	last  int // highest seq delivered
	queue []*frame
	rx    []byte
	tx    []byte // send buffer of the sender
	kept  []kept
	got   int
}

type kept struct {
	m    interface{}
	f    *frame
	item bool
}

func execWire(x *h.Ctx, p *h.Plan) {
	w := &wireRun{x: x, big: p.Cfg["big"] != 0, last: -1}
	for i := range p.Steps {
		x.CurStep = i
		s := &p.Steps[i]
		switch s.Op {
		case "send":
			w.send(s)
		case "sweep":
			w.sweep(s)
		case "tick":
			w.run(w.now + s.Mod(0, 1<<20))
		case "item":
			w.item(s)
		case "badItem":
			w.badItem(s)
		}
	}
	w.run(1 << 60)
	w.checkKept()
	if x.Is("C12") && w.got >= 2 {
		x.Nontrivial()
	}
}

func (w *wireRun) gen(seed uint64, kind int) (wire.Message, uint64, []byte) {
	g := &wg{h.NewRand(seed), w.big}
	return g.message(kind)
}

func (w *wireRun) regenItem(seed uint64, kind int) (interface{}, []byte) {
	g := &wg{h.NewRand(seed), w.big}
	return g.item(kind)
}

// guard runs code of the repository that must not panic.
func (w *wireRun) guard(props, what string, f func()) {
	if pi := h.Catch(f); pi != nil {
		if !pi.Repo {
			panic(pi.Val)
		}
		w.x.Fail(props, pi.Class(), "%s: %s", what, pi)
	}
}

func hexs(b []byte) string {
	if len(b) > 96 {
		return hex.EncodeToString(b[:96]) + fmt.Sprintf("... (%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

func predefined(kind int) bool { return kind == 9 || kind == 14 || kind == 17 }

// encode checks everything C12 says about encoding and returns the frame.
func (w *wireRun) encode(seed uint64, kind int, reuse bool) []byte {
	x := w.x
	m, typ, ref := w.gen(seed, kind)
	want := append(binary.BigEndian.AppendUint64(nil, typ), ref...)
	if !x.Is("C12") {
		return want
	}
	name := fmt.Sprintf("%T (type %d)", m, typ)
	var size int
	var out []byte
	var err error
	w.guard("C12", "Size of "+name, func() { size, err = beserial.Size(m) })
	if err != nil {
		x.Fail("C12", "size fails", "Size of a well-formed %s fails: %v", name, err)
	}
	if size != len(ref) {
		x.Fail("C12", "size differs", "Size of %s is %d, its encoding has %d bytes", name, size, len(ref))
	}
	w.guard("C12", "MarshalMessage of "+name, func() { out, err = wire.MarshalMessage(m) })
	if err != nil {
		x.Fail("C12", "encode fails", "a well-formed %s does not encode: %v", name, err)
	}
	if !bytes.Equal(out, want) {
		x.Fail("C12", "encoding differs", "%s encodes to %s, documented is %s", name, hexs(out), hexs(want))
	}
	// The same message once more, behind what the send buffer already holds.
	pre := append([]byte(nil), w.tx...)
	buf := w.tx
	w.guard("C12", "Marshal of "+name, func() { buf, err = beserial.Marshal(buf, m) })
	if err != nil {
		x.Fail("C12", "encode fails", "a well-formed %s does not encode into a buffer: %v", name, err)
	}
	if len(buf) < len(pre) || !bytes.Equal(buf[:len(pre)], pre) || !bytes.Equal(w.tx, pre) {
		x.Fail("C12", "buffer disturbed", "encoding %s behind %d bytes changed them", name, len(pre))
	}
	if !bytes.Equal(buf[len(pre):], ref) {
		x.Fail("C12", "encoding differs", "%s appended to %d bytes (capacity %d) encodes to %s, documented is %s", name, len(pre), cap(w.tx), hexs(buf[len(pre):]), hexs(ref))
	}
	w.tx = buf
	if len(w.tx) > 3000 || seed%7 == 0 {
		w.tx = make([]byte, 0, []int{0, 1, 16, 4096}[seed>>8%4])
	}
	if again, _, _ := w.gen(seed, kind); !same(m, again) {
		x.Fail("C12", "message changed by encoding", "encoding changed the %s", name)
	}
	if reuse && !predefined(kind) {
		scribble(reflect.ValueOf(m), 0xa5)
		x.Count("fault.sender_scribble")
		if !bytes.Equal(out, want) || !bytes.Equal(w.tx[max(0, len(w.tx)-len(ref)):], ref) && len(w.tx) > 0 {
			x.Fail("C12", "encoding aliases message", "changing the %s after encoding changed the encoded bytes", name)
		}
	}
	return out
}

func (w *wireRun) send(s *h.Step) {
	x := w.x
	seed, kind := s.UArg(0), s.Mod(1, nMessages)
	fl := s.Arg(2)
	b := w.encode(seed, kind, fl&4 != 0)
	x.Count("op.send")
	f := &frame{at: w.now + s.Mod(3, 1<<20), b: b, seed: seed, kind: kind, intact: true, frag: s.Mod(4, 1<<16)}
	if s.Arg(3) > 0 {
		x.Count("fault.delay")
	}
	if n := s.Mod(5, 8); n > 0 {
		w.damage(f, h.NewRand(seed+99), n)
	}
	if fl&1 != 0 {
		x.Count("fault.drop")
		return
	}
	w.post(f)
	if fl&2 != 0 {
		x.Count("fault.duplicate")
		g := *f
		g.at += int(seed % 97)
		w.post(&g)
	}
}

func (w *wireRun) post(f *frame) {
	f.seq = w.seq
	w.seq++
	w.queue = append(w.queue, f)
}

// run lets simulated time pass.
func (w *wireRun) run(until int) {
	x := w.x
	sort.SliceStable(w.queue, func(i, j int) bool {
		a, b := w.queue[i], w.queue[j]
		return a.at < b.at || a.at == b.at && a.seq < b.seq
	})
	for len(w.queue) > 0 && w.queue[0].at <= until {
		f := w.queue[0]
		w.queue = w.queue[1:]
		if f.at > w.now {
			x.Sim(float64(f.at - w.now))
			w.now = f.at
		}
		if f.seq < w.last {
			x.Count("fault.reorder")
		} else {
			w.last = f.seq
		}
		w.receive(f)
	}
	if until < 1<<60 && until > w.now {
		x.Sim(float64(until - w.now))
		w.now = until
	}
}

// receive puts the frame together in the receive buffer and decodes it there.
func (w *wireRun) receive(f *frame) {
	x := w.x
	if len(w.rx) > 0 {
		x.Count("fault.buffer_reuse")
	}
	n := 0
	if cap(w.rx) < len(f.b) {
		for i := range w.rx {
			w.rx[i] = 0xcc // the old buffer goes back to a pool
		}
		w.rx = make([]byte, len(f.b)+32)
	}
	w.rx = w.rx[:cap(w.rx)]
	for n < len(f.b) {
		k := len(f.b) - n
		if f.frag > 0 && k > f.frag {
			k = f.frag
			x.Count("fault.fragment")
		}
		n += copy(w.rx[n:], f.b[n:n+k])
	}
	for i := n; i < len(w.rx); i++ {
		w.rx[i] = 0xee // left over from earlier frames
	}
	if len(f.b) < 8 {
		return
	}
	w.got++
	typ := binary.BigEndian.Uint64(w.rx)
	m := w.decode(typ, w.rx[8:n], f)
	if m == nil {
		return
	}
	if !bytes.Equal(w.rx[:n], f.b) {
		x.Fail("C12 C13", "decoder writes to its input", "decoding type %d changed the receive buffer", typ)
	}
	if f.intact {
		w.kept = append(w.kept, kept{m: m, f: f})
	}
}

// decode decodes a payload and judges the outcome.
func (w *wireRun) decode(typ uint64, b []byte, f *frame) wire.Message {
	x := w.x
	known, ok := wellFormed(typ, b)
	var m wire.Message
	var err error
	w.guard("C12 C13", fmt.Sprintf("decoding %s as type %d", hexs(b), typ), func() { m, err = wire.UnmarshalMessage(typ, b[:len(b):len(b)]) })
	x.Count("op.decode")
	verdict := "refused"
	if err == nil {
		verdict = "decoded"
	}
	if x.Verbose {
		x.Log("t=%d type %d, %d bytes, damage [%s]: %s", w.now, typ, len(b), f.dmg, verdict)
	} else {
		x.Note([]byte(verdict))
		x.Note(b)
	}
	x.State(h.HashBytes([]byte(f.dmg+verdict)) ^ h.Mix(typ<<32|uint64(len(b))))
	if f.dmg != "" {
		x.Nontrivial()
		x.Count("damaged_" + verdict)
	}
	what := fmt.Sprintf("%s as type %d", hexs(b), typ)
	switch {
	case !known:
		var u wire.UnknownMessageError
		if err == nil || !errors.As(err, &u) {
			x.Fail("C13", "unknown type not reported", "%s: error %v, expected an unknown message error", what, err)
		}
	case ok && err != nil:
		if f.intact {
			x.Fail("C12 C13", "valid message refused", "%s: %v", what, err)
		}
		x.Fail("C13", "valid message refused", "%s: %v", what, err)
	case !ok && err == nil:
		x.Fail("C13", "malformed message accepted", "%s was decoded as %T", what, m)
	}
	if err != nil {
		return nil
	}
	var out []byte
	w.guard("C12 C13", "encoding what was decoded from "+what, func() { out, err = wire.MarshalMessage(m) })
	if err != nil {
		x.Fail("C12 C13", "decoded message does not encode", "%s: %v", what, err)
	}
	if want := append(binary.BigEndian.AppendUint64(nil, typ), b...); !bytes.Equal(out, want) {
		x.Fail("C12 C13", "decoded message encodes differently", "%s encodes to %s", what, hexs(out))
	}
	if f.intact {
		if want, _, _ := w.gen(f.seed, f.kind); !same(m, want) {
			x.Fail("C12", "message differs", "%s was decoded as %s, sent was %s", what, show(m), show(want))
		}
	}
	return m
}

func show(v interface{}) string {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// checkKept looks at everything received once all buffers have been reused.
func (w *wireRun) checkKept() {
	for i := range w.rx {
		w.rx[i] = 0x77
	}
	for _, k := range w.kept {
		var want interface{}
		if k.item {
			want, _ = w.regenItem(k.f.seed, k.f.kind)
		} else {
			want, _, _ = w.gen(k.f.seed, k.f.kind)
		}
		if !same(k.m, want) {
			w.x.Fail("C12", "message refers to the receive buffer", "a received %T changed when its receive buffer was reused: %s", k.m, show(k.m))
		}
	}
}

// damage changes the frame's bytes.
func (w *wireRun) damage(f *frame, r *h.Rand, n int) {
	b := append([]byte(nil), f.b...)
	for ; n > 0; n-- {
		name := ""
		switch k := r.Intn(9); {
		case k == 0 && len(b) > 8:
			i := 8 + r.Intn(len(b)-8)
			b[i] ^= 1 << uint(r.Intn(8))
			name = "bit_flip"
		case k == 1 && len(b) > 8:
			b = b[:8+r.Intn(len(b)-8)]
			name = "truncate"
		case k == 2:
			b = append(b, r.Bytes(1+r.Geo(4))...)
			name = "extend"
		case k == 3 && len(b) > 8: // some length or count
			i := 8 + r.Intn(min(len(b)-8, 400))
			b[i] = []byte{0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0xfe, 0xff}[r.Intn(10)]
			if r.P(40) && i+1 < len(b) {
				b[i+1] = []byte{0, 1, 0xff}[r.Intn(3)]
			}
			name = "hostile_count"
		case k == 4:
			t := messageTypes[r.Intn(len(messageTypes))]
			switch r.Intn(4) {
			case 0:
				t = uint64(r.Intn(100))
			case 1:
				t = r.U64()
			case 2:
				t |= 1 << uint(8+r.Intn(56))
			}
			binary.BigEndian.PutUint64(b, t)
			name = "wrong_type"
		case k == 5:
			_, _, o := w.gen(r.U64(), f.kind)
			if r.P(30) {
				_, _, o = w.gen(r.U64(), r.Intn(nMessages))
			}
			i := 8 + r.Intn(len(b)-7)
			j := r.Intn(len(o) + 1)
			b = append(b[:i:i], o[j:]...)
			name = "splice"
		case k == 6:
			b = append(b[:8:8], r.Bytes(r.Geo(40))...)
			for i := range b[8:] {
				if r.P(60) {
					b[8+i] = byte(r.Intn(4))
				}
			}
			name = "garbage"
		case k == 7 && len(b) > 9: // drop or repeat a stretch
			i := 8 + r.Intn(len(b)-8)
			j := i + r.Intn(min(len(b)-i, 40)+1)
			if r.P(50) {
				b = append(b[:i:i], b[j:]...)
			} else {
				b = append(b[:j:j], b[i:]...)
			}
			name = "splice"
		case k == 8 && len(b) > 8:
			i := len(b) - 1 - r.Intn(min(len(b)-8, 3))
			b[i]++
			name = "bit_flip"
		}
		if name != "" {
			w.x.Count("fault." + name)
			f.dmg += name + " "
		}
	}
	f.b = b
	f.intact = false
}

// sweep cuts one message off at every byte and flips every bit near lengths.
func (w *wireRun) sweep(s *h.Step) {
	seed, kind := s.UArg(0), s.Mod(1, nMessages)
	_, typ, ref := w.gen(seed, kind)
	if len(ref) > 900 {
		ref = ref[:900]
	}
	b := make([]byte, len(ref)+4)
	for k := 0; k <= len(ref)+3; k++ {
		copy(b, ref)
		f := &frame{seed: seed, kind: kind, dmg: "truncate"}
		w.decode(typ, b[:k], f)
	}
	w.x.CountN("fault.truncate", len(ref))
	r := h.NewRand(seed + 5)
	for i := 0; i < len(ref); i++ {
		copy(b, ref)
		b[i] = []byte{0, 1, 2, 0xff, b[i] + 1, b[i] ^ 0x80}[r.Intn(6)]
		w.decode(typ, b[:len(ref)], &frame{seed: seed, kind: kind, dmg: "bit_flip"})
	}
	w.x.CountN("fault.bit_flip", len(ref))
}

// item encodes something smaller than a message and decodes it from the middle
// of a buffer.
func (w *wireRun) item(s *h.Step) {
	x := w.x
	seed, kind := s.UArg(0), s.Mod(1, nItems)
	v, ref := w.regenItem(seed, kind)
	name := fmt.Sprintf("%T", v)
	var size int
	var err error
	w.guard("C12", "Size of "+name, func() { size, err = beserial.Size(v) })
	if err != nil || size != len(ref) {
		x.Fail("C12", "size differs", "Size of %s is %d, %v; its encoding has %d bytes", name, size, err, len(ref))
	}
	pre := h.NewRand(seed + 1).Bytes(s.Mod(3, 64))
	buf := make([]byte, len(pre), len(pre)+[]int{0, 1, len(ref), len(ref) + 50}[seed%4])
	copy(buf, pre)
	var out []byte
	w.guard("C12", "Marshal of "+name, func() { out, err = beserial.Marshal(buf, v) })
	if err != nil {
		x.Fail("C12", "encode fails", "a well-formed %s does not encode: %v", name, err)
	}
	if !bytes.Equal(out, append(pre[:len(pre):len(pre)], ref...)) {
		x.Fail("C12", "encoding differs", "%s appended to %d bytes encodes to %s, documented is %s", name, len(pre), hexs(out), hexs(ref))
	}
	if again, _ := w.regenItem(seed, kind); !same(v, again) {
		x.Fail("C12", "message changed by encoding", "encoding changed the %s", name)
	}
	scribble(reflect.ValueOf(v), 0x5a)
	trail := h.NewRand(seed + 2).Bytes(s.Mod(2, 100))
	rx := append(append([]byte(nil), ref...), trail...)
	got := blank(kind)
	var n int
	w.guard("C12 C13", "decoding "+name, func() { n, err = beserial.Unmarshal(rx, got) })
	want, _ := w.regenItem(seed, kind)
	if err != nil {
		x.Fail("C12", "valid message refused", "%s as %s: %v", hexs(rx), name, err)
	}
	if n != len(ref) {
		x.Fail("C12", "consumed bytes differ", "decoding a %s of %d bytes followed by %d others consumed %d", name, len(ref), len(trail), n)
	}
	if !same(got, want) {
		x.Fail("C12", "message differs", "%s was decoded as %s, sent was %s", hexs(rx), show(got), show(want))
	}
	// The destination of an earlier decode: nothing of what it held may survive.
	if seed%3 == 0 {
		used, ub := w.regenItem(seed+9, kind)
		if seed%2 == 0 {
			used = blank(kind)
			w.guard("C12 C13", "decoding "+name, func() { _, err = beserial.Unmarshal(ub, used) })
		}
		w.guard("C12 C13", "decoding "+name, func() { n, err = beserial.Unmarshal(rx, used) })
		if err != nil || n != len(ref) || !same(used, want) {
			x.Fail("C12", "message differs", "%s was decoded into a used %s as %s, sent was %s; %d bytes, %v", hexs(rx), name, show(used), show(want), n, err)
		}
		x.Count("used_destination")
	}
	for i := range rx {
		rx[i] = 0x99
	}
	x.Count("fault.buffer_reuse")
	x.Count("op.item")
	w.got++
	w.kept = append(w.kept, kept{m: got, f: &frame{seed: seed, kind: kind}, item: true})
	x.State(h.Mix(uint64(kind)<<40 | uint64(len(ref))<<8 | uint64(len(trail))))
}

// badItem decodes damaged items.
func (w *wireRun) badItem(s *h.Step) {
	x := w.x
	seed, kind := s.UArg(0), s.Mod(1, nItems)
	v, ref := w.regenItem(seed, kind)
	name := fmt.Sprintf("%T", v)
	r := h.NewRand(seed + 3)
	for i := s.Mod(2, 8); i > 0; i-- {
		f := &frame{b: append(make([]byte, 8), ref...), kind: kind}
		// Splicing takes pieces of messages, which is fine here.
		f.kind = []int{6, 8, 6, 6, 0, 0, 6, 6, 7, 10, 7, 6, 6, 7}[kind]
		w.damage(f, r, 1+r.Intn(3))
		w.checkItem(kind, name, f.b[8:], f.dmg)
	}
	if r.P(15) {
		cut := append([]byte(nil), ref...)
		for k := 0; k < len(cut) && k < 700; k++ {
			w.checkItem(kind, name, cut[:k], "truncate")
		}
		x.CountN("fault.truncate", min(len(cut), 700))
	}
}

func (w *wireRun) checkItem(kind int, name string, b []byte, dmg string) {
	x := w.x
	want, ok := itemSize(kind, b)
	got := blank(kind)
	in := append([]byte(nil), b...)
	var n int
	var err error
	w.guard("C13", fmt.Sprintf("decoding %s as %s", hexs(b), name), func() { n, err = beserial.Unmarshal(in, got) })
	x.Count("op.decode_item")
	x.Nontrivial()
	verdict := "refused"
	if err == nil {
		verdict = "decoded"
	}
	x.Log("%s %d bytes [%s]: %s", name, len(b), dmg, verdict)
	x.State(h.HashBytes([]byte(dmg+verdict)) ^ h.Mix(uint64(kind)<<32|uint64(len(b))))
	if n > len(b) || n < 0 {
		x.Fail("C13", "consumed more than given", "decoding %s as %s reports %d bytes consumed, given were %d", hexs(b), name, n, len(b))
	}
	if ok && err != nil {
		x.Fail("C13", "valid message refused", "%s as %s: %v", hexs(b), name, err)
	}
	if !ok && err == nil {
		x.Fail("C13", "malformed message accepted", "%s was decoded as %s", hexs(b), name)
	}
	full := blank(kind)
	if hb := h.HashBytes(b); hb%4 == 0 {
		full, _ = w.regenItem(hb, kind) // the destination was in use
	}
	var ferr error
	w.guard("C13", fmt.Sprintf("decoding %s as %s", hexs(b), name), func() { ferr = beserial.UnmarshalFull(in, full) })
	if (ferr == nil) != (ok && want == len(b)) {
		x.Fail("C13", "trailing bytes misjudged", "%s as exactly one %s: error %v; %d of %d bytes belong to it", hexs(b), name, ferr, want, len(b))
	}
	if err != nil {
		return
	}
	if ferr == nil && !same(full, got) {
		x.Fail("C13", "decoded value depends on the destination", "%s was decoded into a used %s as %s, into an empty one as %s", hexs(b), name, show(full), show(got))
	}
	if n != want {
		x.Fail("C13", "consumed bytes differ", "decoding %s as %s consumed %d bytes, it has %d", hexs(b), name, n, want)
	}
	var out []byte
	w.guard("C13", "encoding what was decoded from "+hexs(b), func() { out, err = beserial.Marshal(nil, got) })
	if err != nil || !bytes.Equal(out, b[:n]) {
		x.Fail("C13", "decoded message encodes differently", "%s as %s encodes to %s, %v", hexs(b), name, hexs(out), err)
	}
}
