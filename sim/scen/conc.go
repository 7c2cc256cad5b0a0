package scen

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"testing/cryptotest"

	"nimsim/h"
	"nimsim/simrt"
	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/address"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/policy"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wallet"
	"terorie.dev/nimiq/wire"
)

// Concurrent callers as simulated threads: one runs at a time, and the plan
// says at which preemption points the processor is taken away.

func init() {
	h.Register(&h.Scenario{Name: "supply", Exec: execSupply})
	h.RegisterCheck(&h.Check{Property: "C15", Quick: 40000, Thorough: 900000, Race: [2]int{1600, 40000}, Gen: genSupply,
		Rule: "at least two threads ran and at least one was preempted.",
		Real: []string{"policy"}, Stub: []string{"goroutine scheduler (simulated, one thread at a time)", "sync.Mutex and the other locks (simulated)"},
		Measure: "distinct orders in which threads got the processor",
		Assume:  []string{"threads interleave between statements and inside read-modify-write statements on package state; memory is sequentially consistent", "the reward of block 0 is not asked for"},
		Faults:  []string{"preemption", "stalled_thread"}})
	h.Register(&h.Scenario{Name: "conc", Exec: execConc})
	h.RegisterCheck(&h.Check{Property: "C16", Quick: 80000, Thorough: 2000000, Race: [2]int{2400, 60000}, Gen: genConc,
		Rule: "at least two threads ran and at least one was preempted.",
		Real: []string{"wire", "beserial", "address", "wallet", "tree", "accounts", "policy"}, Stub: []string{"goroutine scheduler (simulated, one thread at a time)", "locks (simulated)"},
		Measure: "distinct orders in which threads got the processor",
		Assume:  []string{"threads interleave between statements and inside read-modify-write statements on package state; memory is sequentially consistent"},
		Faults:  []string{"preemption", "stalled_thread"}})
}

// genSched draws priorities and preemption points.
func genSched(r *h.Rand, threads, steps, hot int) *simrt.Plan {
	s := &simrt.Plan{}
	for _, p := range r.Perm(threads) {
		s.Prio = append(s.Prio, p+1)
	}
	draw := func(n int) uint64 {
		if r.P(40) {
			return uint64(1 + r.Intn(n))
		}
		return uint64(math.Exp(r.Float() * math.Log(float64(n))))
	}
	pts := map[uint64]bool{}
	hots := map[uint64]bool{}
	switch r.Intn(4) {
	case 0:
		for n := 1 + r.Intn(4); n > 0; n-- {
			hots[draw(hot)] = true
		}
	case 1:
		for n := 1 + r.Intn(4); n > 0; n-- {
			pts[draw(steps)] = true
		}
	case 2:
		for n := 2 + r.Intn(12); n > 0; n-- {
			hots[draw(hot)] = true
		}
	case 3:
		for n := 2 + r.Intn(12); n > 0; n-- {
			pts[draw(steps)] = true
		}
		for n := r.Intn(5); n > 0; n-- {
			hots[draw(hot)] = true
		}
	}
	s.Points, s.Hot = sortedSet(pts), sortedSet(hots)
	return s
}

func sortedSet(m map[uint64]bool) (out []uint64) {
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return
}

// runThreads runs the functions under the plan's schedule, counted from now.
func runThreads(x *h.Ctx, props string, fns []func()) {
	sp := &simrt.Plan{}
	if x.Plan.Sched != nil {
		st, hot := simrt.Counters()
		sp.Prio = x.Plan.Sched.Prio
		for _, p := range x.Plan.Sched.Points {
			sp.Points = append(sp.Points, p+st)
		}
		for _, p := range x.Plan.Sched.Hot {
			sp.Hot = append(sp.Hot, p+hot)
		}
	}
	infos := make([]*h.PanicInfo, len(fns))
	wrapped := make([]func(), len(fns))
	for i, f := range fns {
		wrapped[i] = func() { infos[i] = h.Catch(f) }
	}
	res := simrt.RunThreads(x.T, sp, wrapped)
	x.CountN("fault.preemption", int(res.Switches))
	if res.Switches > 0 && len(fns) > 1 {
		x.Nontrivial()
	}
	var ev []byte
	for _, e := range res.Events {
		ev = append(ev, byte(e))
	}
	x.StateBytes(append(ev, byte(len(fns))))
	x.Log("order %v, %d steps, %d at shared state", res.Events, res.Steps, res.Hot)
	for i, pi := range infos {
		if pi == nil {
			continue
		}
		if !pi.Repo {
			panic(fmt.Sprintf("thread %d: %s", i, pi))
		}
		x.Fail(props, pi.Class(), "thread %d: %s", i, pi)
	}
	for i, p := range res.Panics {
		if p != nil {
			panic(fmt.Sprintf("thread %d: %v", i, p))
		}
	}
	if res.Deadlock {
		x.Fail(props, "callers block forever", "no thread can go on, order so far %v", res.Events)
	}
	// A thread that was taken off the processor while others finished was stalled.
	if res.Switches > 0 {
		x.Count("fault.stalled_thread")
	}
}

// --- C15 ---

func genSupply(r *h.Rand, tier string, idx int) *h.Plan {
	p := &h.Plan{Scenario: "supply"}
	n := 1 + r.Intn(5)
	if n == 1 && r.P(70) {
		n = 2
	}
	// Almost every run stays low: queries cost time in proportion to the height.
	top := []int{12_000, 30_000, 60_000, 150_000}[r.Intn(4)]
	rare := 0
	switch every := 4000; {
	case idx%every == every/2:
		rare = 1 // far up, once
	case idx%400 == 7:
		top = 1_000_000
	}
	base := r.Intn(top)
	for i, q := 0, n+r.Intn(3*n); i < q; i++ {
		th := i % n
		if r.P(20) {
			th = r.Intn(n)
		}
		var ht int
		switch r.Intn(6) {
		case 0:
			ht = r.Intn(top)
		case 1:
			ht = r.Intn(4)
		case 2, 3:
			ht = (r.Intn(top/5000+1))*5000 + r.Intn(7) - 3
		case 4:
			ht = base + r.Intn(5)
		case 5:
			ht = base/5000*5000 + []int{-5000, 0, 5000, 10000}[r.Intn(4)] + r.Intn(3) - 1
		}
		if rare != 0 && i < 6 {
			ht = []int{48_692_955 + r.Intn(10), 52_888_980 + r.Intn(10), 50_000_000, 20_000_000}[r.Intn(4)]
			if r.P(60) {
				ht = 1<<uint(20+r.Intn(6)) + r.Intn(1<<20)
			}
		}
		kind := r.Weighted([]int{5, 5, 1, 1})
		if kind >= 2 && r.P(60) {
			// No cost in proportion to the height.
			ht = []int{specTailStart, specEnd, math.MaxUint32, math.MaxUint32, math.MaxInt32, r.Intn(math.MaxUint32)}[r.Intn(6)] + r.Intn(7) - 3
			ht = min(ht, math.MaxUint32)
		}
		p.Add("query", int64(th), int64(kind), int64(max(0, ht)), int64(r.U64()>>1))
	}
	p.Sched = genSched(r, n, 40*top/10, 60)
	return p
}

func threadsOf(p *h.Plan) (n int) {
	for i := range p.Steps {
		n = max(n, int(p.Steps[i].Arg(0))%8+1)
	}
	return
}

func execSupply(x *h.Ctx, p *h.Plan) {
	n := threadsOf(p)
	type answer struct {
		done bool
		v    uint64
	}
	got := make([]answer, len(p.Steps))
	ask := func(s *h.Step) uint64 {
		ht := uint32(s.UArg(2))
		switch s.Mod(1, 4) {
		case 0:
			return policy.SupplyAfter(ht)
		case 1:
			return policy.BlockReward(max(1, ht))
		case 2:
			return policy.BlockRewardBySupply(supplyArg(s), ht)
		default:
			from := ht - min(ht, uint32(s.UArg(3)%3000))
			return policy.SupplyBetween(refSupply(max(from, 1)-1), from, ht)
		}
	}
	fns := make([]func(), n)
	for t := range fns {
		fns[t] = func() {
			for i := range p.Steps {
				if int(p.Steps[i].Arg(0))%8 == t {
					got[i] = answer{true, ask(&p.Steps[i])}
				}
			}
		}
	}
	// The reference must not be computed inside threads.
	want := make([]uint64, len(p.Steps))
	for i := range p.Steps {
		s := &p.Steps[i]
		ht := uint32(s.UArg(2))
		switch s.Mod(1, 4) {
		case 0:
			want[i] = refSupply(ht)
		case 1:
			want[i] = refReward(max(1, ht))
		case 2:
			want[i] = specReward(supplyArg(s), ht)
		default:
			from := ht - min(ht, uint32(s.UArg(3)%3000))
			want[i] = refSupply(max(ht, 1) - 1)
			_ = from
		}
	}
	runThreads(x, "C15", fns)
	name := []string{"SupplyAfter", "BlockReward", "BlockRewardBySupply", "SupplyBetween"}
	check := func(i int, v uint64, when string) {
		s := &p.Steps[i]
		x.CurStep = i
		if v > specCap {
			x.Fail("C15", "above the cap", "%s: %s at height %d is %d", when, name[s.Mod(1, 4)], s.Arg(2), v)
		}
		if v != want[i] {
			x.Fail("C15", "wrong "+name[s.Mod(1, 4)], "%s: %s at height %d is %d, expected %d", when, name[s.Mod(1, 4)], s.Arg(2), v, want[i])
		}
	}
	for i := range p.Steps {
		x.CountN("op."+name[p.Steps[i].Mod(1, 4)], 1)
		if got[i].done {
			check(i, got[i].v, "concurrently")
		}
	}
	// What the callers left behind must serve later callers, in any order.
	if pi := h.Catch(func() {
		for i := len(p.Steps) - 1; i >= 0; i-- {
			if p.Steps[i].UArg(2) < 1_000_000 {
				check(i, ask(&p.Steps[i]), "afterwards")
			}
		}
		for i := range p.Steps {
			if ht := uint32(p.Steps[i].UArg(2)); ht < 1_000_000 {
				for _, k := range []uint32{ht / 5000 * 5000, ht/5000*5000 + 4999} {
					if v := policy.SupplyAfter(k); v != refSupply(k) {
						x.CurStep = i
						x.Fail("C15", "wrong SupplyAfter", "afterwards: SupplyAfter at height %d is %d, expected %d", k, v, refSupply(k))
					}
				}
			}
		}
	}); pi != nil {
		if !pi.Repo {
			panic(pi.Val)
		}
		x.Fail("C15", pi.Class(), "asking again: %s", pi)
	}
}

// supplyArg is some supply within the cap.
func supplyArg(s *h.Step) uint64 {
	u := s.UArg(3)
	switch u % 5 {
	case 4: // where the reward steps down
		k := 1 + u>>8%((specCap-specInitial)>>22)
		return specCap - k<<22 + 1 - u>>4%3
	case 0:
		return specCap - u>>2%10_000
	case 1:
		return specCap - u>>2%5*specTail - u>>8%3
	case 2:
		return specInitial + u>>2%100
	}
	return u >> 2 % (specCap + 1)
}

// --- C16 ---

const nConcOps = 12

func genConc(r *h.Rand, tier string, idx int) *h.Plan {
	p := &h.Plan{Scenario: "conc", Cfg: map[string]int64{"seed": int64(r.U64() >> 1), "wallets": int64(1 + r.Intn(2))}}
	n := 2 + r.Intn(3)
	// Often all threads do the same thing.
	only := -1
	if r.P(55) {
		only = r.Intn(nConcOps)
		if r.P(15) {
			only = 7 // ledgers use most of the code
		}
	}
	for i, q := 0, n+r.Intn(3*n); i < q; i++ {
		op := r.Intn(nConcOps)
		if only >= 0 && r.P(85) {
			op = only
		}
		seed := r.U64() >> 1
		if i > 0 && r.P(15) {
			seed = p.Steps[r.Intn(i)].UArg(2)
		}
		p.Add("call", int64(i%n), int64(op), int64(seed), int64(r.Intn(1000)))
	}
	p.Sched = genSched(r, n, []int{300, 3000, 20000}[r.Intn(3)], []int{80, 80, 400}[r.Intn(3)])
	return p
}

type concRun struct {
	x      *h.Ctx
	shared []*wallet.Basic
	msgs   []wire.Message // read by everybody
	refs   [][]byte
	mine   [][32]byte // public keys of generated wallets
}

func execConc(x *h.Ctx, p *h.Plan) {
	w := &concRun{x: x}
	r := h.NewRand(uint64(p.Cfg["seed"]))
	for i := int64(0); i < 1+p.Cfg["wallets"]%4; i++ {
		w.shared = append(w.shared, wallet.DeriveBasic(r.Bytes(32)))
	}
	for i := 0; i < 3; i++ {
		m, typ, ref := (&wg{r, false}).message(r.Intn(nMessages))
		w.msgs = append(w.msgs, m)
		w.refs = append(w.refs, append(binary.BigEndian.AppendUint64(nil, typ), ref...))
	}
	before := predefinedValues()
	n := threadsOf(p)
	// Every call alone, in a process of its own so to speak.
	type call struct {
		run  func() []byte
		want []byte
		got  []byte
		done bool
	}
	generates := false
	calls := make([]*call, len(p.Steps))
	for i := range p.Steps {
		x.CurStep = i
		calls[i] = &call{}
		calls[i].run, calls[i].want = w.prepare(&p.Steps[i])
		x.Count("op." + concOpName[p.Steps[i].Mod(1, nConcOps)])
		generates = generates || p.Steps[i].Mod(1, nConcOps) == 11
	}
	if generates {
		cryptotest.SetGlobalRandom(x.T, uint64(p.Cfg["seed"]))
	}
	for i, c := range calls {
		if c.want == nil {
			x.CurStep = i
			if pi := h.Catch(func() { c.want = c.run() }); pi != nil {
				if !pi.Repo {
					panic(pi.Val)
				}
				x.Fail("C16", pi.Class(), "alone: %s", pi)
			}
		}
	}
	simrt.Reset()
	fns := make([]func(), n)
	for t := range fns {
		fns[t] = func() {
			for i := range p.Steps {
				if int(p.Steps[i].Arg(0))%8 == t {
					calls[i].got = calls[i].run()
					calls[i].done = true
				}
			}
		}
	}
	runThreads(x, "C16", fns)
	for i, c := range calls {
		x.CurStep = i
		if c.done && !bytes.Equal(c.got, c.want) {
			x.Fail("C16", "disturbed: "+concOpName[p.Steps[i].Mod(1, nConcOps)], "%s gave %s next to other callers, alone it gives %s", concOpName[p.Steps[i].Mod(1, nConcOps)], hexs(c.got), hexs(c.want))
		}
	}
	for i := range w.mine {
		for j := range w.mine[:i] {
			if w.mine[i] == w.mine[j] {
				x.Fail("C16", "same wallet twice", "two callers generated the same key")
			}
		}
	}
	if after := predefinedValues(); after != before {
		x.Fail("C16", "shared value changed", "before: %s, after: %s", before, after)
	}
	for i, m := range w.msgs {
		if out, err := wire.MarshalMessage(m); err != nil || !bytes.Equal(out, w.refs[i]) {
			x.Fail("C16", "shared message changed", "a message only read by the callers now encodes to %s, %v", hexs(out), err)
		}
	}
}

var concOpName = []string{"encode", "decode", "codec", "address text", "hashing", "wallet", "tree", "ledger", "shared message", "target", "damaged input", "generate"}

// predefinedValues describes every shared value of the packages.
func predefinedValues() string {
	return fmt.Sprintf("%v %v %v %v %v %v %v %v %v %v %v %v", wire.InitialAccount, uint64(wire.MempoolMessage), uint64(wire.GetChainProofMessage), uint64(wire.GetHeadMessage),
		beserial.ErrUnexpectedEOF, beserial.ErrNoLenTag, beserial.ErrNonOptionalNil, address.ErrChecksum, address.ErrInvalidCharacter, address.ErrInvalidCountryCode, address.ErrInvalidLength,
		policy.BlockTargetMax.String())
}

// prepare builds a call and, where it is known independently, its result.
// Everything the call works on is made by itself.
func (w *concRun) prepare(s *h.Step) (run func() []byte, want []byte) {
	seed := s.UArg(2)
	k := s.Mod(3, 1000)
	failed := func(err error) []byte { return []byte("error: " + err.Error()) }
	switch s.Mod(1, nConcOps) {
	case 0:
		long := seed%16 == 5
		_, typ, ref := (&wg{h.NewRand(seed), long}).message(k % nMessages)
		return func() []byte {
			m, _, _ := (&wg{h.NewRand(seed), long}).message(k % nMessages)
			out, err := wire.MarshalMessage(m)
			if err != nil {
				return failed(err)
			}
			return out
		}, append(binary.BigEndian.AppendUint64(nil, typ), ref...)
	case 1:
		long := seed%16 == 5
		_, typ, ref := (&wg{h.NewRand(seed), long}).message(k % nMessages)
		return func() []byte {
			m, err := wire.UnmarshalMessage(typ, ref)
			if err != nil {
				return failed(err)
			}
			want, _, _ := (&wg{h.NewRand(seed), long}).message(k % nMessages)
			if !same(m, want) {
				return []byte("another message: " + show(m))
			}
			return []byte("ok")
		}, []byte("ok")
	case 2:
		sh := shapeOf(uint64(k) % 200)
		return func() []byte {
			f := &filler{r: h.NewRand(seed), nilAt: -1, longAt: -1}
			v := newOf(sh)
			ref := f.fill(sh, v.Elem(), nil)
			n, err := beserial.Size(v.Interface())
			if err != nil || n != len(ref) {
				return []byte(fmt.Sprint("size ", n, err))
			}
			out, err := beserial.Marshal(nil, v.Interface())
			if err != nil || !bytes.Equal(out, ref) {
				return append([]byte("encoding "), out...)
			}
			got := newOf(sh)
			n, err = beserial.Unmarshal(append(ref, 1, 2, 3), got.Interface())
			if err != nil || n != len(ref) || !same(got.Interface(), v.Interface()) {
				return []byte(fmt.Sprint("value ", n, err, show(got.Interface())))
			}
			return []byte("ok")
		}, []byte("ok")
	case 3:
		a := someAddr(seed, k%6)
		text := refEncode(a)
		bad, _ := (&addrRun{w.x}).damage(text, h.NewRand(seed), k%3)
		wantBad, ok, judged := refDecode(bad)
		exp := text + "|" + string(a[:])
		if judged {
			exp += fmt.Sprint("|", ok)
			if ok {
				exp += string(wantBad[:])
			}
		}
		return func() []byte {
			t := address.Encode(&a)
			d, err := address.Decode(text)
			if err != nil {
				return failed(err)
			}
			out := t + "|" + string(d[:])
			d, err = address.Decode(bad)
			if judged {
				out += fmt.Sprint("|", err == nil)
				if err == nil {
					out += string(d[:])
				}
			}
			return []byte(out)
		}, []byte(exp)
	case 4:
		return func() []byte {
			g := &wg{h.NewRand(seed), false}
			p, _ := g.sigProof()
			a := p.SignerAddress()
			pub := g.a32()
			b := wire.PublicKeyToAddress(&pub)
			id := wire.GetPeerID(pub[:])
			leaf := tree.Leaf{Value: g.r.Bytes(1 + k%80)}
			leaf.Prefix = tree.KeyToNibbles(&a)
			lh := leaf.Hash()
			return append(append(append(a[:], b[:]...), id[:]...), lh[:]...)
		}, nil
	case 5:
		return func() []byte {
			r := h.NewRand(seed)
			b := w.shared[r.Intn(len(w.shared))]
			if r.P(30) {
				b = wallet.DeriveBasic(r.Bytes(32))
			}
			g := &wg{r, false}
			var out []byte
			a, pub := b.GetAddress(), b.GetPublicKey()
			out = append(append(out, a[:]...), pub[:]...)
			if r.P(50) {
				t, _ := g.basicTx()
				t.SenderPubKey = pub
				if err := b.SignBasicTx(t); err != nil {
					return failed(err)
				}
				out = append(out, t.Signature[:]...)
			} else {
				t, _ := g.extTx()
				if err := b.SignExtendedTx(t); err != nil {
					return failed(err)
				}
				out = append(out, t.Proof...)
			}
			pa, _ := g.peerAddress()
			pa.Sign(b.PrivateKey)
			out = append(out, pa.Signature[:]...)
			return append(out, fmt.Sprint(pa.VerifySignature())...)
		}, nil
	case 6:
		r := h.NewRand(seed)
		m := map[[20]byte][]byte{}
		var keys [][20]byte
		type write struct {
			k [20]byte
			v []byte
		}
		var ws []write
		for n := 2 + k%10; n > 0; n-- {
			var key [20]byte
			r.Fill(key[:])
			if len(keys) > 0 && r.P(40) {
				key = keys[r.Intn(len(keys))]
				if r.P(50) {
					key[19] ^= 1 << uint(r.Intn(8))
				}
			}
			keys = append(keys, key)
			v := r.Bytes(1 + r.Intn(20))
			if r.P(20) {
				v = nil
			}
			ws = append(ws, write{key, v})
			if v == nil {
				delete(m, key)
			} else {
				m[key] = v
			}
		}
		root := refRoot(m)
		return func() []byte {
			lower := tree.NewMemStore()
			var st tree.Store = lower
			var ov *tree.OverlayStore
			if k%3 == 0 {
				ov = tree.NewOverlayStore(lower)
				st = ov
			}
			t := &tree.PMTree{Store: st}
			for i, x := range ws {
				t.PutEntry(&x.k, append([]byte(nil), x.v...))
				if i%3 == 2 {
					t.Hash()
				}
			}
			sum := t.Hash()
			if ov != nil {
				ov.Flush()
				t = &tree.PMTree{Store: lower}
				if t.Hash() != sum {
					return []byte("root changed by flush")
				}
			}
			for _, x := range ws {
				if !bytes.Equal(t.GetEntry(&x.k), m[x.k]) {
					return []byte("wrong entry")
				}
			}
			return sum[:]
		}, root[:]
	case 7:
		return func() []byte {
			r := h.NewRand(seed)
			accs := accounts.NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
			g := &wg{r, false}
			var pub [4][32]byte
			var own [4][20]byte
			for i := range pub {
				pub[i] = g.a32()
				own[i] = wire.PublicKeyToAddress(&pub[i])
				accs.PutAccount(&own[i], &wire.BasicAccount{Value: 1000})
			}
			var out []byte
			first := uint32(1)
			if seed%2 == 1 {
				first += uint32((seed >> 8) % 64)
			}
			for ht := first; ht <= first+uint32(k%3); ht++ {
				var b wire.Block
				b.Header.Height = ht
				b.Body = &wire.BlockBody{MinerAddr: own[r.Intn(4)]}
				for n := r.Intn(4); n > 0; n-- {
					t := &wire.BasicTx{SenderPubKey: pub[r.Intn(4)], Recipient: g.a20(), Value: uint64(1 + r.Intn(500)), Fee: uint64(r.Intn(20))}
					b.Body.Txs = append(b.Body.Txs, wire.WrapTx{Tx: t})
				}
				if r.P(30) {
					t := &wire.ExtendedTx{Sender: own[0], Recipient: g.a20(), RecipientType: 1, Value: 10, Flags: 1, Data: g.r.Bytes(24)}
					b.Body.Txs = append(b.Body.Txs, wire.WrapTx{Tx: t})
				}
				err := accs.Push(&b)
				out = append(out, fmt.Sprint(err == nil)...)
				for i := range own {
					out = binary.BigEndian.AppendUint64(out, accs.GetAccount(&own[i]).Balance())
				}
				other := g.a20()
				out = binary.BigEndian.AppendUint64(out, accs.GetAccount(&other).Balance())
				sum := accs.Tree.Hash()
				out = append(out, sum[:]...)
			}
			return out
		}, nil
	case 8:
		i := k % len(w.msgs)
		return func() []byte {
			n, err := beserial.Size(w.msgs[i])
			if err != nil || n+8 != len(w.refs[i]) {
				return []byte(fmt.Sprint("size ", n, err))
			}
			out, err := wire.MarshalMessage(w.msgs[i])
			if err != nil {
				return failed(err)
			}
			m, err := wire.UnmarshalMessage(binary.BigEndian.Uint64(out), out[8:])
			if err != nil {
				return failed(err)
			}
			if !same(m, w.msgs[i]) {
				return []byte("another message")
			}
			return out
		}, w.refs[i]
	case 9:
		return func() []byte {
			r := h.NewRand(seed)
			d := new(big.Int).SetUint64(1 + r.U64()>>uint(8+r.Intn(50)))
			t := wire.DifficultyToTarget(*d)
			c := wire.TargetToCompact(t)
			return binary.BigEndian.AppendUint32(t.Bytes(), c)
		}, nil
	case 11:
		return func() []byte {
			b := wallet.GenerateBasic()
			pub := b.GetPublicKey()
			w.mine = append(w.mine, pub)
			again := wallet.DeriveBasic(b.PrivateKey.Seed())
			g := &wg{h.NewRand(seed), false}
			t, _ := g.basicTx()
			t.SenderPubKey = pub
			if err := b.SignBasicTx(t); err != nil {
				return failed(err)
			}
			pa, _ := g.peerAddress()
			pa.Sign(b.PrivateKey)
			return []byte(fmt.Sprint(again.GetPublicKey() == pub, wire.PublicKeyToAddress(&pub) == b.GetAddress(), pa.VerifySignature()))
		}, []byte("true true true")
	default:
		typ := messageTypes[k%len(messageTypes)]
		b := h.NewRand(seed).Bytes(k % 50)
		_, ok := wellFormed(typ, b)
		return func() []byte {
			_, err := wire.UnmarshalMessage(typ, b)
			return []byte(fmt.Sprint(err == nil))
		}, []byte(fmt.Sprint(ok))
	}
}
