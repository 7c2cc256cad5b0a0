package scen

import (
	"fmt"
	"strings"

	"nimsim/h"
	"terorie.dev/nimiq/address"
)

// The address scenario: addresses travel as text through a channel that
// regroups, mistypes, swaps, loses, doubles and mixes characters.

func init() {
	h.Register(&h.Scenario{Name: "addr", Exec: execAddr})
	h.RegisterCheck(&h.Check{Property: "C19", Quick: 120000, Thorough: 4000000, Gen: genAddr,
		Rule: "at least one damaged address text reached the decoder.",
		Real: []string{"address"}, Stub: []string{"text channel between the parties"},
		Measure: "distinct (damage kinds, positions, verdict)",
		Assume:  []string{"text with a check field that is not a number from 02 to 98 is not judged"},
		Faults:  []string{"respace", "substitute", "same_class", "swap", "drop", "insert", "double", "case", "alphabet", "splice", "unicode", "control", "country"}})
}

const alphabet32 = "0123456789ABCDEFGHJKLMNPQRSTUVXY"

// refCheck is the IBAN checksum of the characters (country and check field last).
func refCheck(s string) (rem int, ok bool) {
	for _, c := range []byte(s[4:] + s[:4]) {
		switch {
		case c >= '0' && c <= '9':
			rem = (rem*10 + int(c-'0')) % 97
		case c >= 'A' && c <= 'Z':
			rem = (rem*100 + int(c-'A') + 10) % 97
		default:
			return 0, false
		}
	}
	return rem, true
}

func refEncode(a [20]byte) string {
	var d []byte
	acc, nb := 0, 0
	for _, x := range a {
		acc, nb = acc<<8|int(x), nb+8
		for nb >= 5 {
			nb -= 5
			d = append(d, alphabet32[acc>>uint(nb)&31])
		}
		acc &= 1<<uint(nb) - 1
	}
	rem, _ := refCheck("NQ00" + string(d))
	s := fmt.Sprintf("NQ%02d", 98-rem)
	for i := 0; i < 32; i += 4 {
		s += " " + string(d[i:i+4])
	}
	return s
}

// refDecode says what a text means; judged is false if the documentation leaves it open.
func refDecode(s string) (a [20]byte, ok, judged bool) {
	t := strings.ReplaceAll(s, " ", "")
	if len(t) != 36 || t[:2] != "NQ" {
		return a, false, true
	}
	for _, c := range []byte(t[2:4]) {
		if c < '0' || c > '9' {
			// A letter there could only pass for a check digit by accident.
			return a, false, false
		}
	}
	if c := t[2:4]; c < "02" || c > "98" {
		// Never written, but the remainder can be right.
		return a, false, false
	}
	acc, nb, n := 0, 0, 0
	for _, c := range []byte(t[4:]) {
		v := strings.IndexByte(alphabet32, c)
		if v < 0 {
			return a, false, true
		}
		acc, nb = acc<<5|v, nb+5
		if nb >= 8 {
			nb -= 8
			a[n] = byte(acc >> uint(nb))
			n++
			acc &= 1<<uint(nb) - 1
		}
	}
	rem, _ := refCheck(t)
	return a, rem == 1, true
}

func genAddr(r *h.Rand, tier string, idx int) *h.Plan {
	p := &h.Plan{Scenario: "addr"}
	for n := 1 + r.Intn(6); n > 0; n-- {
		// address, damage, number of damages, shape of the address
		op := "send"
		if r.P(6) {
			op = "sweep"
		}
		p.Add(op, int64(r.U64()>>1), int64(r.U64()>>1), int64(r.Intn(4)), int64(r.Intn(6)))
	}
	return p
}

func someAddr(seed uint64, shape int) (a [20]byte) {
	r := h.NewRand(seed)
	r.Fill(a[:])
	switch shape {
	case 0:
		a = [20]byte{}
		if r.P(50) {
			a[r.Intn(20)] = byte(r.U64())
		}
	case 1:
		for i := range a {
			a[i] = 0xff
		}
		if r.P(70) {
			a[r.Intn(20)] = byte(r.U64())
		}
	case 2: // mostly digits
		for i := range a {
			a[i] &= 0x21
		}
	}
	return a
}

type addrRun struct{ x *h.Ctx }

func execAddr(x *h.Ctx, p *h.Plan) {
	w := &addrRun{x}
	for i := range p.Steps {
		x.CurStep = i
		s := &p.Steps[i]
		a := someAddr(s.UArg(0), s.Mod(3, 6))
		text := w.encode(a)
		x.Count("op.encode")
		switch s.Op {
		case "send":
			got, dmg := w.damage(text, h.NewRand(s.UArg(1)), s.Mod(2, 4))
			w.judge(got, dmg, &a)
			if dmg == "" || dmg == "respace " {
				continue
			}
			x.Nontrivial()
		case "sweep":
			w.sweep(text, s.UArg(1))
			x.Nontrivial()
		}
	}
}

func (w *addrRun) encode(a [20]byte) (text string) {
	x := w.x
	in := a
	if pi := h.Catch(func() { text = address.Encode(&in) }); pi != nil {
		if !pi.Repo {
			panic(pi.Val)
		}
		x.Fail("C19", pi.Class(), "encoding %x: %s", a, pi)
	}
	if want := refEncode(a); text != want {
		x.Fail("C19", "text differs", "%x is written %q, expected %q", a, text, want)
	}
	if in != a {
		x.Fail("C19", "address changed", "encoding changed the address %x", a)
	}
	return text
}

// judge decodes a text and compares with the reference.
func (w *addrRun) judge(text, dmg string, sent *[20]byte) (accepted bool) {
	x := w.x
	var got [20]byte
	var err error
	if pi := h.Catch(func() { got, err = address.Decode(text) }); pi != nil {
		if !pi.Repo {
			panic(pi.Val)
		}
		x.Fail("C19", pi.Class(), "decoding %q: %s", text, pi)
	}
	x.Count("op.decode")
	want, ok, judged := refDecode(text)
	x.Log("%q [%s]: %v", text, dmg, err)
	x.State(h.HashBytes([]byte(dmg + fmt.Sprint(err))))
	if !judged {
		x.Count("unjudged")
		return err == nil
	}
	if ok && err != nil {
		x.Fail("C19", "valid address refused", "%q [%s]: %v", text, dmg, err)
	}
	if !ok && err == nil {
		x.Fail("C19", "invalid address accepted", "%q [%s] was decoded as %x", text, dmg, got)
	}
	if ok && got != want {
		x.Fail("C19", "address differs", "%q [%s] was decoded as %x, the characters spell %x", text, dmg, got, want)
	}
	if (dmg == "" || dmg == "respace ") && (err != nil || got != *sent) {
		x.Fail("C19", "address lost", "%q is %x, sent was %x, %v", text, got, *sent, err)
	}
	if err == nil {
		if again := w.encode(got); strings.ReplaceAll(again, " ", "") != strings.ReplaceAll(text, " ", "") {
			x.Fail("C19", "address differs", "%q was decoded as %x, which is %q", text, got, again)
		}
		x.Count("accepted")
	}
	return err == nil
}

// sweep tries every single same-class change and every swap of neighbours.
func (w *addrRun) sweep(text string, seed uint64) {
	x := w.x
	plain := strings.ReplaceAll(text, " ", "")
	r := h.NewRand(seed)
	refuse := func(b []byte, kind string) {
		s := string(b)
		if r.P(30) {
			s = respace(r, s)
		}
		if w.judge(s, kind, nil) {
			x.Fail("C19", "single error accepted", "%q with one error became %q, which was accepted", text, s)
		}
	}
	n := 0
	for i := range plain {
		lo, hi := byte('A'), byte('Z')
		if plain[i] <= '9' {
			lo, hi = '0', '9'
		}
		for c := lo; c <= hi; c++ {
			if c == plain[i] {
				continue
			}
			b := []byte(plain)
			b[i] = c
			refuse(b, "same_class")
			n++
		}
		if i+1 < len(plain) && plain[i] != plain[i+1] && (plain[i] <= '9') == (plain[i+1] <= '9') {
			b := []byte(plain)
			b[i], b[i+1] = b[i+1], b[i]
			refuse(b, "swap")
			x.Count("fault.swap")
		}
	}
	x.CountN("fault.same_class", n)
}

func respace(r *h.Rand, s string) string {
	var b strings.Builder
	for n := r.Geo(1); n > 0; n-- {
		b.WriteByte(' ')
	}
	mode := r.Intn(4)
	for _, c := range []byte(s) {
		b.WriteByte(c)
		if mode == 0 || mode == 1 && r.P(20) {
			b.WriteByte(' ')
		}
		if mode == 2 && r.P(10) {
			b.WriteString(strings.Repeat(" ", r.Intn(40)))
		}
	}
	return b.String()
}

func (w *addrRun) damage(text string, r *h.Rand, n int) (string, string) {
	dmg := ""
	s := text
	for ; n > 0; n-- {
		b := []byte(s)
		if len(b) == 0 {
			break
		}
		i := r.Intn(len(b))
		name := ""
		switch r.Intn(15) {
		case 0:
			s, name = respace(r, strings.ReplaceAll(s, " ", "")), "respace"
		case 1:
			b[i] = byte(' ' + 1 + r.Intn(94))
			s, name = string(b), "substitute"
		case 2:
			switch c := b[i]; {
			case c >= '0' && c <= '9':
				b[i] = byte('0' + r.Intn(10))
			case c >= 'A' && c <= 'Z':
				b[i] = byte('A' + r.Intn(26))
			}
			s, name = string(b), "same_class"
		case 3:
			j := min(i+1+r.Intn(3), len(b)-1)
			b[i], b[j] = b[j], b[i]
			s, name = string(b), "swap"
		case 4:
			j := min(i+1+r.Geo(1), len(b))
			s, name = string(b[:i])+string(b[j:]), "drop"
		case 5:
			s, name = s[:i]+string(alphabet32[r.Intn(32)])+s[i:], "insert"
		case 6:
			j := min(i+1+r.Geo(2), len(b))
			s, name = s[:j]+s[i:], "double"
		case 7:
			if r.P(50) {
				s = strings.ToLower(s)
			} else {
				s = s[:i] + strings.ToLower(s[i:i+1]) + s[i+1:]
			}
			name = "case"
		case 8:
			b[i] = "IOWZ"[r.Intn(4)]
			s, name = string(b), "alphabet"
		case 9:
			o := refEncode(someAddr(r.U64(), r.Intn(6)))
			if i <= len(o) {
				s = s[:i] + o[i:]
			}
			name = "splice"
		case 10:
			s, name = s[:i]+[]string{"\u00a0", "\u2003", "Ｎ", "\xff", "\xe9", "０"}[r.Intn(6)]+s[min(i+r.Intn(2), len(s)):], "unicode"
		case 11:
			s, name = s[:i]+[]string{"\n", "\r", "\t", "\x00", "-", "=", "\r\n"}[r.Intn(7)]+s[min(i+r.Intn(2), len(s)):], "control"
		case 13:
			// Cut to any length, from either end.
			if r.P(50) {
				s = s[:i]
			} else {
				s = s[i+1:]
			}
			if r.P(10) {
				s = strings.Repeat(" ", r.Intn(80))
			}
			name = "cut"
		case 14:
			// Far too long, or just long with spaces.
			if r.P(50) {
				s = strings.Repeat(s, 2+r.Geo(6))
			} else {
				s = s[:i] + strings.Repeat(" ", r.Intn(1<<uint(1+r.Intn(16)))) + s[i:]
			}
			name = "long"
		case 12:
			// Some other text whose checksum is right all the same.
			t := []byte(strings.ReplaceAll(s, " ", ""))
			if len(t) != 36 {
				break
			}
			switch r.Intn(3) {
			case 0:
				t[0], t[1] = byte('A'+r.Intn(26)), byte('A'+r.Intn(26))
			case 1:
				t[4+r.Intn(32)] = "IOWZ"[r.Intn(4)]
			}
			t[2], t[3] = '0', '0'
			if rem, ok := refCheck(string(t)); ok {
				c := 98 - rem
				if r.P(25) {
					c = (c + 97) % 194 // the same remainder, written as another number
				}
				if c < 100 {
					t[2], t[3] = byte('0'+c/10), byte('0'+c%10)
				}
			}
			s, name = string(t), "country"
		}
		if name != "" {
			w.x.Count("fault." + name)
			dmg += name + " "
		}
	}
	return s, dmg
}
