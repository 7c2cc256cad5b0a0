package scen

import (
	"bytes"
	"fmt"
	"reflect"

	"nimsim/h"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/wire"
)

// A protocol value with one thing wrong somewhere inside: no encoder may pretend
// that it was encoded.

// flaw is one place of a value that can be broken.
type flaw struct {
	what string
	do   func()
}

// lenLimits are the longest encodable lists.
var lenLimits = map[string]int{
	"InvMessage.Vectors": 65535, "GetBlocksMessage.Locators": 65535, "GetTxProofMessage.Addresses": 65535, "AddrMessage.Addresses": 65535,
	"VersionMessage.UserAgent": 255, "PeerAddressSrv.Host": 255, "BlockBody.ExtraData": 255, "BlockBody.Txs": 65535, "BlockBody.Pruned": 65535,
	"ExtendedTx.Data": 65535, "ExtendedTx.Proof": 65535,
}

// flaws lists the places in v. Drawing what is put there happens in do.
func flaws(r *h.Rand, v reflect.Value, out []flaw) []flaw {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			return flaws(r, v.Elem(), out)
		}
	case reflect.Interface:
		if v.IsNil() {
			return out
		}
		e := v.Elem()
		if v.CanSet() && v.NumMethod() > 0 || v.CanSet() && e.Type() == reflect.TypeOf(&wire.PeerAddressSrv{}) {
			out = append(out, flaw{"a missing " + e.Type().String(), func() { v.Set(reflect.Zero(v.Type())) }},
				flaw{"a nil " + e.Type().String(), func() { v.Set(reflect.Zero(e.Type())) }})
		}
		return flaws(r, e, out)
	case reflect.Slice, reflect.Array:
		n := v.Len()
		if n == 0 || v.Index(0).Kind() == reflect.Uint8 {
			return out
		}
		for _, i := range []int{0, n / 2, n - 1, r.Intn(n)} {
			out = flaws(r, v.Index(i), out)
		}
	case reflect.Struct:
		if na, ok := v.Addr().Interface().(*wire.NetAddress); ok {
			return append(out, flaw{"a net address of unknown type", func() { na.Type = uint8(4 + r.Intn(252)) }},
				flaw{"a net address without IP", func() { na.Type, na.IP = uint8(r.Intn(2)), nil }},
				flaw{"a net address with an IP of the wrong length", func() {
					na.Type = uint8(r.Intn(2))
					na.IP = r.Bytes([]int{1, 3, 5, 8, 15, 17, 32}[r.Intn(7)])
				}},
				flaw{"an IPv6 address marked as IPv4", func() { na.Type, na.IP = 0, r.Bytes(16); na.IP[0] |= 1 }})
		}
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if max, ok := lenLimits[t.Name()+"."+t.Field(i).Name]; ok {
				out = append(out, flaw{fmt.Sprintf("%s.%s longer than %d", t.Name(), t.Field(i).Name, max), func() {
					n := max + 1
					if r.P(50) {
						n += r.Intn(3)
					} else if r.P(20) {
						n = 2*(max+1) - r.Intn(2)
					}
					if f.Kind() == reflect.String {
						f.SetString(string(r.Bytes(n)))
						return
					}
					l := reflect.MakeSlice(f.Type(), n, n)
					for i := 0; i < n; i++ {
						if f.Len() > 0 {
							l.Index(i).Set(f.Index(i % f.Len()))
							continue
						}
						switch e := l.Index(i).Addr().Interface().(type) {
						case *wire.WrapTx:
							e.Tx = new(wire.BasicTx)
						case *wire.AccountPruned:
							e.Account.Account = new(wire.BasicAccount)
						}
					}
					f.Set(l)
				}})
			}
			out = flaws(r, f, out)
		}
	}
	return out
}

// wireStep encodes a protocol value, cuts its encoding short and encodes the
// value again with a flaw.
func wireStep(x *h.Ctx, s *h.Step) {
	seed, kind := s.UArg(0), s.Mod(1, nMessages+nItems)
	r := h.NewRand(seed + 5)
	g := &wg{h.NewRand(seed), false}
	var v interface{}
	var ref []byte
	if kind < nMessages {
		m, _, b := g.message(kind)
		v, ref = m, b
		if predefined(kind) {
			return
		}
	} else {
		v, ref = g.item(kind - nMessages)
	}
	name := fmt.Sprintf("%T", v)
	guard := func(what string, fn func()) {
		if pi := h.Catch(fn); pi != nil {
			if !pi.Repo {
				panic(pi.Val)
			}
			x.Fail("C14", pi.Class(), "%s of %s: %s", what, name, pi)
		}
	}
	x.Count("op.protocol_value")
	var size, n int
	var out []byte
	var err error
	guard("Size", func() { size, err = beserial.Size(v) })
	if err != nil || size != len(ref) {
		x.Fail("C14", "size differs", "Size of a valid %s is %d (error %v), encoded are %d bytes: %s", name, size, err, len(ref), show(v))
	}
	guard("Marshal", func() { out, err = beserial.Marshal(nil, v) })
	if err != nil || !bytes.Equal(out, ref) {
		x.Fail("C14", "encoding differs", "a valid %s encodes to %s (error %v), documented is %s", name, hexs(out), err, hexs(ref))
	}
	fresh := func() interface{} {
		d := reflect.New(reflect.TypeOf(v).Elem()).Interface()
		return d
	}
	d := fresh()
	guard("Unmarshal", func() { n, err = beserial.Unmarshal(ref, d) })
	if err != nil || n != len(ref) {
		x.Fail("C14", "valid value refused", "a %s of %d bytes: %d consumed, error %v", name, len(ref), n, err)
	}
	// The input ends early.
	cuts := s.Mod(2, 24)
	for i := 0; i < cuts && len(ref) > 0; i++ {
		k := r.Intn(len(ref))
		switch {
		case i < 3 && i < len(ref):
			k = len(ref) - 1 - i
		case i < 6 && i < len(ref):
			k = i - 3
		}
		x.Count("fault.short_input")
		x.Nontrivial()
		d := fresh()
		guard("Unmarshal", func() { n, err = beserial.Unmarshal(ref[:k:k], d) })
		if err == nil {
			x.Fail("C14", "short input accepted", "%s: %d of %d bytes decode without an error (%d consumed): %s", name, k, len(ref), n, show(d))
		}
	}
	// No value at all.
	none := reflect.Zero(reflect.TypeOf(v)).Interface()
	guard("Size", func() { size, err = beserial.Size(none) })
	if err == nil {
		x.Fail("C14", "size of flawed value", "Size of a nil %s succeeds with %d", name, size)
	}
	guard("Marshal", func() { out, err = beserial.Marshal(nil, none) })
	if err == nil {
		x.Fail("C14", "encode of flawed value", "Marshal of a nil %s succeeds with %d bytes", name, len(out))
	}
	guard("Unmarshal", func() { n, err = beserial.Unmarshal(ref, none) })
	if err == nil {
		x.Fail("C14", "decode into nothing", "Unmarshal into a nil %s succeeds with %d bytes", name, n)
	}
	fs := flaws(r, reflect.ValueOf(v), nil)
	if len(fs) == 0 {
		return
	}
	f := fs[s.Mod(3, len(fs))]
	f.do()
	x.Count("fault.flawed_value")
	x.Nontrivial()
	x.State(h.Mix(uint64(kind)<<32|uint64(len(f.what))<<16|uint64(s.Mod(3, len(fs)))) ^ uint64(len(ref)))
	guard("Size", func() { size, err = beserial.Size(v) })
	if err == nil {
		x.Fail("C14", "size of flawed value", "Size of a %s with %s succeeds with %d", name, f.what, size)
	}
	pre := r.Bytes(r.Intn(5))
	guard("Marshal", func() { out, err = beserial.Marshal(pre, v) })
	if err == nil {
		x.Fail("C14", "encode of flawed value", "Marshal of a %s with %s succeeds with %d bytes", name, f.what, len(out))
	}
	if m, ok := v.(wire.Message); ok {
		guard("MarshalMessage", func() { out, err = wire.MarshalMessage(m) })
		if err == nil {
			x.Fail("C14", "encode of flawed value", "MarshalMessage of a %s with %s succeeds with %d bytes", name, f.what, len(out))
		}
	}
	x.Log("%s with %s: %v", name, f.what, err)
}
