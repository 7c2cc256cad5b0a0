package scen

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"

	"nimsim/h"
	"terorie.dev/nimiq/beserial"
)

// The codec scenario: values of generated types pass through the codec while
// element codecs fail at a chosen call, input ends early, lengths overflow
// their prefix and required pointers are missing.

func init() {
	h.Register(&h.Scenario{Name: "codec", Exec: execCodec})
	h.RegisterCheck(&h.Check{Property: "C14", Quick: 300000, Thorough: 7000000, Gen: genCodec,
		Rule: "at least one element codec failed, one input ended early, one length overflowed or one pointer was missing.",
		Real: []string{"beserial", "wire"}, Stub: []string{"element codecs (scripted to fail at the k-th call)", "input source"},
		Measure: "distinct (generated type, fault kind, failing call, encoded size)",
		Assume:  []string{"slices of elements that encode to no bytes are not generated", "byte-sized element types have no custom codec", "slices nested directly in slices have no place for a length tag and are not generated"},
		Faults:  []string{"marshal_error", "unmarshal_error", "size_error", "short_input", "length_overflow", "nil_pointer", "junk_behind", "hostile_length", "flawed_value"}})
}

func genCodec(r *h.Rand, tier string, idx int) *h.Plan {
	p := &h.Plan{Scenario: "codec"}
	pool := 3000
	if tier == "thorough" {
		pool = 30000
	}
	for n := 1 + r.Intn(4); n > 0; n-- {
		if r.P(8) {
			p.Add("wire", int64(r.U64()>>1), int64(r.Intn(nMessages+nItems)), int64(r.Intn(24)), int64(r.Intn(1<<20)))
			continue
		}
		// type, value, fault, position, prefix/junk
		p.Add("value", int64(r.Intn(pool)), int64(r.U64()>>1), int64(r.Intn(9)), int64(r.Geo(6)), int64(r.Intn(24)))
	}
	return p
}

// --- element codecs under control of the simulation ---

var errElement = errors.New("injected element codec failure")

// elemFault fails the k-th call of a kind ('m', 'u', 's').
var elemFault struct {
	op    byte
	k     int
	calls int
	hit   bool
}

func elemFail(op byte) bool {
	if elemFault.op != op {
		return false
	}
	elemFault.calls++
	if elemFault.calls-1 == elemFault.k {
		elemFault.hit = true
		return true
	}
	return false
}

// custP has a codec on the pointer and a variable size.
type custP struct{ B []byte }

func (c *custP) MarshalBESerial(b []byte) ([]byte, error) {
	if elemFail('m') {
		return append(b, 0xde), errElement
	}
	return append(append(b, byte(len(c.B))), c.B...), nil
}
func (c *custP) SizeBESerial() (int, error) {
	if elemFail('s') {
		return 3, errElement
	}
	return 1 + len(c.B), nil
}
func (c *custP) UnmarshalBESerial(b []byte) (int, error) {
	if elemFail('u') {
		return min(1, len(b)), errElement
	}
	if len(b) < 1 || len(b) < 1+int(b[0]) {
		return 0, beserial.ErrUnexpectedEOF
	}
	c.B = append([]byte(nil), b[1:1+int(b[0])]...)
	return 1 + len(c.B), nil
}

// custV encodes on the value: little endian, to tell it from the default.
type custV uint16

func (c custV) MarshalBESerial(b []byte) ([]byte, error) {
	if elemFail('m') {
		return nil, errElement
	}
	return append(b, byte(c), byte(c>>8), 0x55), nil
}
func (c custV) SizeBESerial() (int, error) {
	if elemFail('s') {
		return 0, errElement
	}
	return 3, nil
}
func (c *custV) UnmarshalBESerial(b []byte) (int, error) {
	if elemFail('u') {
		return 0, errElement
	}
	if len(b) < 3 {
		return len(b), beserial.ErrUnexpectedEOF
	}
	*c = custV(b[0]) | custV(b[1])<<8
	return 3, nil
}

// custS is a string with its own framing.
type custS string

func (c *custS) MarshalBESerial(b []byte) ([]byte, error) {
	if elemFail('m') {
		return b, errElement
	}
	return append(append(b, string(*c)...), 0), nil
}
func (c *custS) SizeBESerial() (int, error) {
	if elemFail('s') {
		return 1, errElement
	}
	return len(*c) + 1, nil
}
func (c *custS) UnmarshalBESerial(b []byte) (int, error) {
	if elemFail('u') {
		return len(b), errElement
	}
	i := bytes.IndexByte(b, 0)
	if i < 0 {
		return 0, beserial.ErrUnexpectedEOF
	}
	*c = custS(b[:i])
	return i + 1, nil
}

// custN nests the codec, the way wrapped accounts and transactions do.
type custN struct {
	A uint32
	E custV
	L []custP `beserial:"len_tag=uint8"`
}

type custNPlain struct {
	A uint32
	E custV
	L []custP `beserial:"len_tag=uint8"`
}

func (c *custN) MarshalBESerial(b []byte) ([]byte, error) {
	if elemFail('m') {
		return b, errElement
	}
	return beserial.Marshal(append(b, 0x17), (*custNPlain)(c))
}
func (c *custN) SizeBESerial() (int, error) {
	if elemFail('s') {
		return 0, errElement
	}
	n, err := beserial.Size((*custNPlain)(c))
	return n + 1, err
}
func (c *custN) UnmarshalBESerial(b []byte) (int, error) {
	if elemFail('u') {
		return 0, errElement
	}
	if len(b) == 0 {
		return 0, beserial.ErrUnexpectedEOF
	}
	n, err := beserial.Unmarshal(b[1:], (*custNPlain)(c))
	return n + 1, err
}

// custW is a number with a codec on the pointer, wider than the number.
type custW uint16

func (c *custW) MarshalBESerial(b []byte) ([]byte, error) {
	if elemFail('m') {
		return b, errElement
	}
	return append(b, 0x77, byte(*c), byte(*c>>8), 0x33), nil
}
func (c *custW) SizeBESerial() (int, error) {
	if elemFail('s') {
		return 4, errElement
	}
	return 4, nil
}
func (c *custW) UnmarshalBESerial(b []byte) (int, error) {
	if elemFail('u') {
		return 0, errElement
	}
	if len(b) < 4 {
		return 0, beserial.ErrUnexpectedEOF
	}
	if b[0] != 0x77 || b[3] != 0x33 {
		return 0, errElement
	}
	*c = custW(b[1]) | custW(b[2])<<8
	return 4, nil
}

// custF has a kind that has no encoding of its own.
type custF float64

func (c *custF) MarshalBESerial(b []byte) ([]byte, error) {
	if elemFail('m') {
		return nil, errElement
	}
	var x [8]byte
	binary.LittleEndian.PutUint64(x[:], math.Float64bits(float64(*c)))
	return append(b, x[:]...), nil
}
func (c *custF) SizeBESerial() (int, error) {
	if elemFail('s') {
		return 0, errElement
	}
	return 8, nil
}
func (c *custF) UnmarshalBESerial(b []byte) (int, error) {
	if elemFail('u') {
		return 8, errElement
	}
	if len(b) < 8 {
		return 0, beserial.ErrUnexpectedEOF
	}
	*c = custF(math.Float64frombits(binary.LittleEndian.Uint64(b)))
	return 8, nil
}

// custB is a list that needs no length tag: a byte behind each element says
// whether another one follows.
type custB []byte

func (c *custB) MarshalBESerial(b []byte) ([]byte, error) {
	if elemFail('m') {
		return append(b, 1), errElement
	}
	for _, x := range *c {
		b = append(b, 1, x)
	}
	return append(b, 0), nil
}
func (c *custB) SizeBESerial() (int, error) {
	if elemFail('s') {
		return 0, errElement
	}
	return 2*len(*c) + 1, nil
}
func (c *custB) UnmarshalBESerial(b []byte) (int, error) {
	if elemFail('u') {
		return min(2, len(b)), errElement
	}
	*c = nil
	for i := 0; ; i += 2 {
		switch {
		case len(b) <= i:
			return 0, beserial.ErrUnexpectedEOF
		case b[i] == 0:
			return i + 1, nil
		case b[i] != 1:
			return i, errElement
		case len(b) <= i+1:
			return len(b), beserial.ErrUnexpectedEOF
		}
		*c = append(*c, b[i+1])
	}
}

// custA is a byte array with a codec: written backwards.
type custA [3]byte

func (c *custA) MarshalBESerial(b []byte) ([]byte, error) {
	if elemFail('m') {
		return b, errElement
	}
	return append(b, c[2], c[1], c[0], c[0]^c[1]^c[2]), nil
}
func (c *custA) SizeBESerial() (int, error) {
	if elemFail('s') {
		return 4, errElement
	}
	return 4, nil
}
func (c *custA) UnmarshalBESerial(b []byte) (int, error) {
	if elemFail('u') {
		return 0, errElement
	}
	if len(b) < 4 {
		return 0, beserial.ErrUnexpectedEOF
	}
	if b[0]^b[1]^b[2] != b[3] {
		return 4, errElement
	}
	*c = custA{b[2], b[1], b[0]}
	return 4, nil
}

// Types with a name but without a codec of their own.
type (
	namedU8   uint8
	namedI8   int8
	namedU16  uint16
	namedI32  int32
	namedU64  uint64
	namedBool bool
	namedStr  string
	namedBlob []byte
	namedList []namedU16
)

var namedTypes = []reflect.Type{reflect.TypeOf(namedU8(0)), reflect.TypeOf(namedI8(0)), reflect.TypeOf(namedU16(0)), reflect.TypeOf(namedI32(0)), reflect.TypeOf(namedU64(0))}

// Different types of the same name.
func twinA() reflect.Type {
	type twin struct {
		A uint16
		B []byte `beserial:"len_tag=uint8"`
	}
	return reflect.TypeOf(twin{})
}

func twinB() reflect.Type {
	type twin struct {
		A []uint16 `beserial:"len_tag=uint16"`
		B custW
		C *int64 `beserial:"optional"`
	}
	return reflect.TypeOf(twin{})
}

func twinShape(b bool) *shape {
	u8, u16 := &shape{kind: shNum, t: numTypes[0]}, &shape{kind: shNum, t: numTypes[1]}
	if b {
		i64 := &shape{kind: shNum, t: numTypes[7]}
		return &shape{kind: shStruct, t: twinB(), fields: []*shape{
			{kind: shSlice, n: 2, elem: u16, t: reflect.SliceOf(u16.t)}, {kind: shCustW, t: reflect.TypeOf(custW(0))},
			{kind: shPtr, opt: true, elem: i64, t: reflect.PtrTo(i64.t)}}}
	}
	return &shape{kind: shStruct, t: twinA(), fields: []*shape{u16, {kind: shSlice, n: 1, elem: u8, t: reflect.SliceOf(u8.t)}}}
}

// Types that refer to themselves.
type (
	recList struct {
		V    uint16
		Next *recList `beserial:"optional"`
	}
	recLog struct {
		Prev *recLog `beserial:"optional"`
		Text string  `beserial:"len_tag=uint8"`
		Code custW
	}
	recTree struct {
		Kids []recTree `beserial:"len_tag=uint16"`
		K    int8
		Peer *recTree `beserial:"optional"`
	}
)

var recTypes = []reflect.Type{reflect.TypeOf(recList{}), reflect.TypeOf(recLog{}), reflect.TypeOf(recTree{})}

func (f *filler) recList(n int, b []byte) (*recList, []byte) {
	first := &recList{}
	for c := first; ; c = c.Next {
		c.V = uint16(f.r.U64())
		b = append(b, byte(c.V>>8), byte(c.V))
		if n--; n < 0 {
			return first, append(b, 0)
		}
		b = append(b, 1)
		c.Next = &recList{}
	}
}

func (f *filler) recLog(n int, b []byte) (*recLog, []byte) {
	c := &recLog{}
	if n > 0 {
		c.Prev, b = f.recLog(n-1, append(b, 1))
	} else {
		b = append(b, 0)
	}
	x := f.r.Bytes(f.r.Geo(2))
	c.Text, c.Code = string(x), custW(f.r.U64())
	f.custom++
	return c, append(append(append(b, byte(len(x))), x...), 0x77, byte(c.Code), byte(c.Code>>8), 0x33)
}

func (f *filler) recTree(n *int, c *recTree, b []byte) []byte {
	c.K = int8(f.r.U64())
	kids := f.r.Intn(4)
	if kids > *n {
		kids = *n
	}
	*n -= kids
	b = append(b, 0, byte(kids))
	if kids > 0 {
		c.Kids = make([]recTree, kids)
	}
	for i := range c.Kids {
		b = f.recTree(n, &c.Kids[i], b)
	}
	b = append(b, byte(c.K))
	if *n == 0 || f.r.P(60) {
		return append(b, 0)
	}
	*n--
	c.Peer = &recTree{}
	return f.recTree(n, c.Peer, append(b, 1))
}

// numType draws a number type.
func numType(r *h.Rand) reflect.Type {
	if r.P(12) {
		return namedTypes[r.Intn(len(namedTypes))]
	}
	return numTypes[r.Intn(8)]
}

// --- generated types ---

type shape struct {
	kind   int // sh...
	t      reflect.Type
	n      int // array length, bytes of the length tag
	opt    bool
	elem   *shape
	fields []*shape
}

const (
	shNum = iota
	shBool
	shBytes // [n]byte
	shArray
	shSlice // []T, []byte with tag
	shString
	shPtr
	shStruct
	shCustP
	shCustV
	shCustS
	shCustN
	shCustW
	shCustF
	shCustB
	shCustA
	shRec // a type that refers to itself
)

var numTypes = []reflect.Type{reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0))}

// tagged says whether the shape needs a length tag.
func (s *shape) tagged() bool {
	return s.kind == shSlice || s.kind == shString || s.kind == shPtr && s.elem.tagged()
}

func (s *shape) tagBytes() int {
	if s.kind == shPtr {
		return s.elem.tagBytes()
	}
	return s.n
}

// newShape draws a type. field allows what only struct fields can have.
func newShape(r *h.Rand, depth int, field bool) *shape {
	w := []int{30, 6, 8, 8, 0, 0, 8, 8, 8, 8, 6, 5, 4, 2, 3, 3, 2}
	if field {
		w[shSlice], w[shString] = 22, 8
	}
	if depth <= 0 {
		w[shArray], w[shPtr], w[shStruct] = 0, 0, 0
	}
	s := &shape{kind: r.Weighted(w)}
	switch s.kind {
	case shNum:
		s.t = numType(r)
	case shBool:
		s.t = reflect.TypeOf(false)
		if r.P(10) {
			s.t = reflect.TypeOf(namedBool(false))
		}
	case shBytes:
		s.n = 1 + r.Intn(33)
		s.t = reflect.ArrayOf(s.n, numTypes[0])
		if r.P(12) {
			s.t = reflect.ArrayOf(s.n, namedTypes[0])
		}
	case shArray:
		s.n = 1 + r.Intn(4)
		if r.P(8) {
			s.n = 5 + r.Intn(30)
		}
		s.elem = newShape(r, depth-1, false)
		for s.elem.kind == shNum && s.elem.t == numTypes[0] {
			s.elem = newShape(r, depth-1, false)
		}
		s.t = reflect.ArrayOf(s.n, s.elem.t)
	case shSlice:
		s.n = 1 << uint(r.Intn(4))
		if depth <= 0 || r.P(30) {
			s.elem = &shape{kind: shNum, t: numType(r)}
			if r.P(50) {
				s.elem.t = numTypes[0]
			}
		} else {
			s.elem = newShape(r, depth-1, false)
		}
		s.t = reflect.SliceOf(s.elem.t)
		for _, t := range []reflect.Type{reflect.TypeOf(namedBlob{}), reflect.TypeOf(namedList{})} {
			if s.elem.t == t.Elem() && r.P(25) {
				s.t = t
			}
		}
	case shString:
		s.n = 1 << uint(r.Intn(4))
		s.t = reflect.TypeOf("")
		if r.P(10) {
			s.t = reflect.TypeOf(namedStr(""))
		}
	case shPtr:
		s.opt = field && r.P(65)
		s.elem = newShape(r, depth-1, field)
		for s.elem.kind == shPtr && (s.opt || s.elem.opt) {
			s.elem = newShape(r, depth-1, field)
		}
		s.t = reflect.PtrTo(s.elem.t)
	case shStruct:
		if r.P(6) {
			return twinShape(r.P(50))
		}
		return structShape(r, depth-1)
	case shCustP:
		s.t = reflect.TypeOf(custP{})
	case shCustV:
		s.t = reflect.TypeOf(custV(0))
	case shCustS:
		s.t = reflect.TypeOf(custS(""))
	case shCustN:
		s.t = reflect.TypeOf(custN{})
	case shCustW:
		s.t = reflect.TypeOf(custW(0))
	case shCustF:
		s.t = reflect.TypeOf(custF(0))
	case shCustB:
		s.t = reflect.TypeOf(custB(nil))
	case shCustA:
		s.t = reflect.TypeOf(custA{})
	case shRec:
		s.n = r.Intn(len(recTypes))
		s.t = recTypes[s.n]
	}
	return s
}

func structShape(r *h.Rand, depth int) *shape {
	var fs []*shape
	for n := 1 + r.Intn(6); n > 0; n-- {
		fs = append(fs, newShape(r, depth, true))
	}
	return structOf(r, fs)
}

func structOf(r *h.Rand, fields []*shape) *shape {
	s := &shape{kind: shStruct, fields: fields}
	var fs []reflect.StructField
	for i, f := range fields {
		var tag []string
		if f.opt {
			tag = append(tag, "optional")
		}
		if f.tagged() {
			tag = append(tag, fmt.Sprintf("len_tag=uint%d", 8*f.tagBytes()))
		}
		if r.P(50) && len(tag) == 2 {
			tag[0], tag[1] = tag[1], tag[0]
		}
		sf := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: f.t}
		if len(tag) > 0 {
			sf.Tag = reflect.StructTag(`beserial:"` + strings.Join(tag, ",") + `"`)
			if r.P(20) {
				sf.Tag = `json:"x" ` + sf.Tag
			}
		}
		fs = append(fs, sf)
	}
	s.t = reflect.StructOf(fs)
	return s
}

// deepShape draws a type with few fields on very many levels.
func deepShape(r *h.Rand) *shape {
	s := newShape(r, 0, true)
	lists := r.P(40) // a chain of nodes that point to the next one
	for n := 6 + r.Intn(40); n > 0; n-- {
		if lists {
			if s.kind != shPtr {
				s = &shape{kind: shPtr, elem: s, t: reflect.PtrTo(s.t), opt: r.P(8)}
				continue
			}
			fs := []*shape{s}
			if r.P(50) {
				fs = append([]*shape{newShape(r, 0, true)}, s)
			}
			s = structOf(r, fs)
			continue
		}
		switch w := r.Intn(20); {
		case w < 5 && !s.tagged() && !s.opt && !(s.kind == shNum && s.t == numTypes[0]):
			s = &shape{kind: shArray, n: 1, elem: s, t: reflect.ArrayOf(1, s.t)}
		case w < 9 && s.kind != shPtr:
			s = &shape{kind: shPtr, elem: s, t: reflect.PtrTo(s.t), opt: r.P(20)}
		case w < 11 && !s.tagged() && !s.opt:
			s = &shape{kind: shSlice, n: 1 << uint(r.Intn(4)), elem: s, t: reflect.SliceOf(s.t)}
		default:
			fs := []*shape{s}
			if r.P(30) {
				fs = append(fs, newShape(r, 0, true))
				if r.P(50) {
					fs[0], fs[1] = fs[1], fs[0]
				}
			}
			s = structOf(r, fs)
		}
	}
	return structOf(r, []*shape{s})
}

func newOf(s *shape) reflect.Value { return reflect.New(s.t) }

var shapeCache = map[uint64]*shape{}

func shapeOf(seed uint64) *shape {
	if s := shapeCache[seed]; s != nil {
		return s
	}
	r := h.NewRand(h.Mix(seed + 11))
	s := structShape(r, 3)
	if seed%32 == 9 {
		s = deepShape(r)
	}
	shapeCache[seed] = s
	return s
}

// filler draws values and writes down their encoding.
type filler struct {
	r       *h.Rand
	nilAt   int // which required pointer stays nil, -1 none
	longAt  int // which list gets too long, -1 none
	ptrs    int
	lists   int
	didNil  bool
	didLong bool
	custom  int // element codec calls
	deep    int // long lists around
}

// size is a rough number of leaves of a value.
func (s *shape) size() int {
	n := 1
	if s.elem != nil {
		n = s.elem.size()
		if s.kind == shArray {
			n *= s.n
		}
	}
	for _, f := range s.fields {
		n += f.size()
	}
	return n
}

func (f *filler) fill(s *shape, v reflect.Value, b []byte) []byte {
	r := f.r
	switch s.kind {
	case shNum:
		u := r.U64()
		if r.P(25) {
			u = []uint64{0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 1<<63 - 1, 1 << 63, 1<<64 - 1}[r.Intn(13)]
		} else if r.P(25) {
			u >>= uint(r.Intn(64))
		}
		size := int(s.t.Size())
		if v.CanInt() {
			v.SetInt(int64(u<<uint(64-8*size)) >> uint(64-8*size))
		} else {
			v.SetUint(u << uint(64-8*size) >> uint(64-8*size))
		}
		var x [8]byte
		binary.BigEndian.PutUint64(x[:], u)
		return append(b, x[8-size:]...)
	case shBool:
		t := r.P(50)
		v.SetBool(t)
		if t {
			return append(b, 1)
		}
		return append(b, 0)
	case shBytes:
		x := r.Bytes(s.n)
		for i, y := range x {
			v.Index(i).SetUint(uint64(y))
		}
		return append(b, x...)
	case shArray:
		for i := 0; i < s.n; i++ {
			b = f.fill(s.elem, v.Index(i), b)
		}
		return b
	case shSlice, shString:
		n := r.Geo(2)
		byteElems := s.kind == shString || s.elem.kind == shNum
		if byteElems && r.P(10) {
			n = []int{254, 255, 256, 300}[r.Intn(4)]
			if s.n == 1 && n > 255 {
				n = 255
			}
			if r.P(25) {
				n = 120 + r.Intn(136)
			}
			if s.n > 1 && r.P(4) {
				n = []int{32767, 32768, 32769, 65534, 65535, 40000}[r.Intn(6)]
				if s.n > 2 && r.P(50) {
					n = []int{65536, 65537, 70000}[r.Intn(3)]
				}
			}
			if s.n > 1 && r.P(10) {
				n = r.Intn(1 << uint(6+r.Intn(11)))
			}
		} else if !byteElems && r.P(1) {
			// Long lists of larger elements.
			if n = []int{127, 128, 129, 200, 255}[r.Intn(5)]; s.elem.size() > 64 || f.deep > 0 {
				n = 4
			}
		}
		if s.n <= 2 {
			if f.lists == f.longAt && (s.n == 1 || byteElems) {
				n = []int{256, 257, 300, 512, 65535, 65536}[r.Intn(6)]
				if !byteElems {
					n = 256 + r.Intn(2)
				}
				if s.n == 2 {
					n = []int{65536, 65537, 131072}[r.Intn(3)]
				}
				f.didLong = true
			}
			f.lists++
		}
		var x [8]byte
		binary.BigEndian.PutUint64(x[:], uint64(n))
		b = append(b, x[8-s.n:]...)
		if s.kind == shString {
			x := r.Bytes(n)
			v.SetString(string(x))
			return append(b, x...)
		}
		if n == 0 && r.P(50) {
			return b // nil
		}
		v.Set(reflect.MakeSlice(s.t, n, n+r.Intn(3)))
		if n > 100 {
			f.deep++
			defer func() { f.deep-- }()
		}
		for i := 0; i < n; i++ {
			b = f.fill(s.elem, v.Index(i), b)
		}
		return b
	case shPtr:
		if s.opt {
			if r.P(35) {
				return append(b, 0)
			}
			b = append(b, 1)
		} else {
			f.ptrs++
			if f.ptrs-1 == f.nilAt {
				f.didNil = true
				return b
			}
		}
		v.Set(reflect.New(s.elem.t))
		return f.fill(s.elem, v.Elem(), b)
	case shStruct:
		for i, e := range s.fields {
			b = f.fill(e, v.Field(i), b)
		}
		return b
	case shCustP:
		f.custom++
		x := r.Bytes(r.Geo(2))
		v.Set(reflect.ValueOf(custP{x}))
		return append(append(b, byte(len(x))), x...)
	case shCustV:
		f.custom++
		u := uint16(r.U64())
		v.SetUint(uint64(u))
		return append(b, byte(u), byte(u>>8), 0x55)
	case shCustS:
		f.custom++
		x := r.Bytes(r.Geo(3))
		for i := range x {
			x[i] |= 1
		}
		v.SetString(string(x))
		return append(append(b, x...), 0)
	case shCustN:
		f.custom += 2
		c := custN{A: uint32(r.U64()), E: custV(r.U64())}
		b = append(b, 0x17, byte(c.A>>24), byte(c.A>>16), byte(c.A>>8), byte(c.A), byte(c.E), byte(c.E>>8), 0x55)
		n := r.Geo(1)
		b = append(b, byte(n))
		for ; n > 0; n-- {
			f.custom++
			x := r.Bytes(r.Geo(1))
			c.L = append(c.L, custP{x})
			b = append(append(b, byte(len(x))), x...)
		}
		v.Set(reflect.ValueOf(c))
		return b
	case shCustW:
		f.custom++
		u := uint16(r.U64())
		v.SetUint(uint64(u))
		return append(b, 0x77, byte(u), byte(u>>8), 0x33)
	case shCustF:
		f.custom++
		d := float64(int32(r.U64()))
		v.SetFloat(d)
		var x [8]byte
		binary.LittleEndian.PutUint64(x[:], math.Float64bits(d))
		return append(b, x[:]...)
	case shCustB:
		f.custom++
		x := r.Bytes(r.Geo(2))
		v.Set(reflect.ValueOf(custB(x)))
		for _, y := range x {
			b = append(b, 1, y)
		}
		return append(b, 0)
	case shCustA:
		f.custom++
		var c custA
		r.Fill(c[:])
		v.Set(reflect.ValueOf(c))
		return append(b, c[2], c[1], c[0], c[0]^c[1]^c[2])
	case shRec:
		n := r.Geo(5)
		if r.P(4) && f.deep == 0 {
			n = r.Intn(300)
		}
		switch s.n {
		case 0:
			c, b := f.recList(n, b)
			v.Set(reflect.ValueOf(*c))
			return b
		case 1:
			c, b := f.recLog(n, b)
			v.Set(reflect.ValueOf(*c))
			return b
		default:
			c := recTree{}
			b = f.recTree(&n, &c, b)
			v.Set(reflect.ValueOf(c))
			return b
		}
	}
	panic("shape")
}

func execCodec(x *h.Ctx, p *h.Plan) {
	for i := range p.Steps {
		x.CurStep = i
		if p.Steps[i].Op == "wire" {
			wireStep(x, &p.Steps[i])
			continue
		}
		codecStep(x, &p.Steps[i])
	}
	elemFault.op = 0
}

func codecStep(x *h.Ctx, s *h.Step) {
	sh := shapeOf(s.UArg(0))
	fault, pos := s.Mod(2, 9), s.Mod(3, 1000)
	f := &filler{r: h.NewRand(s.UArg(1)), nilAt: -1, longAt: -1}
	switch fault {
	case 4:
		f.longAt = pos
	case 5:
		f.nilAt = pos
	}
	make1 := func() (interface{}, []byte) {
		g := *f
		g.r = h.NewRand(s.UArg(1))
		v := reflect.New(sh.t)
		b := g.fill(sh, v.Elem(), nil)
		f.custom, f.didNil, f.didLong = g.custom, g.didNil, g.didLong
		return v.Interface(), b
	}
	v, ref := make1()
	guard := func(what string, fn func()) {
		if pi := h.Catch(fn); pi != nil {
			if !pi.Repo {
				panic(pi.Val)
			}
			x.Fail("C14", pi.Class(), "%s of %s: %s", what, sh.t, pi)
		}
	}
	arm := func(op byte) {
		elemFault.op, elemFault.k, elemFault.calls, elemFault.hit = 0, pos, 0, false
		if op != 0 && f.custom > 0 {
			elemFault.op = op
			elemFault.k = pos % f.custom
		}
	}
	var mOp, uOp, sOp byte
	switch fault {
	case 1:
		mOp = 'm'
	case 2:
		uOp = 'u'
	case 3:
		sOp = 's'
	}
	invalid := ""
	if f.didLong {
		invalid = "length does not fit its prefix"
		x.Count("fault.length_overflow")
	}
	if f.didNil {
		invalid = "required pointer is nil"
		x.Count("fault.nil_pointer")
	}
	junk := h.NewRand(s.UArg(1) + 1).Bytes(s.Mod(4, 24))
	x.Count("op.value")
	x.State(h.Mix(s.UArg(0)<<20|uint64(fault)<<16|uint64(pos)) ^ uint64(len(ref)))

	// Size.
	var size int
	var err error
	arm(sOp)
	guard("Size", func() { size, err = beserial.Size(v) })
	switch {
	case elemFault.hit:
		x.Count("fault.size_error")
		x.Nontrivial()
		if err == nil {
			x.Fail("C14", "size failure swallowed", "sizer call %d fails in %s, Size returns %d and no error", elemFault.k, sh.t, size)
		}
	case invalid != "" && err == nil:
		x.Fail("C14", "size of invalid value: "+invalid, "Size of a %s succeeds with %d: %s", sh.t, size, invalid)
	case invalid == "" && err != nil:
		x.Fail("C14", "size fails", "Size of a valid %s: %v", sh.t, err)
	case invalid == "" && size != len(ref):
		x.Fail("C14", "size differs", "Size of a %s is %d, encoded are %d bytes: %s", sh.t, size, len(ref), show(v))
	}

	// Marshal.
	buf := append(make([]byte, 0, len(junk)+int(s.UArg(1)%64)), junk...)
	var out []byte
	arm(mOp)
	guard("Marshal", func() { out, err = beserial.Marshal(buf, v) })
	x.Log("%s fault %d: size %d, marshal %d bytes, %v", sh.t, fault, size, len(out), err)
	switch {
	case elemFault.hit:
		x.Count("fault.marshal_error")
		x.Nontrivial()
		if err == nil {
			x.Fail("C14", "encode failure swallowed", "encoder call %d fails in %s, Marshal reports no error", elemFault.k, sh.t)
		}
	case invalid != "":
		x.Nontrivial()
		if err == nil {
			x.Fail("C14", "encode of invalid value: "+invalid, "Marshal of a %s succeeds: %s", sh.t, invalid)
		}
	case err != nil:
		x.Fail("C14", "encode fails", "Marshal of a valid %s: %v", sh.t, err)
	case !bytes.Equal(out, append(append([]byte(nil), junk...), ref...)):
		x.Fail("C14", "encoding differs", "%s behind %d bytes encodes to %s, documented is %s", sh.t, len(junk), hexs(out), hexs(ref))
	}
	if !bytes.Equal(buf, junk) {
		x.Fail("C14", "buffer disturbed", "encoding %s changed what the buffer held", sh.t)
	}
	if invalid != "" {
		return
	}

	// Unmarshal, with more data behind.
	if len(junk) > 0 {
		x.Count("fault.junk_behind")
	}
	in := append(append([]byte(nil), ref...), junk...)
	got := reflect.New(sh.t).Interface()
	var n int
	arm(uOp)
	guard("Unmarshal", func() { n, err = beserial.Unmarshal(in, got) })
	if elemFault.hit {
		x.Count("fault.unmarshal_error")
		x.Nontrivial()
		if err == nil {
			x.Fail("C14", "decode failure swallowed", "decoder call %d fails in %s, Unmarshal reports %d bytes and no error", elemFault.k, sh.t, n)
		}
		var full error
		arm(uOp)
		guard("UnmarshalFull", func() { full = beserial.UnmarshalFull(ref, reflect.New(sh.t).Interface()) })
		if full == nil {
			x.Fail("C14", "decode failure swallowed", "decoder call %d fails in %s, UnmarshalFull reports no error", elemFault.k, sh.t)
		}
		arm(0)
		return
	}
	if err != nil {
		x.Fail("C14", "decode fails", "Unmarshal of %s into %s: %v", hexs(in), sh.t, err)
	}
	if n != len(ref) {
		x.Fail("C14", "consumed bytes differ", "decoding a %s of %d bytes followed by %d others consumed %d", sh.t, len(ref), len(junk), n)
	}
	if !same(got, v) {
		x.Fail("C14", "value differs", "a %s was decoded from %s as %s, encoded was %s", sh.t, hexs(ref), show(got), show(v))
	}
	var full error
	guard("UnmarshalFull", func() { full = beserial.UnmarshalFull(in, reflect.New(sh.t).Interface()) })
	if (full == nil) != (len(junk) == 0) {
		x.Fail("C14", "trailing bytes misjudged", "UnmarshalFull of a %s with %d bytes behind: %v", sh.t, len(junk), full)
	}

	// The same destination once more: nothing of what it held may survive.
	if fault == 0 || fault == 7 {
		g := *f
		g.r = h.NewRand(s.UArg(1) + 77)
		v2 := reflect.New(sh.t)
		ref2 := g.fill(sh, v2.Elem(), nil)
		guard("Unmarshal", func() { n, err = beserial.Unmarshal(ref2, got) })
		if err != nil || n != len(ref2) || !same(got, v2.Interface()) {
			x.Fail("C14", "value differs", "a %s was decoded into a used value from %s as %s, encoded was %s, %v", sh.t, hexs(ref2), show(got), show(v2.Interface()), err)
		}
	}

	// Input that ends early.
	cut := func(k int) {
		d := reflect.New(sh.t).Interface()
		var n int
		var err error
		guard("Unmarshal", func() { n, err = beserial.Unmarshal(ref[:k:k], d) })
		if err == nil {
			x.Fail("C14", "short input accepted", "the first %d of %d bytes of a %s were decoded without error: %s", k, len(ref), sh.t, show(d))
		}
		if n > k || n < 0 {
			x.Fail("C14", "consumed more than given", "%d of %d bytes consumed", n, k)
		}
	}
	switch {
	case fault == 6 && len(ref) <= 500:
		for k := range ref {
			cut(k)
		}
		x.CountN("fault.short_input", len(ref))
		x.Nontrivial()
	case fault == 6 || fault == 7:
		r := h.NewRand(s.UArg(1) + 2)
		for i := 0; i < 8; i++ {
			cut(len(ref) - 1 - r.Intn(len(ref)))
		}
		x.CountN("fault.short_input", 8)
		x.Nontrivial()
	case fault == 8:
		// A damaged byte must never make the decoder read past the end.
		r := h.NewRand(s.UArg(1) + 3)
		for i := 0; i < 8; i++ {
			bad := append([]byte(nil), ref...)
			bad[r.Intn(len(bad))] = []byte{0xff, 0x80, 0x7f, byte(r.U64())}[r.Intn(4)]
			d := reflect.New(sh.t).Interface()
			var n int
			guard("Unmarshal", func() { n, err = beserial.Unmarshal(bad, d) })
			if n > len(bad) || n < 0 {
				x.Fail("C14", "consumed more than given", "%d of %d bytes consumed", n, len(bad))
			}
			if err == nil {
				// What was accepted must be what the bytes say.
				var out []byte
				guard("Marshal", func() { out, err = beserial.Marshal(nil, d) })
				if err != nil || sizeOnly(sh) && !bytes.Equal(out, bad[:n]) {
					x.Fail("C14", "decoded value encodes differently", "%s decoded as %s encodes to %s, %v", hexs(bad), show(d), hexs(out), err)
				}
			}
			x.Count("fault.hostile_length")
		}
	}
}

// sizeOnly says whether the type has one encoding per value (custV ignores a byte).
func sizeOnly(s *shape) bool {
	switch s.kind {
	case shCustV, shCustN:
		return false
	}
	if s.elem != nil && !sizeOnly(s.elem) {
		return false
	}
	for _, f := range s.fields {
		if !sizeOnly(f) {
			return false
		}
	}
	return true
}
