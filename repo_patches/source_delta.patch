From b38677240e3a0f10a7858ee442118cd3a217f7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 01/37] fix: size of bit sets longer than 248 bits

(Len+7)/8 was computed in uint8 and wrapped around, so decoding a bit set
with 249 or more bits kept no bits and made every user of it index out of
range: a peer could crash the decoder of block interlinks and merkle paths.
---
 wire/bitset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wire/bitset.go b/wire/bitset.go
index 868ae81..489d909 100644
--- a/wire/bitset.go
+++ b/wire/bitset.go
@@ -19,13 +19,13 @@ func (bs *BitSet) UnmarshalBESerial(b []byte) (n int, err error) {
 	bs.Len = b[0]
 	b = b[1:]
 	// Read repeat bits
-	size := (bs.Len + 7) / 8 // ceil division
+	size := (int(bs.Len) + 7) / 8 // ceil division
 	bs.Bits = make([]byte, size)
 	if len(b) < len(bs.Bits) {
 		return 0, fmt.Errorf("reading bit set: %w", beserial.ErrUnexpectedEOF)
 	}
 	copy(bs.Bits, b)
-	return 1 + int(size), nil
+	return 1 + size, nil
 }
 
 func (bs *BitSet) MarshalBESerial(b []byte) ([]byte, error) {
-- 
2.43.0


From c4b41c10bcc19f0e1be075612637a38d2c6996ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 02/37] fix: interlink decoding reads each hash from the right
 place

The decoder skipped a hash before copying it, so every interlink hash was
taken from the bytes following it. It also counted the padding bits of the
repeat bits as hashes, so an interlink re-encoded with trailing zero hashes.
---
 wire/block.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/wire/block.go b/wire/block.go
index 4d64ac4..6c3d97d 100644
--- a/wire/block.go
+++ b/wire/block.go
@@ -2,7 +2,6 @@ package wire
 
 import (
 	"fmt"
-	"math/bits"
 
 	"terorie.dev/nimiq/beserial"
 )
@@ -56,8 +55,10 @@ func (il *BlockInterlink) UnmarshalBESerial(b []byte) (n int, err error) {
 	il.Hashes = make([]*[32]byte, il.Repeats.Len)
 	hash := &il.PrevHash
 	var compressedCount int
-	for _, repeatBits := range il.Repeats.Bits {
-		compressedCount += 8 - bits.OnesCount8(repeatBits)
+	for i := uint8(0); i < il.Repeats.Len; i++ {
+		if !il.Repeats.bit(i) {
+			compressedCount++
+		}
 	}
 	// Allocate space for unique hashes
 	il.Compressed = make([][32]byte, compressedCount)
@@ -74,8 +75,8 @@ func (il *BlockInterlink) UnmarshalBESerial(b []byte) (n int, err error) {
 			if len(b) < len(hash) {
 				return 0, fmt.Errorf("failed to read hash: %w", beserial.ErrUnexpectedEOF)
 			}
-			b = b[len(hash):]
 			copy(hash[:], b)
+			b = b[len(hash):]
 		}
 		// Save pointer to last hash
 		il.Hashes[i] = hash
-- 
2.43.0


From c90c8d5cf3e0c781ed904fc193ecd5ee850198a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 03/37] fix: report encoding errors behind pointers

Marshalling through a pointer dropped the error and returned the partial
(nil) buffer, so e.g. a block whose body failed to encode was reported as
successfully encoded without header and body.
---
 beserial/encode.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beserial/encode.go b/beserial/encode.go
index 78e7cd9..8f84c37 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -59,8 +59,7 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 		} else if v.IsNil() {
 			return nil, ErrNonOptionalNil
 		}
-		b, err = marshal(v.Elem(), b, ts)
-		return b, nil
+		return marshal(v.Elem(), b, ts)
 	case reflect.Array:
 		typ := v.Type()
 		if typ.Elem().Kind() == reflect.Uint8 {
-- 
2.43.0


From 92d34281c2ea999e70e2b888d00e0da7c9c0e40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 04/37] fix: refuse to encode lengths that do not fit their
 length prefix

Lengths were silently truncated to the size of the prefix while all elements
were written, producing bytes that decode to something else.
---
 beserial/encode.go | 31 ++++++++++++++++++++++---------
 beserial/size.go   |  3 +++
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/beserial/encode.go b/beserial/encode.go
index 8f84c37..b2c3f7f 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -78,7 +78,10 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 			return nil, ErrNoLenTag
 		}
 		size := v.Len()
-		b = marshalInt(ts.lenTag, size, b)
+		b, err = marshalLen(ts.lenTag, size, b)
+		if err != nil {
+			return nil, err
+		}
 		typ := v.Type()
 		if kind == reflect.String {
 			b = append(b, []byte(v.String())...)
@@ -122,25 +125,35 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 	return b, nil
 }
 
-// TODO Bounds checks
-
-func marshalInt(kind reflect.Kind, n int, b []byte) []byte {
+// marshalLen appends a length prefix, or errors if the length does not fit it.
+func marshalLen(kind reflect.Kind, n int, b []byte) ([]byte, error) {
+	if err := checkLen(kind, n); err != nil {
+		return nil, err
+	}
 	var st [8]byte
 	switch kind {
 	case reflect.Uint8:
-		return append(b, uint8(n))
+		return append(b, uint8(n)), nil
 	case reflect.Uint16:
 		binary.BigEndian.PutUint16(st[:], uint16(n))
-		return append(b, st[:2]...)
+		return append(b, st[:2]...), nil
 	case reflect.Uint32:
 		binary.BigEndian.PutUint32(st[:], uint32(n))
-		return append(b, st[:4]...)
+		return append(b, st[:4]...), nil
 	case reflect.Uint64:
 		binary.BigEndian.PutUint64(st[:], uint64(n))
-		return append(b, st[:8]...)
+		return append(b, st[:8]...), nil
 	default:
-		panic("beserial: marshalInt not expecting " + kind.String())
+		panic("beserial: marshalLen not expecting " + kind.String())
+	}
+}
+
+// checkLen errors if the length does not fit the specified kind of length prefix.
+func checkLen(kind reflect.Kind, n int) error {
+	if size, ok := sizeNumber(kind); ok && size < 8 && uint64(n)>>(8*uint(size)) != 0 {
+		return fmt.Errorf("beserial: length %d does not fit %s length tag", n, kind)
 	}
+	return nil
 }
 
 func marshalNumber(kind reflect.Kind, v reflect.Value, b []byte) ([]byte, bool) {
diff --git a/beserial/size.go b/beserial/size.go
index bceeacb..c9a96f3 100644
--- a/beserial/size.go
+++ b/beserial/size.go
@@ -56,6 +56,9 @@ func valueSize(v reflect.Value, ts tags) (total int, err error) {
 		if !ok {
 			return 0, fmt.Errorf("slice without len tag")
 		}
+		if err := checkLen(ts.lenTag, v.Len()); err != nil {
+			return 0, err
+		}
 		total += tagLen
 		if kind == reflect.String {
 			total += v.Len()
-- 
2.43.0


From 0d3848bc584a6bdf487813cc0db591d423ec631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 05/37] fix: honour nil and optional pointers to types with
 custom encodings

Pointer fields whose target implements Marshaler or Unmarshaler bypassed the
pointer rules: the optional flag was neither written nor read, and the custom
code was invoked on a nil pointer.
---
 beserial/decode.go | 5 ++---
 beserial/encode.go | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/beserial/decode.go b/beserial/decode.go
index c549ec5..e08f653 100644
--- a/beserial/decode.go
+++ b/beserial/decode.go
@@ -60,10 +60,9 @@ func (d *decodeState) unmarshal(v interface{}) error {
 func (d *decodeState) value(v reflect.Value, ts tags) error {
 	kind := v.Kind()
 	// Check for UnmarshalBESerial implementation.
+	// Pointers are dereferenced below before their target is checked.
 	var addr reflect.Value
-	if kind == reflect.Ptr {
-		addr = v
-	} else if v.CanAddr() {
+	if v.CanAddr() {
 		addr = v.Addr()
 	}
 	if addr.IsValid() && addr.Type().NumMethod() > 0 && addr.CanInterface() {
diff --git a/beserial/encode.go b/beserial/encode.go
index b2c3f7f..7e3d9c4 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -34,10 +34,9 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 	var err error
 	kind := v.Kind()
 	// Check for MarshalBESerial implementation.
+	// Pointers are dereferenced below before their target is checked.
 	var addr reflect.Value
-	if kind == reflect.Ptr {
-		addr = v
-	} else if v.CanAddr() {
+	if v.CanAddr() {
 		addr = v.Addr()
 	}
 	if addr.IsValid() && addr.Type().NumMethod() > 0 && addr.CanInterface() {
-- 
2.43.0


From e063725afaf2f130539a32cb6dc8698d30d7cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 06/37] fix: size of bools and of types with custom encodings

Size did not know bools and ignored SizeBESerial, although it promises the
exact size of the encoding. MarshalMessage relies on it and failed or
misjudged the size of most message types.
---
 beserial/size.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/beserial/size.go b/beserial/size.go
index c9a96f3..6c52c1d 100644
--- a/beserial/size.go
+++ b/beserial/size.go
@@ -20,6 +20,12 @@ func Size(v interface{}) (int, error) {
 
 func valueSize(v reflect.Value, ts tags) (total int, err error) {
 	kind := v.Kind()
+	// Check for SizeBESerial implementation.
+	if v.CanAddr() && v.Addr().CanInterface() {
+		if m, ok := v.Addr().Interface().(Marshaler); ok {
+			return m.SizeBESerial()
+		}
+	}
 	switch kind {
 	case reflect.Ptr:
 		if ts.optional {
@@ -39,7 +45,7 @@ func valueSize(v reflect.Value, ts tags) (total int, err error) {
 		total += elem
 	case reflect.Array:
 		typ := v.Type()
-		if elemSize, ok := sizeNumber(typ.Elem().Kind()); ok {
+		if elemSize, ok := fixedSize(typ.Elem()); ok {
 			total = typ.Len() * elemSize
 		} else {
 			for i := 0; i < typ.Len(); i++ {
@@ -62,7 +68,7 @@ func valueSize(v reflect.Value, ts tags) (total int, err error) {
 		total += tagLen
 		if kind == reflect.String {
 			total += v.Len()
-		} else if elemSize, ok := sizeNumber(typ.Elem().Kind()); ok {
+		} else if elemSize, ok := fixedSize(typ.Elem()); ok {
 			total += v.Len() * elemSize
 		} else {
 			for i := 0; i < v.Len(); i++ {
@@ -88,6 +94,8 @@ func valueSize(v reflect.Value, ts tags) (total int, err error) {
 			}
 			total += elemSize
 		}
+	case reflect.Bool:
+		total++
 	default:
 		tagSize, ok := sizeNumber(kind)
 		if !ok {
@@ -112,3 +120,14 @@ func sizeNumber(kind reflect.Kind) (n int, ok bool) {
 		return 0, false
 	}
 }
+
+var marshalerType = reflect.TypeOf((*Marshaler)(nil)).Elem()
+
+// fixedSize returns the size of array and slice elements
+// that are plain numbers without a custom encoding.
+func fixedSize(typ reflect.Type) (n int, ok bool) {
+	if typ.Kind() != reflect.Uint8 && reflect.PtrTo(typ).Implements(marshalerType) {
+		return 0, false
+	}
+	return sizeNumber(typ.Kind())
+}
-- 
2.43.0


From 600312d63fad88b93be4e3d1f3191f996819dd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 07/37] fix: parameterless messages crash encoder and decoder

The predefined mempool, get-chain-proof and get-head messages are plain
numbers implementing the custom codec interfaces. Size, Marshal and Unmarshal
called IsNil on them, which panics: any peer could crash a node by sending one.
---
 beserial/decode.go | 34 +++++++++++++++++++++-------------
 beserial/encode.go |  7 +++++--
 beserial/size.go   |  9 ++++++---
 3 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/beserial/decode.go b/beserial/decode.go
index e08f653..906f059 100644
--- a/beserial/decode.go
+++ b/beserial/decode.go
@@ -46,10 +46,13 @@ type decodeState struct {
 
 func (d *decodeState) unmarshal(v interface{}) error {
 	rv := reflect.ValueOf(v)
-	if rv.IsNil() {
-		return nil
-	} else if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr {
+		if u, ok := v.(Unmarshaler); ok {
+			return d.custom(u)
+		}
 		return &InvalidUnmarshalError{reflect.TypeOf(v)}
+	} else if rv.IsNil() {
+		return nil
 	}
 	if err := d.value(rv.Elem(), tags{}); err != nil {
 		return err
@@ -57,6 +60,20 @@ func (d *decodeState) unmarshal(v interface{}) error {
 	return nil
 }
 
+// custom decodes using a custom UnmarshalBESerial implementation.
+func (d *decodeState) custom(u Unmarshaler) error {
+	n, err := u.UnmarshalBESerial(d.data)
+	if err != nil {
+		return err
+	} else if n < 0 {
+		panic("beserial: UnmarshalBESerial returned negative number")
+	} else if n > len(d.data) {
+		panic("beserial: UnmarshalBESerial claimed to have read more bytes than available")
+	}
+	d.data = d.data[n:]
+	return nil
+}
+
 func (d *decodeState) value(v reflect.Value, ts tags) error {
 	kind := v.Kind()
 	// Check for UnmarshalBESerial implementation.
@@ -67,16 +84,7 @@ func (d *decodeState) value(v reflect.Value, ts tags) error {
 	}
 	if addr.IsValid() && addr.Type().NumMethod() > 0 && addr.CanInterface() {
 		if u, ok := addr.Interface().(Unmarshaler); ok {
-			n, err := u.UnmarshalBESerial(d.data)
-			if err != nil {
-				return err
-			} else if n < 0 {
-				panic("beserial: UnmarshalBESerial returned negative number")
-			} else if n > len(d.data) {
-				panic("beserial: UnmarshalBESerial claimed to have read more bytes than available")
-			}
-			d.data = d.data[n:]
-			return nil
+			return d.custom(u)
 		}
 	}
 	// Generic decode.
diff --git a/beserial/encode.go b/beserial/encode.go
index 7e3d9c4..3769ffa 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -14,9 +14,12 @@ func Marshal(b []byte, v interface{}) ([]byte, error) {
 			return nil, fmt.Errorf("TODO error") // FIXME
 		}
 	} else {
-		if rv.IsNil() {
+		if rv.Kind() != reflect.Ptr {
+			if m, ok := v.(Marshaler); ok {
+				return m.MarshalBESerial(b)
+			}
 			return nil, fmt.Errorf("TODO error") // FIXME
-		} else if rv.Kind() != reflect.Ptr {
+		} else if rv.IsNil() {
 			return nil, fmt.Errorf("TODO error") // FIXME
 		}
 	}
diff --git a/beserial/size.go b/beserial/size.go
index 6c52c1d..c942b2c 100644
--- a/beserial/size.go
+++ b/beserial/size.go
@@ -10,10 +10,13 @@ import (
 // v must not be nil or a non-pointer.
 func Size(v interface{}) (int, error) {
 	rv := reflect.ValueOf(v)
-	if rv.IsNil() {
-		return 0, nil
-	} else if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr {
+		if m, ok := v.(Marshaler); ok {
+			return m.SizeBESerial()
+		}
 		return 0, &InvalidUnmarshalError{reflect.TypeOf(v)}
+	} else if rv.IsNil() {
+		return 0, nil
 	}
 	return valueSize(rv.Elem(), tags{})
 }
-- 
2.43.0


From 1c0c27988eb39a8897cd3d438f383d0f1c47b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 08/37] fix: encode and decode inventory messages

Inventory messages (inv, get-data, get-header, not-found) could be neither
encoded nor decoded: the vectors had no length prefix and the message type,
which is transmitted outside the content, was treated as part of it.
---
 wire/msg_inv.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/wire/msg_inv.go b/wire/msg_inv.go
index 9a8c5cd..6bf5465 100644
--- a/wire/msg_inv.go
+++ b/wire/msg_inv.go
@@ -1,5 +1,9 @@
 package wire
 
+import (
+	"terorie.dev/nimiq/beserial"
+)
+
 type InvVector struct {
 	Type uint32
 	Hash [32]byte
@@ -23,6 +27,30 @@ func (m *InvMessage) Type() uint64 {
 	return m.MessageType
 }
 
+// invContent is the serialized part of an InvMessage.
+// The message type is not part of the content.
+type invContent struct {
+	Vectors []InvVector `beserial:"len_tag=uint16"`
+}
+
+// UnmarshalBESerial unmarshals the inventory vectors.
+func (m *InvMessage) UnmarshalBESerial(b []byte) (n int, err error) {
+	var content invContent
+	n, err = beserial.Unmarshal(b, &content)
+	m.Vectors = content.Vectors
+	return
+}
+
+// MarshalBESerial marshals the inventory vectors.
+func (m *InvMessage) MarshalBESerial(b []byte) ([]byte, error) {
+	return beserial.Marshal(b, &invContent{Vectors: m.Vectors})
+}
+
+// SizeBESerial returns the size of the inventory vectors.
+func (m *InvMessage) SizeBESerial() (n int, err error) {
+	return beserial.Size(&invContent{Vectors: m.Vectors})
+}
+
 type GetAddrMessage struct {
 	ProtocolMask uint8
 	ServiceMask  uint32
-- 
2.43.0


From b394c0cd0a3cd76e2fad6ec37c38012ff5ccf3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 09/37] fix: header messages announce their own type

They were sent under the type of block messages, which the receiver then
fails to decode.
---
 wire/msg_inv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wire/msg_inv.go b/wire/msg_inv.go
index 6bf5465..bd4319c 100644
--- a/wire/msg_inv.go
+++ b/wire/msg_inv.go
@@ -115,5 +115,5 @@ type HeaderMessage struct {
 }
 
 func (m *HeaderMessage) Type() uint64 {
-	return MessageBlock
+	return MessageHeader
 }
-- 
2.43.0


From eaf0cef63d0c7617ca8343f72c23bfa585e8608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 10/37] fix: encode and decode the protocol details of peer
 addresses

The details were passed to the codec as a pointer to an interface, which it
does not support, so every peer address (and with it every version and
address message) failed to encode and to decode.
---
 wire/p2p.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/wire/p2p.go b/wire/p2p.go
index 87f2cc3..5e5dec2 100644
--- a/wire/p2p.go
+++ b/wire/p2p.go
@@ -117,11 +117,9 @@ func (pa *PeerAddress) UnmarshalBESerial(b []byte) (n int, err error) {
 	default:
 		return n, fmt.Errorf("unknown protocol: 0x%x", pa.Protocol)
 	}
-	sub, err = beserial.Unmarshal(b, &pa.Detail)
-	n += sub
-	b = b[sub:]
-	if err != nil {
-		return
+	if pa.Detail != nil {
+		sub, err = beserial.Unmarshal(b, pa.Detail)
+		n += sub
 	}
 	return
 }
@@ -132,7 +130,10 @@ func (pa *PeerAddress) MarshalBESerial(b []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return beserial.Marshal(b, &pa.Detail)
+	if pa.Detail == nil {
+		return b, nil
+	}
+	return beserial.Marshal(b, pa.Detail)
 }
 
 func (pa *PeerAddress) SizeBESerial() (n int, err error) {
@@ -142,7 +143,10 @@ func (pa *PeerAddress) SizeBESerial() (n int, err error) {
 		return 0, err
 	}
 	n += sub
-	sub, err = beserial.Size(&pa.Detail)
+	if pa.Detail == nil {
+		return n, nil
+	}
+	sub, err = beserial.Size(pa.Detail)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 5ccded58239f741a6108f5b61a4901f593c57cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 11/37] fix: net addresses keep their type and length

Decoding dropped the address type (an IPv6 address was sent on as IPv4) and
refused the placeholder types. Encoding wrote whatever number of IP bytes the
value had, e.g. 16 bytes for an IPv4 address made by net.ParseIP, so that the
rest of the message was misread.
---
 wire/p2p.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/wire/p2p.go b/wire/p2p.go
index 5e5dec2..da06441 100644
--- a/wire/p2p.go
+++ b/wire/p2p.go
@@ -36,9 +36,12 @@ func (na *NetAddress) UnmarshalBESerial(b []byte) (n int, err error) {
 		na.IP = make([]byte, net.IPv4len)
 	case NetAddressIPv6:
 		na.IP = make([]byte, net.IPv6len)
+	case NetAddressUnspecified, NetAddressUnknown:
+		na.IP = nil // placeholders have no content
 	default:
 		return n, fmt.Errorf("invalid NetAddress type: 0x%x", t)
 	}
+	na.Type = t
 	if len(b) < len(na.IP) {
 		return n, beserial.ErrUnexpectedEOF
 	}
@@ -47,17 +50,37 @@ func (na *NetAddress) UnmarshalBESerial(b []byte) (n int, err error) {
 }
 
 func (na *NetAddress) MarshalBESerial(b []byte) ([]byte, error) {
+	ip, err := na.ipBytes()
+	if err != nil {
+		return nil, err
+	}
 	b = append(b, na.Type)
-	b = append(b, na.IP...)
+	b = append(b, ip...)
 	return b, nil
 }
 
 func (na *NetAddress) SizeBESerial() (int, error) {
-	return na.sizeBESerial(), nil
+	ip, err := na.ipBytes()
+	if err != nil {
+		return 0, err
+	}
+	return 1 + len(ip), nil
 }
 
-func (na *NetAddress) sizeBESerial() int {
-	return 1 + len(na.IP)
+// ipBytes returns the IP in the length implied by the type of the address.
+func (na *NetAddress) ipBytes() (ip []byte, err error) {
+	switch na.Type {
+	case NetAddressIPv4:
+		ip = na.IP.To4()
+	case NetAddressIPv6:
+		ip = na.IP.To16()
+	case NetAddressUnspecified, NetAddressUnknown:
+		return nil, nil
+	}
+	if ip == nil {
+		return nil, fmt.Errorf("invalid IP for NetAddress type: 0x%x", na.Type)
+	}
+	return ip, nil
 }
 
 // PeerAddress contains an overview about a peer and how to reach it.
-- 
2.43.0


From f9ac5690961ae41a682b648eb48e82074bc9350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 12/37] fix: encode and decode transaction proof and receipt
 requests

Proof requests could not be encoded for lack of a length prefix, and neither
request was known to the decoder although both message types are defined.
---
 wire/msg_inv.go   | 2 +-
 wire/msg_types.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/wire/msg_inv.go b/wire/msg_inv.go
index bd4319c..87afda2 100644
--- a/wire/msg_inv.go
+++ b/wire/msg_inv.go
@@ -78,7 +78,7 @@ func (m *GetBlocksMessage) Type() uint64 {
 
 type GetTxProofMessage struct {
 	BlockHash [32]byte
-	Addresses [][20]byte
+	Addresses [][20]byte `beserial:"len_tag=uint16"`
 }
 
 func (m *GetTxProofMessage) Type() uint64 {
diff --git a/wire/msg_types.go b/wire/msg_types.go
index 6b56779..92695da 100644
--- a/wire/msg_types.go
+++ b/wire/msg_types.go
@@ -84,6 +84,10 @@ func UnmarshalMessage(msgType uint64, buf []byte) (m Message, err error) {
 		m = &BasePingMessage{Pong: true}
 	case MessageGetChainProof:
 		m = GetChainProofMessage
+	case MessageGetTxProof:
+		m = new(GetTxProofMessage)
+	case MessageGetTxReceipts:
+		m = new(GetTxReceiptsMessage)
 	case MessageGetHead:
 		m = GetHeadMessage
 	case MessageHead:
-- 
2.43.0


From a84b364621f929fbd558c4f2b5c21210d76cc920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 13/37] fix: overflow of transaction value plus fee

The sum wrapped around, so a transaction with e.g. value 2^64-1 and fee 1
cost its sender nothing while the recipient was credited the value.
---
 wire/account.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index ec3bb20..1a9fe70 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -2,6 +2,7 @@ package wire
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 
 	"golang.org/x/crypto/blake2b"
@@ -102,6 +103,18 @@ func (o *OverspendError) Error() string {
 	return fmt.Sprintf("trying to spend %d but only has %d", o.Spend, o.Available)
 }
 
+// subtractTx returns the balance after paying for the value and fee of a transaction.
+func subtractTx(balance uint64, tx Tx) (uint64, error) {
+	value, fee := tx.Amount()
+	amount := value + fee
+	if amount < value {
+		amount = math.MaxUint64 // overflow
+	} else if amount <= balance {
+		return balance - amount, nil
+	}
+	return 0, &OverspendError{Available: balance, Spend: amount}
+}
+
 // A BasicAccount is a simple account that can hold funds (balance)
 // and is controlled by an Ed25519 private key.
 // https://nimiq-network.github.io/developer-reference/chapters/accounts-and-contracts.html#basic-account
@@ -127,12 +140,11 @@ func (a *BasicAccount) Init(tx Tx, height uint32, prevBalance uint64) error {
 
 // ApplyOutgoingTx removes the transaction value and fee from the account.
 func (a *BasicAccount) ApplyOutgoingTx(tx Tx, _ uint32) (Account, error) {
-	value, fee := tx.Amount()
-	amount := value + fee
-	if amount > a.Value {
-		return nil, &OverspendError{Available: a.Value, Spend: amount}
+	newValue, err := subtractTx(a.Value, tx)
+	if err != nil {
+		return nil, err
 	}
-	return &BasicAccount{Value: a.Value - amount}, nil
+	return &BasicAccount{Value: newValue}, nil
 }
 
 // ApplyIncomingTx adds the transaction value to the account.
-- 
2.43.0


From ea56411777f4ef069d932e2a28b8d7c2c9e222d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 14/37] fix: vesting contracts enforce their schedule and
 balance

Withdrawals were compared with the amount unlocked since the start instead of
what had not been withdrawn yet, so the owner could withdraw it again in every
block; steps were released continuously instead of one by one; the fee was not
deducted although the miner is paid it; and a withdrawal larger than the
balance but within the unlocked amount wrapped the balance around.
---
 wire/account.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index 1a9fe70..7418306 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -236,13 +236,20 @@ func (c *VestingAccount) Init(tx Tx, _ uint32, balance uint64) error {
 
 // ApplyOutgoingTx removes the transaction value and fee from the account.
 func (c *VestingAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
-	unlocked := c.amountUnlocked(height)
-	// Check transaction amount.
 	extTx := tx.(*ExtendedTx)
-	if extTx.Value > unlocked {
-		return nil, &OverspendError{Available: unlocked, Spend: extTx.Value}
+	// Check transaction amount.
+	newValue, err := subtractTx(c.Value, tx)
+	if err != nil {
+		return nil, err
+	}
+	// Check that the locked amount stays in the contract.
+	if locked := c.amountLocked(height); newValue < locked {
+		var available uint64
+		if c.Value > locked {
+			available = c.Value - locked
+		}
+		return nil, &OverspendError{Available: available, Spend: c.Value - newValue}
 	}
-	newValue := c.Value - extTx.Value
 	// Verify transaction was signed by contract owner.
 	var proof SignatureProof
 	if err := beserial.UnmarshalFull(extTx.Proof, &proof); err != nil {
@@ -263,17 +270,20 @@ func (c *VestingAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
 	panic("not implemented")
 }
 
-func (c *VestingAccount) amountUnlocked(height uint32) uint64 {
+// amountLocked returns the balance that must remain in the contract at the given height.
+func (c *VestingAccount) amountLocked(height uint32) uint64 {
 	if height <= c.VestingStart {
-		return 0 // cannot spend funds before vesting start
+		return c.Value // cannot spend funds before vesting start
 	}
 	if c.VestingStepBlocks == 0 || c.VestingStepAmount == 0 {
-		return c.Value // unlock immediately
+		return 0 // unlock immediately
 	}
 	// unlock step by step
-	progress := float64(height-c.VestingStart) / float64(c.VestingStepBlocks)
-	unlocked := uint64(progress * float64(c.VestingStepAmount))
-	return unlocked
+	steps := uint64((height - c.VestingStart) / c.VestingStepBlocks)
+	if steps > c.VestingTotalAmount/c.VestingStepAmount {
+		return 0
+	}
+	return c.VestingTotalAmount - steps*c.VestingStepAmount
 }
 
 // An HTLCAccount (hashed time-locked contract)
-- 
2.43.0


From fd890e87a46160c45d6e58881245404cdde528a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 15/37] fix: HTLCs pay the fee of their transactions

The fee was credited to the miner but not deducted from the contract, which
created money.
---
 wire/account.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index 7418306..6ec09b1 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -345,8 +345,9 @@ func (h *HTLCAccount) Init(tx Tx, height uint32, prevBalance uint64) error {
 func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	// TODO use typed errors
 	ext := tx.(*ExtendedTx)
-	if ext.Value > h.Value {
-		return nil, &OverspendError{Available: h.Value, Spend: ext.Value}
+	newValue, err := subtractTx(h.Value, tx)
+	if err != nil {
+		return nil, err
 	}
 	// Read proof type.
 	if len(ext.Proof) == 0 {
@@ -418,7 +419,7 @@ func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	// Create copy.
 	updated := new(HTLCAccount)
 	*updated = *h
-	updated.Value -= ext.Value
+	updated.Value = newValue
 	return updated, nil
 }
 
-- 
2.43.0


From b9d086213c6eeb74f50e729b41e0090c1cfb6a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 16/37] fix: refuse payments to contracts with an error

A block paying to a vesting contract or HTLC (or creating a contract at the
address of one) crashed the node with a 'not implemented' panic.
---
 wire/account.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index 6ec09b1..77525c8 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -1,6 +1,7 @@
 package wire
 
 import (
+	"errors"
 	"fmt"
 	"math"
 	"strconv"
@@ -103,6 +104,8 @@ func (o *OverspendError) Error() string {
 	return fmt.Sprintf("trying to spend %d but only has %d", o.Spend, o.Available)
 }
 
+var errIllegalIncomingTx = errors.New("illegal incoming transaction to contract")
+
 // subtractTx returns the balance after paying for the value and fee of a transaction.
 func subtractTx(balance uint64, tx Tx) (uint64, error) {
 	value, fee := tx.Amount()
@@ -265,9 +268,9 @@ func (c *VestingAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error)
 	return updated, nil
 }
 
-// ApplyIncomingTx adds the transaction value to the account.
-func (c *VestingAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
-	panic("not implemented")
+// ApplyIncomingTx always fails: contracts are only funded by their creation.
+func (c *VestingAccount) ApplyIncomingTx(_ Tx, _ uint32) (Account, error) {
+	return nil, errIllegalIncomingTx
 }
 
 // amountLocked returns the balance that must remain in the contract at the given height.
@@ -423,9 +426,9 @@ func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	return updated, nil
 }
 
-// ApplyIncomingTx adds the transaction value to the account.
-func (h *HTLCAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
-	panic("not implemented")
+// ApplyIncomingTx always fails: contracts are only funded by their creation.
+func (h *HTLCAccount) ApplyIncomingTx(_ Tx, _ uint32) (Account, error) {
+	return nil, errIllegalIncomingTx
 }
 
 // AccountPruned marks the removal of an account from the state.
-- 
2.43.0


From c81c4500031c0fe87fa931c3e18da33ec73e66bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 17/37] fix: write back branches whose hashes were invalidated

The branches on the path of an update were modified in memory but not put
into the store. Only stores that hand out shared pointers noticed the change;
with any other store the update was lost and the root hash went stale.
---
 tree/tree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tree/tree.go b/tree/tree.go
index 442814e..8337591 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -147,6 +147,7 @@ func (t *PMTree) invalidatePath(prefix Nibbles, path []Node) {
 		path = path[:len(path)-1]
 		// Set the child to a zero hash.
 		node.PutChild(current[len(node.Prefix):], zeroHash)
+		t.Store.PutNode(node.Prefix, node)
 		current = node.Prefix
 	}
 }
-- 
2.43.0


From d687552de15877145fafc67b2cb5f6c38bde0fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 18/37] fix: keep overlay changes out of the lower store

Branches read through an overlay were the very objects of an in-memory lower
store, and the tree modifies branches in place (while pruning even in memory
shared with other nodes), so changes leaked below before any flush.
---
 tree/store_overlay.go | 8 +++++++-
 tree/tree.go          | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/tree/store_overlay.go b/tree/store_overlay.go
index 9559798..f90d7b7 100644
--- a/tree/store_overlay.go
+++ b/tree/store_overlay.go
@@ -14,7 +14,13 @@ func (o *OverlayStore) GetNode(nbs Nibbles) Node {
 		return override
 	}
 	// Request from lower layer.
-	return o.Lower.GetNode(nbs)
+	node := o.Lower.GetNode(nbs)
+	if branch, ok := node.(*Branch); ok {
+		// The tree modifies branches in place, which must not affect the lower store.
+		branchCopy := *branch
+		return &branchCopy
+	}
+	return node
 }
 
 // PutNode puts a node in the overlay without affecting the lower store.
diff --git a/tree/tree.go b/tree/tree.go
index 8337591..8b5cf73 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -176,7 +176,9 @@ func (t *PMTree) prune(prefix Nibbles, path []Node) {
 			//  [Branch 1 (nChildren = X)] => [Node X]
 			// Pruning finishes, defer to the non-pruning recursive algorithm to update the path.
 			t.Store.DelNode(node.Prefix)
-			t.invalidatePath(append(node.Prefix, children[0].Suffix...), path)
+			// The prefix is copied, since it may share memory with the suffixes of other nodes.
+			childPrefix := append(node.Prefix[:len(node.Prefix):len(node.Prefix)], children[0].Suffix...)
+			t.invalidatePath(childPrefix, path)
 			return
 		} else if len(children) > 0 || len(node.Prefix) == 0 {
 			// Nothing to be deleted, use non-pruning code path.
-- 
2.43.0


From 5d28599486db7e759452ad83b672bae238024f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 19/37] fix: overlay stores can be created and written to

The diff map was never allocated and cannot be from outside the package, so
the first write to any overlay panicked.
---
 tree/store_overlay.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/tree/store_overlay.go b/tree/store_overlay.go
index f90d7b7..ee1687d 100644
--- a/tree/store_overlay.go
+++ b/tree/store_overlay.go
@@ -6,6 +6,22 @@ type OverlayStore struct {
 	diffs map[string]Node
 }
 
+// NewOverlayStore creates an empty overlay over an existing store.
+func NewOverlayStore(lower Store) *OverlayStore {
+	return &OverlayStore{
+		Lower: lower,
+		diffs: make(map[string]Node),
+	}
+}
+
+// put records a pending node, or a pending deletion if the node is nil.
+func (o *OverlayStore) put(nbs Nibbles, node Node) {
+	if o.diffs == nil {
+		o.diffs = make(map[string]Node)
+	}
+	o.diffs[string(nbs)] = node
+}
+
 // GetNode reads a node from the overlay or lower store.
 func (o *OverlayStore) GetNode(nbs Nibbles) Node {
 	// Node was overridden in overlay.
@@ -25,12 +41,12 @@ func (o *OverlayStore) GetNode(nbs Nibbles) Node {
 
 // PutNode puts a node in the overlay without affecting the lower store.
 func (o *OverlayStore) PutNode(nbs Nibbles, node Node) {
-	o.diffs[string(nbs)] = node
+	o.put(nbs, node)
 }
 
 // DelNode marks a deletion in the overlay without affecting the lower store.
 func (o *OverlayStore) DelNode(nbs Nibbles) {
-	o.diffs[string(nbs)] = nil
+	o.put(nbs, nil)
 }
 
 // Flush clears and writes down the in-memory overlay to the lower layer.
-- 
2.43.0


From 70e1d419fdd9ac746a85ce61cebcc4511e4e5c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 20/37] fix: rejected blocks leave the state unchanged

Push applied the steps of a block directly to the state, so a block found
invalid half-way left its earlier effects behind. Blocks without a body
or with height zero crashed it.
---
 accounts/accounts.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index c807268..a021961 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -3,6 +3,7 @@ package accounts
 
 import (
 	"encoding/hex"
+	"errors"
 	"fmt"
 
 	"terorie.dev/nimiq/address"
@@ -36,7 +37,26 @@ func NewAccounts(tree *tree.PMTree) *Accounts {
 }
 
 // Push pushes a new block to the state.
+// If the block is invalid, an error is returned and the state is left unchanged.
 func (a *Accounts) Push(block *wire.Block) error {
+	if block.Body == nil {
+		return errors.New("block without body")
+	}
+	if block.Header.Height < 1 {
+		return fmt.Errorf("invalid block height: %d", block.Header.Height)
+	}
+	// Collect all changes in an overlay until it's clear that the block is valid.
+	overlay := tree.NewOverlayStore(a.Tree.Store)
+	staged := NewAccounts(&tree.PMTree{Store: overlay})
+	if err := staged.push(block); err != nil {
+		return err
+	}
+	overlay.Flush()
+	return nil
+}
+
+// push applies the steps of a block. If it fails, the state might be partially updated.
+func (a *Accounts) push(block *wire.Block) error {
 	if err := a.pushSenders(block, func(acc wire.Account, tx wire.Tx, height uint32) (wire.Account, error) {
 		return acc.ApplyOutgoingTx(tx, height)
 	}); err != nil {
-- 
2.43.0


From 4b8969b4edf02d3f2c3bc541c506b1799bc6e651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 21/37] fix: account type 0xFF in a transaction matches no
 account

It disabled the type checks of senders and recipients.
---
 accounts/accounts.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index a021961..96c7a84 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -131,9 +131,10 @@ func (a *Accounts) pushSenders(block *wire.Block, op AccountOp) error {
 func (a *Accounts) pushRecipients(block *wire.Block, op AccountOp) error {
 	for _, tx := range block.Body.Txs {
 		content := tx.Tx.AsTxContent()
-		var recipientType uint8 = wire.AccountUnknown
-		if content.Flags&wire.TxFlagContractCreation == 0 {
-			recipientType = content.RecipientType
+		recipientType := content.RecipientType
+		if content.Flags&wire.TxFlagContractCreation != 0 {
+			// The type is of the contract to create, not of the existing account.
+			recipientType = a.GetAccount(&content.Recipient).Type()
 		}
 		if err := a.pushTx(&content.Recipient, recipientType, tx.Tx, block.Header.Height, op); err != nil {
 			return err
@@ -260,7 +261,7 @@ func (a *Accounts) createContract(tx wire.Tx, height uint32) error {
 
 func (a *Accounts) pushTx(address *[20]byte, accType uint8, tx wire.Tx, height uint32, op AccountOp) error {
 	account := a.GetAccount(address)
-	if accType != wire.AccountUnknown && accType != account.Type() {
+	if accType != account.Type() {
 		return &AccountTypeMismatchError{
 			Expected: accType,
 			Got:      account.Type(),
-- 
2.43.0


From 1f8c3a5ff05a186458893ad043d6cf0fbbb7c13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 22/37] fix: refuse addresses with one wrong country code
 letter

---
 address/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index b712bdf..0b53b23 100644
--- a/address/address.go
+++ b/address/address.go
@@ -33,7 +33,7 @@ func Decode(encoded string) (addr [20]byte, err error) {
 		return
 	}
 	// Verify string: Country code
-	if compact[0] != 'N' && compact[1] != 'Q' {
+	if compact[0] != 'N' || compact[1] != 'Q' {
 		err = ErrInvalidCountryCode
 		return
 	}
-- 
2.43.0


From 8ce475c1196ab6da9dab5224a561f92b2bdce028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 23/37] fix: compressing nibbles overruns the buffer

---
 tree/store.go   | 2 +-
 wire/nibbles.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/store.go b/tree/store.go
index ea149ab..983d678 100644
--- a/tree/store.go
+++ b/tree/store.go
@@ -36,7 +36,7 @@ func (nbs Nibbles) ToKey() (key [20]byte) {
 }
 
 func (nbs Nibbles) Compress() []byte {
-	buf := make([]byte, (len(nbs)-1)/2)
+	buf := make([]byte, (len(nbs)+1)/2)
 	for i, n := range nbs {
 		if i%2 == 0 {
 			buf[i/2] = n << 4
diff --git a/wire/nibbles.go b/wire/nibbles.go
index da2aa5a..a6598b5 100644
--- a/wire/nibbles.go
+++ b/wire/nibbles.go
@@ -29,7 +29,7 @@ func (nbs Nibbles) ToKey() (key [20]byte) {
 }
 
 func (nbs Nibbles) Compress() []byte {
-	buf := make([]byte, (len(nbs)-1)/2)
+	buf := make([]byte, (len(nbs)+1)/2)
 	for i, n := range nbs {
 		if i%2 == 0 {
 			buf[i/2] = n << 4
-- 
2.43.0


From 5a937ce7fd8b5c9c9c215a09bf9fe0412351ac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 24/37] fix: combined beserial tag options

A length tag that was not the only option of a field crashed the codec.
---
 beserial/tags.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beserial/tags.go b/beserial/tags.go
index be863de..7faa72b 100644
--- a/beserial/tags.go
+++ b/beserial/tags.go
@@ -20,8 +20,8 @@ func (ts *tags) parse(tag string) {
 		switch {
 		case el == optional:
 			ts.optional = true
-		case strings.HasPrefix(tag, lenTag):
-			switch tag[len(lenTag):] {
+		case strings.HasPrefix(el, lenTag):
+			switch el[len(lenTag):] {
 			case "uint8":
 				ts.lenTag = reflect.Uint8
 			case "uint16":
-- 
2.43.0


From 40c995bf9555e45bdb0fc0c5a5da332e1d1582a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 25/37] fix: load the whole genesis config

Only the name was read: the keys in the files do not match the field
names, and the hash is a hex string.
---
 genesis/genesis.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/genesis/genesis.go b/genesis/genesis.go
index c82326d..cb0ab48 100644
--- a/genesis/genesis.go
+++ b/genesis/genesis.go
@@ -3,6 +3,7 @@ package genesis
 
 import (
 	"embed"
+	"encoding/hex"
 	"fmt"
 	"io/fs"
 	"os"
@@ -112,8 +113,34 @@ func readConfigFromFS(files fs.FS, path string) (conf *Config, err error) {
 		return nil, openErr
 	}
 	defer f.Close()
-	dec := toml.NewDecoder(f)
-	conf = new(Config)
-	err = dec.Decode(conf)
-	return
+	var file configFile
+	if err := toml.NewDecoder(f).Decode(&file); err != nil {
+		return nil, err
+	}
+	conf = &Config{
+		NetworkID: file.NetworkID,
+		Name:      file.Name,
+		SeedPeers: file.SeedPeers,
+		SeedLists: file.SeedLists,
+	}
+	if file.GenesisHash != "" {
+		hash, err := hex.DecodeString(file.GenesisHash)
+		if err != nil {
+			return nil, fmt.Errorf("invalid genesis hash: %w", err)
+		}
+		if len(hash) != len(conf.GenesisHash) {
+			return nil, fmt.Errorf("invalid genesis hash: got %d bytes", len(hash))
+		}
+		copy(conf.GenesisHash[:], hash)
+	}
+	return conf, nil
+}
+
+// configFile is the TOML representation of Config.
+type configFile struct {
+	NetworkID   uint8    `toml:"network_id"`
+	Name        string   `toml:"name"`
+	SeedPeers   []string `toml:"seed_peers"`
+	SeedLists   []string `toml:"seed_lists"`
+	GenesisHash string   `toml:"genesis_hash"`
 }
-- 
2.43.0


From b4101f802577e1fd973346ddc5a4547c38956b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 26/37] fix: wallets can be shared between goroutines

GetAddress cached the address without synchronisation. A concurrent
caller could see a partially written address.
---
 wallet/basic.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/wallet/basic.go b/wallet/basic.go
index aeb686a..ee9b321 100644
--- a/wallet/basic.go
+++ b/wallet/basic.go
@@ -18,7 +18,6 @@ import (
 type Basic struct {
 	PrivateKey ed25519.PrivateKey
 	PublicKey  ed25519.PublicKey
-	address    [20]byte
 }
 
 // DeriveBasic creates a new Basic wallet from an Ed25519 private key.
@@ -46,11 +45,8 @@ func GenerateBasic() *Basic {
 
 // GetAddress returns the address of the wallet.
 func (b *Basic) GetAddress() [20]byte {
-	if b.address == [20]byte{} {
-		pubKey := b.GetPublicKey()
-		b.address = wire.PublicKeyToAddress(&pubKey)
-	}
-	return b.address
+	pubKey := b.GetPublicKey()
+	return wire.PublicKeyToAddress(&pubKey)
 }
 
 // GetPublicKey returns the public key of the wallet.
-- 
2.43.0


From 79faba448e523c2b124bb21305f3b1d558d097ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 27/37] fix: ignore spaces behind an address

---
 address/address.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/address/address.go b/address/address.go
index 0b53b23..eff167e 100644
--- a/address/address.go
+++ b/address/address.go
@@ -107,13 +107,14 @@ func truncateWhitespace(encodedStr string) (compact [36]byte, err error) {
 			}
 			// All chars have been read, and there is no overflow.
 			return
-		} else if len(compactRemainder) == 0 {
-			// All address chars have been read, but there are some remaining (overflow).
-			err = ErrInvalidLength
-			return
 		}
 		// Read next char from input.
 		if char := remainder[0]; char != ' ' {
+			if len(compactRemainder) == 0 {
+				// All address chars have been read, but there are some remaining (overflow).
+				err = ErrInvalidLength
+				return
+			}
 			// Not a space, write to encoded.
 			compactRemainder[0] = char
 			compactRemainder = compactRemainder[1:]
-- 
2.43.0


From 1967d421f72ea8f228b99a9d4126875ed5cb0320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 28/37] fix: malformed genesis configs are reported as errors

---
 genesis/genesis.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/genesis/genesis.go b/genesis/genesis.go
index cb0ab48..a318882 100644
--- a/genesis/genesis.go
+++ b/genesis/genesis.go
@@ -5,6 +5,7 @@ import (
 	"embed"
 	"encoding/hex"
 	"fmt"
+	"io"
 	"io/fs"
 	"os"
 
@@ -113,8 +114,8 @@ func readConfigFromFS(files fs.FS, path string) (conf *Config, err error) {
 		return nil, openErr
 	}
 	defer f.Close()
-	var file configFile
-	if err := toml.NewDecoder(f).Decode(&file); err != nil {
+	file, err := decodeConfigFile(f)
+	if err != nil {
 		return nil, err
 	}
 	conf = &Config{
@@ -136,6 +137,18 @@ func readConfigFromFS(files fs.FS, path string) (conf *Config, err error) {
 	return conf, nil
 }
 
+// decodeConfigFile parses a TOML config.
+// The TOML parser panics on some malformed inputs, which gets reported as an error.
+func decodeConfigFile(rd io.Reader) (file configFile, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("malformed TOML: %v", r)
+		}
+	}()
+	err = toml.NewDecoder(rd).Decode(&file)
+	return
+}
+
 // configFile is the TOML representation of Config.
 type configFile struct {
 	NetworkID   uint8    `toml:"network_id"`
-- 
2.43.0


From f134851c9afb360487278352173a74f9963b7a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:40 +0000
Subject: [PATCH 29/37] fix: sizing or decoding into a nil pointer is an error

---
 beserial/decode.go | 2 +-
 beserial/size.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beserial/decode.go b/beserial/decode.go
index 906f059..72b1c47 100644
--- a/beserial/decode.go
+++ b/beserial/decode.go
@@ -52,7 +52,7 @@ func (d *decodeState) unmarshal(v interface{}) error {
 		}
 		return &InvalidUnmarshalError{reflect.TypeOf(v)}
 	} else if rv.IsNil() {
-		return nil
+		return &InvalidUnmarshalError{rv.Type()}
 	}
 	if err := d.value(rv.Elem(), tags{}); err != nil {
 		return err
diff --git a/beserial/size.go b/beserial/size.go
index c942b2c..d18af95 100644
--- a/beserial/size.go
+++ b/beserial/size.go
@@ -16,7 +16,7 @@ func Size(v interface{}) (int, error) {
 		}
 		return 0, &InvalidUnmarshalError{reflect.TypeOf(v)}
 	} else if rv.IsNil() {
-		return 0, nil
+		return 0, &InvalidUnmarshalError{rv.Type()}
 	}
 	return valueSize(rv.Elem(), tags{})
 }
-- 
2.43.0


From 33807d8b518f147f36092d396b5dc2fb2694109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:40 +0000
Subject: [PATCH 30/37] fix: encoding an empty transaction or account wrapper
 is an error

---
 wire/account.go | 3 +++
 wire/tx.go      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/wire/account.go b/wire/account.go
index 77525c8..e60720d 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -59,6 +59,9 @@ func (wa *WrapAccount) UnmarshalBESerial(buf []byte) (n int, err error) {
 }
 
 func (wa *WrapAccount) MarshalBESerial(b []byte) ([]byte, error) {
+	if wa.Account == nil {
+		return nil, beserial.ErrNonOptionalNil
+	}
 	b = append(b, wa.Account.Type())
 	return beserial.Marshal(b, wa.Account)
 }
diff --git a/wire/tx.go b/wire/tx.go
index d7d5509..42b1017 100644
--- a/wire/tx.go
+++ b/wire/tx.go
@@ -58,6 +58,9 @@ func (wt *WrapTx) UnmarshalBESerial(buf []byte) (n int, err error) {
 
 // MarshalBESerial encodes the transaction to beserial with a type prefix.
 func (wt WrapTx) MarshalBESerial(b []byte) ([]byte, error) {
+	if wt.Tx == nil {
+		return nil, beserial.ErrNonOptionalNil
+	}
 	b = append(b, wt.Tx.Type())
 	return beserial.Marshal(b, wt.Tx)
 }
-- 
2.43.0


From 01c0bae692e82af20134863fdeaea6d98c981269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:40 +0000
Subject: [PATCH 31/37] fix: websocket addresses cannot be encoded without
 details

---
 wire/p2p.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/wire/p2p.go b/wire/p2p.go
index da06441..47fc3d4 100644
--- a/wire/p2p.go
+++ b/wire/p2p.go
@@ -154,7 +154,7 @@ func (pa *PeerAddress) MarshalBESerial(b []byte) ([]byte, error) {
 		return nil, err
 	}
 	if pa.Detail == nil {
-		return b, nil
+		return b, pa.checkNoDetail()
 	}
 	return beserial.Marshal(b, pa.Detail)
 }
@@ -167,7 +167,7 @@ func (pa *PeerAddress) SizeBESerial() (n int, err error) {
 	}
 	n += sub
 	if pa.Detail == nil {
-		return n, nil
+		return n, pa.checkNoDetail()
 	}
 	sub, err = beserial.Size(pa.Detail)
 	if err != nil {
@@ -177,6 +177,16 @@ func (pa *PeerAddress) SizeBESerial() (n int, err error) {
 	return n, nil
 }
 
+// checkNoDetail errors if the protocol requires details to be encoded.
+func (pa *PeerAddress) checkNoDetail() error {
+	switch pa.Protocol {
+	case ProtocolWS, ProtocolWSS:
+		return fmt.Errorf("missing details of %s address", ProtocolScheme(pa.Protocol))
+	default:
+		return nil
+	}
+}
+
 // PeerID is an 128-bit identifier of a peer.
 type PeerID [16]byte
 
-- 
2.43.0


From e0c9b2527e512d31ddedc22e088694c7202908f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:40 +0000
Subject: [PATCH 32/37] fix: a block with a missing transaction is refused

---
 accounts/accounts.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index 96c7a84..1fe3b4a 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -45,6 +45,11 @@ func (a *Accounts) Push(block *wire.Block) error {
 	if block.Header.Height < 1 {
 		return fmt.Errorf("invalid block height: %d", block.Header.Height)
 	}
+	for i := range block.Body.Txs {
+		if block.Body.Txs[i].Tx == nil {
+			return fmt.Errorf("missing transaction %d", i)
+		}
+	}
 	// Collect all changes in an overlay until it's clear that the block is valid.
 	overlay := tree.NewOverlayStore(a.Tree.Store)
 	staged := NewAccounts(&tree.PMTree{Store: overlay})
-- 
2.43.0


From 47ee2f537452e6c1976ab10a1fbbf569b9353e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:40 +0000
Subject: [PATCH 33/37] fix: a block pruning an account twice is refused

---
 accounts/accounts.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index 1fe3b4a..4eb927b 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -189,6 +189,12 @@ func (a *Accounts) pruneAccounts(block *wire.Block) error {
 	// if they were correctly pruned and if accounts were missed.
 	pruned := make(map[[20]byte]wire.Account)
 	for _, acc := range block.Body.Pruned {
+		if _, ok := pruned[acc.Address]; ok {
+			return &InvalidPruneError{
+				address: acc.Address,
+				error:   fmt.Errorf("account pruned twice"),
+			}
+		}
 		pruned[acc.Address] = acc.Account.Account
 	}
 	// For each transaction that prunes an account,
-- 
2.43.0


From 1a247225cb365f6b7f8948e803703d7a3f27e762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:12 +0000
Subject: [PATCH 34/37] fix: decode arrays of named byte types

reflect.Copy panics unless the element types are identical, so an array of a
defined byte type could be encoded but not decoded.
---
 beserial/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beserial/decode.go b/beserial/decode.go
index 72b1c47..299a012 100644
--- a/beserial/decode.go
+++ b/beserial/decode.go
@@ -120,7 +120,7 @@ func (d *decodeState) value(v reflect.Value, ts tags) error {
 			if err != nil {
 				return err
 			}
-			reflect.Copy(v, reflect.ValueOf(b))
+			copy(v.Slice(0, typ.Len()).Bytes(), b)
 		} else {
 			for i := 0; i < typ.Len(); i++ {
 				if err := d.value(v.Index(i), tags{}); err != nil {
-- 
2.43.0


From 3bef6726cae1f380c7d479f50023d56692b1c7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:54 +0000
Subject: [PATCH 35/37] fix: export the last block

--to is documented as the last block to export, but the export ended one
block before it.
---
 scripts/export_blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/export_blocks.py b/scripts/export_blocks.py
index ca5a20d..1c57e32 100755
--- a/scripts/export_blocks.py
+++ b/scripts/export_blocks.py
@@ -48,7 +48,7 @@ dumper = BlockDumper(stdout)
 start = args.from_
 while True:
     batch = []
-    stop = min(start + args.batch, args.to)
+    stop = min(start + args.batch, args.to + 1)
     for n in range(start, stop):
         batch.append(
             {
@@ -60,7 +60,7 @@ while True:
         )
     if len(batch) == 0:
         break
-    print(f"Requesting blocks {start} to {stop}", file=sys.stderr)
+    print(f"Requesting blocks {start} to {stop - 1}", file=sys.stderr)
     req = requests.post(args.rpc_url, json=batch)
     req.raise_for_status()
     body = req.json()
-- 
2.43.0


From 66c55dfc9bd5abe50a28db47e0756ce083dae8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:55 +0000
Subject: [PATCH 36/37] fix: match batch responses with the exported blocks

A server may answer the calls of a batch in any order. The result of sorted()
was dropped, so the blocks were exported in the order of the answers. Answers
that are missing, doubled or belong to other blocks ended up in the export
unnoticed.
---
 scripts/export_blocks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/export_blocks.py b/scripts/export_blocks.py
index 1c57e32..879e652 100755
--- a/scripts/export_blocks.py
+++ b/scripts/export_blocks.py
@@ -64,8 +64,10 @@ while True:
     req = requests.post(args.rpc_url, json=batch)
     req.raise_for_status()
     body = req.json()
+    body = sorted(body, key=lambda x: x["id"])
+    if [block["id"] for block in body] != list(range(start, stop)):
+        sys.exit(f"Unexpected response for blocks {start} to {stop - 1}")
     start = stop
-    sorted(body, key=lambda x: x["id"])
     for block in body:
         result = bytearray.fromhex(block["result"])
         dumper.add_block(block["id"], result)
-- 
2.43.0


From 25a2f46bbc65a3834fd808a7d77748c9d04ff243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:55 +0000
Subject: [PATCH 37/37] fix: refuse batch sizes below one

The export ended with success before the first block.
---
 scripts/export_blocks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/export_blocks.py b/scripts/export_blocks.py
index 879e652..7e2df9b 100755
--- a/scripts/export_blocks.py
+++ b/scripts/export_blocks.py
@@ -16,6 +16,8 @@ parser.add_argument(
 parser.add_argument("--to", type=int, required=True, help="Last block to export")
 parser.add_argument("--batch", type=int, default=100, help="Export batch size")
 args = parser.parse_args()
+if args.batch < 1:
+    parser.error("batch size must be positive")
 
 
 class BlockDumper:
-- 
2.43.0

