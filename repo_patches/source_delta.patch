From 1a5e54097ea9bd7c64af65cf8a0506c119cea861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 01/45] fix: size the output of Nibbles.Compress so it does not
 panic

---
 tree/store.go   | 2 +-
 wire/nibbles.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/store.go b/tree/store.go
index ea149ab..983d678 100644
--- a/tree/store.go
+++ b/tree/store.go
@@ -36,7 +36,7 @@ func (nbs Nibbles) ToKey() (key [20]byte) {
 }
 
 func (nbs Nibbles) Compress() []byte {
-	buf := make([]byte, (len(nbs)-1)/2)
+	buf := make([]byte, (len(nbs)+1)/2)
 	for i, n := range nbs {
 		if i%2 == 0 {
 			buf[i/2] = n << 4
diff --git a/wire/nibbles.go b/wire/nibbles.go
index da2aa5a..a6598b5 100644
--- a/wire/nibbles.go
+++ b/wire/nibbles.go
@@ -29,7 +29,7 @@ func (nbs Nibbles) ToKey() (key [20]byte) {
 }
 
 func (nbs Nibbles) Compress() []byte {
-	buf := make([]byte, (len(nbs)-1)/2)
+	buf := make([]byte, (len(nbs)+1)/2)
 	for i, n := range nbs {
 		if i%2 == 0 {
 			buf[i/2] = n << 4
-- 
2.43.0


From 9635d9db16b52fd481c7c01c6caf2bae6fd1acc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 02/45] fix: let OverlayStore be written to without a
 constructor

---
 tree/store_overlay.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tree/store_overlay.go b/tree/store_overlay.go
index 9559798..6946365 100644
--- a/tree/store_overlay.go
+++ b/tree/store_overlay.go
@@ -6,6 +6,13 @@ type OverlayStore struct {
 	diffs map[string]Node
 }
 
+// init makes the zero overlay over a lower store usable.
+func (o *OverlayStore) init() {
+	if o.diffs == nil {
+		o.diffs = make(map[string]Node)
+	}
+}
+
 // GetNode reads a node from the overlay or lower store.
 func (o *OverlayStore) GetNode(nbs Nibbles) Node {
 	// Node was overridden in overlay.
@@ -19,11 +26,13 @@ func (o *OverlayStore) GetNode(nbs Nibbles) Node {
 
 // PutNode puts a node in the overlay without affecting the lower store.
 func (o *OverlayStore) PutNode(nbs Nibbles, node Node) {
+	o.init()
 	o.diffs[string(nbs)] = node
 }
 
 // DelNode marks a deletion in the overlay without affecting the lower store.
 func (o *OverlayStore) DelNode(nbs Nibbles) {
+	o.init()
 	o.diffs[string(nbs)] = nil
 }
 
-- 
2.43.0


From c3f382736f73f79c5f859662dfdd353ea1e45324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 03/45] fix: keep tree updates on an OverlayStore out of the
 lower store

---
 tree/store_overlay.go | 9 ++++++++-
 tree/tree.go          | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/tree/store_overlay.go b/tree/store_overlay.go
index 6946365..41fc104 100644
--- a/tree/store_overlay.go
+++ b/tree/store_overlay.go
@@ -21,7 +21,14 @@ func (o *OverlayStore) GetNode(nbs Nibbles) Node {
 		return override
 	}
 	// Request from lower layer.
-	return o.Lower.GetNode(nbs)
+	node := o.Lower.GetNode(nbs)
+	if branch, ok := node.(*Branch); ok {
+		// Branches are updated in place, so hand out a copy
+		// to keep the lower store unaffected until the overlay is flushed.
+		branchCopy := *branch
+		return &branchCopy
+	}
+	return node
 }
 
 // PutNode puts a node in the overlay without affecting the lower store.
diff --git a/tree/tree.go b/tree/tree.go
index 442814e..8337591 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -147,6 +147,7 @@ func (t *PMTree) invalidatePath(prefix Nibbles, path []Node) {
 		path = path[:len(path)-1]
 		// Set the child to a zero hash.
 		node.PutChild(current[len(node.Prefix):], zeroHash)
+		t.Store.PutNode(node.Prefix, node)
 		current = node.Prefix
 	}
 }
-- 
2.43.0


From dd02539234b2fd93c5aff096a62153dda08ece98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 04/45] fix: report errors from marshalling behind a pointer

---
 beserial/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beserial/encode.go b/beserial/encode.go
index 78e7cd9..7faf004 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -60,7 +60,7 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 			return nil, ErrNonOptionalNil
 		}
 		b, err = marshal(v.Elem(), b, ts)
-		return b, nil
+		return b, err
 	case reflect.Array:
 		typ := v.Type()
 		if typ.Elem().Kind() == reflect.Uint8 {
-- 
2.43.0


From 448e0826e004bc8fd2eb841f999dbde96b33dc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 05/45] fix: refuse to marshal lengths that overflow the length
 tag

---
 beserial/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beserial/encode.go b/beserial/encode.go
index 7faf004..e45699c 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -79,6 +79,9 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 			return nil, ErrNoLenTag
 		}
 		size := v.Len()
+		if tagLen, _ := sizeNumber(ts.lenTag); tagLen < 8 && uint64(size)>>(8*tagLen) != 0 {
+			return nil, fmt.Errorf("beserial: length %d does not fit in %s length tag", size, ts.lenTag)
+		}
 		b = marshalInt(ts.lenTag, size, b)
 		typ := v.Type()
 		if kind == reflect.String {
-- 
2.43.0


From e448b029162bdeb17cab693dd2b7a49f07c65625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 06/45] fix: accept len_tag together with other struct tag
 options

---
 beserial/tags.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beserial/tags.go b/beserial/tags.go
index be863de..bb82444 100644
--- a/beserial/tags.go
+++ b/beserial/tags.go
@@ -20,8 +20,8 @@ func (ts *tags) parse(tag string) {
 		switch {
 		case el == optional:
 			ts.optional = true
-		case strings.HasPrefix(tag, lenTag):
-			switch tag[len(lenTag):] {
+		case strings.HasPrefix(el, lenTag):
+			switch el[len(lenTag):] {
 			case "uint8":
 				ts.lenTag = reflect.Uint8
 			case "uint16":
@@ -31,7 +31,7 @@ func (ts *tags) parse(tag string) {
 			case "uint64":
 				ts.lenTag = reflect.Uint64
 			default:
-				panic("beserial: invalid len_tag: " + lenTag)
+				panic("beserial: invalid len_tag: " + el)
 			}
 		default:
 			panic("beserial: unknown struct tag option: " + el)
-- 
2.43.0


From da97a49155d0eee9f1e03df103910faabe84c54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 07/45] fix: make Size agree with Marshal on bools and custom
 encodings

---
 beserial/size.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/beserial/size.go b/beserial/size.go
index bceeacb..b969ae3 100644
--- a/beserial/size.go
+++ b/beserial/size.go
@@ -20,6 +20,12 @@ func Size(v interface{}) (int, error) {
 
 func valueSize(v reflect.Value, ts tags) (total int, err error) {
 	kind := v.Kind()
+	// Check for SizeBESerial implementation.
+	if kind != reflect.Ptr && v.CanAddr() && v.Addr().CanInterface() {
+		if u, ok := v.Addr().Interface().(Marshaler); ok {
+			return u.SizeBESerial()
+		}
+	}
 	switch kind {
 	case reflect.Ptr:
 		if ts.optional {
@@ -85,6 +91,8 @@ func valueSize(v reflect.Value, ts tags) (total int, err error) {
 			}
 			total += elemSize
 		}
+	case reflect.Bool:
+		total++
 	default:
 		tagSize, ok := sizeNumber(kind)
 		if !ok {
-- 
2.43.0


From 2aff28019e9b578d977a896ddcbdf9c273e13a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 08/45] fix: honour pointers and optional flags around custom
 encodings

---
 beserial/decode.go | 4 +---
 beserial/encode.go | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/beserial/decode.go b/beserial/decode.go
index c549ec5..1246661 100644
--- a/beserial/decode.go
+++ b/beserial/decode.go
@@ -61,9 +61,7 @@ func (d *decodeState) value(v reflect.Value, ts tags) error {
 	kind := v.Kind()
 	// Check for UnmarshalBESerial implementation.
 	var addr reflect.Value
-	if kind == reflect.Ptr {
-		addr = v
-	} else if v.CanAddr() {
+	if kind != reflect.Ptr && v.CanAddr() {
 		addr = v.Addr()
 	}
 	if addr.IsValid() && addr.Type().NumMethod() > 0 && addr.CanInterface() {
diff --git a/beserial/encode.go b/beserial/encode.go
index e45699c..087648e 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -35,9 +35,7 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 	kind := v.Kind()
 	// Check for MarshalBESerial implementation.
 	var addr reflect.Value
-	if kind == reflect.Ptr {
-		addr = v
-	} else if v.CanAddr() {
+	if kind != reflect.Ptr && v.CanAddr() {
 		addr = v.Addr()
 	}
 	if addr.IsValid() && addr.Type().NumMethod() > 0 && addr.CanInterface() {
-- 
2.43.0


From c2d338299e209c460aa35e5d747cf7e6a6e49cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 09/45] fix: return errors instead of panicking on nil and
 non-pointer values

---
 beserial/decode.go |  4 +---
 beserial/encode.go | 12 ++----------
 2 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/beserial/decode.go b/beserial/decode.go
index 1246661..325372f 100644
--- a/beserial/decode.go
+++ b/beserial/decode.go
@@ -46,9 +46,7 @@ type decodeState struct {
 
 func (d *decodeState) unmarshal(v interface{}) error {
 	rv := reflect.ValueOf(v)
-	if rv.IsNil() {
-		return nil
-	} else if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidUnmarshalError{reflect.TypeOf(v)}
 	}
 	if err := d.value(rv.Elem(), tags{}); err != nil {
diff --git a/beserial/encode.go b/beserial/encode.go
index 087648e..cb56184 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -9,16 +9,8 @@ import (
 // Marshal appends the binary encoding of v to b.
 func Marshal(b []byte, v interface{}) ([]byte, error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() == reflect.Interface {
-		if rv.Interface() == nil {
-			return nil, fmt.Errorf("TODO error") // FIXME
-		}
-	} else {
-		if rv.IsNil() {
-			return nil, fmt.Errorf("TODO error") // FIXME
-		} else if rv.Kind() != reflect.Ptr {
-			return nil, fmt.Errorf("TODO error") // FIXME
-		}
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
+		return nil, fmt.Errorf("TODO error") // FIXME
 	}
 	return marshal(rv.Elem(), b, tags{})
 }
-- 
2.43.0


From 8428ddb3c4d83e8ac658dbe24984cf26af78e2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 10/45] fix: do not overflow the byte count of bit sets longer
 than 248

---
 wire/bitset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wire/bitset.go b/wire/bitset.go
index 868ae81..489d909 100644
--- a/wire/bitset.go
+++ b/wire/bitset.go
@@ -19,13 +19,13 @@ func (bs *BitSet) UnmarshalBESerial(b []byte) (n int, err error) {
 	bs.Len = b[0]
 	b = b[1:]
 	// Read repeat bits
-	size := (bs.Len + 7) / 8 // ceil division
+	size := (int(bs.Len) + 7) / 8 // ceil division
 	bs.Bits = make([]byte, size)
 	if len(b) < len(bs.Bits) {
 		return 0, fmt.Errorf("reading bit set: %w", beserial.ErrUnexpectedEOF)
 	}
 	copy(bs.Bits, b)
-	return 1 + int(size), nil
+	return 1 + size, nil
 }
 
 func (bs *BitSet) MarshalBESerial(b []byte) ([]byte, error) {
-- 
2.43.0


From 4eccc7638f83fca77fb1e2dc811c6381f70b32e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 11/45] fix: read interlink hashes before advancing past them

---
 wire/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wire/block.go b/wire/block.go
index 4d64ac4..07ae67c 100644
--- a/wire/block.go
+++ b/wire/block.go
@@ -74,8 +74,8 @@ func (il *BlockInterlink) UnmarshalBESerial(b []byte) (n int, err error) {
 			if len(b) < len(hash) {
 				return 0, fmt.Errorf("failed to read hash: %w", beserial.ErrUnexpectedEOF)
 			}
-			b = b[len(hash):]
 			copy(hash[:], b)
+			b = b[len(hash):]
 		}
 		// Save pointer to last hash
 		il.Hashes[i] = hash
-- 
2.43.0


From 6f1d0c8170e5cc8e4b3c41b23651fc825a2c26dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 12/45] fix: do not count interlink padding bits as hashes

---
 wire/block.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wire/block.go b/wire/block.go
index 07ae67c..960ec23 100644
--- a/wire/block.go
+++ b/wire/block.go
@@ -80,6 +80,8 @@ func (il *BlockInterlink) UnmarshalBESerial(b []byte) (n int, err error) {
 		// Save pointer to last hash
 		il.Hashes[i] = hash
 	}
+	// Padding bits do not stand for hashes.
+	il.Compressed = il.Compressed[:compressedIndex]
 	return len(orig) - len(b), nil
 }
 
-- 
2.43.0


From 4ddf613dea6ed3832afb6b7f893d826fa824bad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 13/45] fix: keep the type when unmarshalling a NetAddress

---
 wire/p2p.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wire/p2p.go b/wire/p2p.go
index 87f2cc3..38f3f5a 100644
--- a/wire/p2p.go
+++ b/wire/p2p.go
@@ -31,6 +31,7 @@ func (na *NetAddress) UnmarshalBESerial(b []byte) (n int, err error) {
 		return
 	}
 	b = b[n:]
+	na.Type = t
 	switch t {
 	case NetAddressIPv4:
 		na.IP = make([]byte, net.IPv4len)
-- 
2.43.0


From da839a814de54c7434e8ff9ff2aa306eb824248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 14/45] fix: unmarshal placeholder NetAddresses

---
 wire/p2p.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wire/p2p.go b/wire/p2p.go
index 38f3f5a..105c87d 100644
--- a/wire/p2p.go
+++ b/wire/p2p.go
@@ -37,6 +37,8 @@ func (na *NetAddress) UnmarshalBESerial(b []byte) (n int, err error) {
 		na.IP = make([]byte, net.IPv4len)
 	case NetAddressIPv6:
 		na.IP = make([]byte, net.IPv6len)
+	case NetAddressUnspecified, NetAddressUnknown:
+		na.IP = nil // placeholder without address bytes
 	default:
 		return n, fmt.Errorf("invalid NetAddress type: 0x%x", t)
 	}
-- 
2.43.0


From 31ce22a039bfe308cb220e65c6dcb4a1a5bb7099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 15/45] fix: marshal IPv4 NetAddresses as four bytes

---
 wire/p2p.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/wire/p2p.go b/wire/p2p.go
index 105c87d..b248de9 100644
--- a/wire/p2p.go
+++ b/wire/p2p.go
@@ -51,7 +51,7 @@ func (na *NetAddress) UnmarshalBESerial(b []byte) (n int, err error) {
 
 func (na *NetAddress) MarshalBESerial(b []byte) ([]byte, error) {
 	b = append(b, na.Type)
-	b = append(b, na.IP...)
+	b = append(b, na.ipBytes()...)
 	return b, nil
 }
 
@@ -60,7 +60,18 @@ func (na *NetAddress) SizeBESerial() (int, error) {
 }
 
 func (na *NetAddress) sizeBESerial() int {
-	return 1 + len(na.IP)
+	return 1 + len(na.ipBytes())
+}
+
+// ipBytes returns the IP as it appears on the wire.
+// The net package also represents IPv4 addresses with 16 bytes.
+func (na *NetAddress) ipBytes() net.IP {
+	if na.Type == NetAddressIPv4 {
+		if ip4 := na.IP.To4(); ip4 != nil {
+			return ip4
+		}
+	}
+	return na.IP
 }
 
 // PeerAddress contains an overview about a peer and how to reach it.
-- 
2.43.0


From ae9121a46011dc252809b013b4c15aa49fce2f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 16/45] fix: (un)marshal the details of peer addresses

---
 wire/p2p.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/wire/p2p.go b/wire/p2p.go
index b248de9..9802be7 100644
--- a/wire/p2p.go
+++ b/wire/p2p.go
@@ -131,7 +131,10 @@ func (pa *PeerAddress) UnmarshalBESerial(b []byte) (n int, err error) {
 	default:
 		return n, fmt.Errorf("unknown protocol: 0x%x", pa.Protocol)
 	}
-	sub, err = beserial.Unmarshal(b, &pa.Detail)
+	if pa.Detail == nil {
+		return
+	}
+	sub, err = beserial.Unmarshal(b, pa.Detail)
 	n += sub
 	b = b[sub:]
 	if err != nil {
@@ -146,7 +149,10 @@ func (pa *PeerAddress) MarshalBESerial(b []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return beserial.Marshal(b, &pa.Detail)
+	if pa.Detail == nil {
+		return b, nil
+	}
+	return beserial.Marshal(b, pa.Detail)
 }
 
 func (pa *PeerAddress) SizeBESerial() (n int, err error) {
@@ -156,7 +162,10 @@ func (pa *PeerAddress) SizeBESerial() (n int, err error) {
 		return 0, err
 	}
 	n += sub
-	sub, err = beserial.Size(&pa.Detail)
+	if pa.Detail == nil {
+		return n, nil
+	}
+	sub, err = beserial.Size(pa.Detail)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 0a1b35e0b35ffe66b485025afc36bd23d011ff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 17/45] fix: do not panic on empty messages

---
 wire/msg_types.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wire/msg_types.go b/wire/msg_types.go
index 6b56779..38c6556 100644
--- a/wire/msg_types.go
+++ b/wire/msg_types.go
@@ -94,7 +94,11 @@ func UnmarshalMessage(msgType uint64, buf []byte) (m Message, err error) {
 		return nil, UnknownMessageError(msgType)
 	}
 	var n int
-	n, err = beserial.Unmarshal(buf, m)
+	if empty, ok := m.(EmptyMessage); ok {
+		n, err = empty.UnmarshalBESerial(buf)
+	} else {
+		n, err = beserial.Unmarshal(buf, m)
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -106,6 +110,9 @@ func UnmarshalMessage(msgType uint64, buf []byte) (m Message, err error) {
 
 // MarshalMessage encodes the message to beserial and prefixes the message type ID.
 func MarshalMessage(m Message) (final []byte, err error) {
+	if empty, ok := m.(EmptyMessage); ok {
+		m = &empty
+	}
 	size, err := beserial.Size(m)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 519f7eadffb4e69ba4d0d90c64b3b767a8a3e4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 18/45] fix: give HeaderMessage its own message type

---
 wire/msg_inv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wire/msg_inv.go b/wire/msg_inv.go
index 9a8c5cd..c039624 100644
--- a/wire/msg_inv.go
+++ b/wire/msg_inv.go
@@ -87,5 +87,5 @@ type HeaderMessage struct {
 }
 
 func (m *HeaderMessage) Type() uint64 {
-	return MessageBlock
+	return MessageHeader
 }
-- 
2.43.0


From 50f3d568674351b7a807d54a8623cb942d0d0feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 19/45] fix: (un)marshal inventory messages

---
 wire/msg_inv.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/wire/msg_inv.go b/wire/msg_inv.go
index c039624..c5a76d9 100644
--- a/wire/msg_inv.go
+++ b/wire/msg_inv.go
@@ -1,5 +1,7 @@
 package wire
 
+import "terorie.dev/nimiq/beserial"
+
 type InvVector struct {
 	Type uint32
 	Hash [32]byte
@@ -23,6 +25,29 @@ func (m *InvMessage) Type() uint64 {
 	return m.MessageType
 }
 
+// invVectors is the content of an InvMessage, which does not include the message type.
+type invVectors struct {
+	Vectors []InvVector `beserial:"len_tag=uint16"`
+}
+
+// UnmarshalBESerial unmarshals the inventory message content.
+func (m *InvMessage) UnmarshalBESerial(buf []byte) (n int, err error) {
+	var content invVectors
+	n, err = beserial.Unmarshal(buf, &content)
+	m.Vectors = content.Vectors
+	return
+}
+
+// MarshalBESerial marshals the inventory message content.
+func (m *InvMessage) MarshalBESerial(b []byte) ([]byte, error) {
+	return beserial.Marshal(b, &invVectors{Vectors: m.Vectors})
+}
+
+// SizeBESerial returns the size of the inventory message content.
+func (m *InvMessage) SizeBESerial() (n int, err error) {
+	return beserial.Size(&invVectors{Vectors: m.Vectors})
+}
+
 type GetAddrMessage struct {
 	ProtocolMask uint8
 	ServiceMask  uint32
-- 
2.43.0


From b6bd0f520bfdc172b58e1779c66a1ff21a517765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 20/45] fix: (un)marshal transaction proof and receipt requests

---
 wire/msg_inv.go   | 2 +-
 wire/msg_types.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/wire/msg_inv.go b/wire/msg_inv.go
index c5a76d9..379aca5 100644
--- a/wire/msg_inv.go
+++ b/wire/msg_inv.go
@@ -75,7 +75,7 @@ func (m *GetBlocksMessage) Type() uint64 {
 
 type GetTxProofMessage struct {
 	BlockHash [32]byte
-	Addresses [][20]byte
+	Addresses [][20]byte `beserial:"len_tag=uint16"`
 }
 
 func (m *GetTxProofMessage) Type() uint64 {
diff --git a/wire/msg_types.go b/wire/msg_types.go
index 38c6556..29fa1c1 100644
--- a/wire/msg_types.go
+++ b/wire/msg_types.go
@@ -84,6 +84,10 @@ func UnmarshalMessage(msgType uint64, buf []byte) (m Message, err error) {
 		m = &BasePingMessage{Pong: true}
 	case MessageGetChainProof:
 		m = GetChainProofMessage
+	case MessageGetTxProof:
+		m = new(GetTxProofMessage)
+	case MessageGetTxReceipts:
+		m = new(GetTxReceiptsMessage)
 	case MessageGetHead:
 		m = GetHeadMessage
 	case MessageHead:
-- 
2.43.0


From f6ec1f347bccf7a8c63faddc0a8b8f9a5a19eaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 21/45] fix: convert targets below three bytes to compact form

---
 wire/utils.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/wire/utils.go b/wire/utils.go
index bac51a3..3b37e83 100644
--- a/wire/utils.go
+++ b/wire/utils.go
@@ -9,15 +9,20 @@ import (
 // TargetToCompact converts a target hash number into the compact "n-bits" representation.
 func TargetToCompact(target big.Int) (compact uint32) {
 	tgtBytes := target.Bytes()
+	size := uint32(len(tgtBytes))
+	// Small targets are followed by zero bytes.
+	for len(tgtBytes) < 3 {
+		tgtBytes = append(tgtBytes, 0)
+	}
 
 	// If the first (most significant) byte is
 	// greater than 127 (0x7f), prepend a zero byte.
-	if tgtBytes[0] >= 0x80 && len(tgtBytes) >= 3 {
-		compact |= uint32(len(tgtBytes)+1) << 24
+	if tgtBytes[0] >= 0x80 {
+		compact |= (size + 1) << 24
 		compact |= uint32(tgtBytes[0]) << 8
 		compact |= uint32(tgtBytes[1])
 	} else {
-		compact |= uint32(len(tgtBytes)) << 24
+		compact |= size << 24
 		compact |= uint32(tgtBytes[0]) << 16
 		compact |= uint32(tgtBytes[1]) << 8
 		compact |= uint32(tgtBytes[2])
-- 
2.43.0


From 7a06cbd5be2a40bf81bd4ad296e951e3afccce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 22/45] fix: check both letters of the address country code

---
 address/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index b712bdf..0b53b23 100644
--- a/address/address.go
+++ b/address/address.go
@@ -33,7 +33,7 @@ func Decode(encoded string) (addr [20]byte, err error) {
 		return
 	}
 	// Verify string: Country code
-	if compact[0] != 'N' && compact[1] != 'Q' {
+	if compact[0] != 'N' || compact[1] != 'Q' {
 		err = ErrInvalidCountryCode
 		return
 	}
-- 
2.43.0


From 939b2d7b67b4397cb05f2b6ad27a6da55bafdff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 23/45] fix: ignore trailing spaces when decoding addresses

---
 address/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index 0b53b23..1fa31a7 100644
--- a/address/address.go
+++ b/address/address.go
@@ -107,7 +107,7 @@ func truncateWhitespace(encodedStr string) (compact [36]byte, err error) {
 			}
 			// All chars have been read, and there is no overflow.
 			return
-		} else if len(compactRemainder) == 0 {
+		} else if len(compactRemainder) == 0 && remainder[0] != ' ' {
 			// All address chars have been read, but there are some remaining (overflow).
 			err = ErrInvalidLength
 			return
-- 
2.43.0


From 3fb56f11e075e9dfd814cbbc3f8867d4655a81c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 24/45] fix: reject transactions whose value plus fee overflows

---
 wire/account.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wire/account.go b/wire/account.go
index ec3bb20..02ee809 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -129,7 +129,7 @@ func (a *BasicAccount) Init(tx Tx, height uint32, prevBalance uint64) error {
 func (a *BasicAccount) ApplyOutgoingTx(tx Tx, _ uint32) (Account, error) {
 	value, fee := tx.Amount()
 	amount := value + fee
-	if amount > a.Value {
+	if value > a.Value || fee > a.Value-value {
 		return nil, &OverspendError{Available: a.Value, Spend: amount}
 	}
 	return &BasicAccount{Value: a.Value - amount}, nil
-- 
2.43.0


From 20e4ade240979bb8abd43c269cfef6dd5b5b45da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 25/45] fix: reject incoming transactions that overflow the
 balance

---
 wire/account.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wire/account.go b/wire/account.go
index 02ee809..c626ff8 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -138,6 +138,9 @@ func (a *BasicAccount) ApplyOutgoingTx(tx Tx, _ uint32) (Account, error) {
 // ApplyIncomingTx adds the transaction value to the account.
 func (a *BasicAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
 	value, _ := tx.Amount()
+	if a.Value+value < a.Value {
+		return nil, fmt.Errorf("balance overflow: cannot add %d to %d", value, a.Value)
+	}
 	return &BasicAccount{Value: a.Value + value}, nil
 }
 
-- 
2.43.0


From ca2bd949577022f17cd7e5beb94a9c6226d6527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 26/45] fix: limit vesting payouts to what has vested and
 charge their fee

---
 wire/account.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index c626ff8..ffe13b9 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -230,10 +230,10 @@ func (c *VestingAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error)
 	unlocked := c.amountUnlocked(height)
 	// Check transaction amount.
 	extTx := tx.(*ExtendedTx)
-	if extTx.Value > unlocked {
-		return nil, &OverspendError{Available: unlocked, Spend: extTx.Value}
+	if extTx.Value > unlocked || extTx.Fee > unlocked-extTx.Value {
+		return nil, &OverspendError{Available: unlocked, Spend: extTx.Value + extTx.Fee}
 	}
-	newValue := c.Value - extTx.Value
+	newValue := c.Value - extTx.Value - extTx.Fee
 	// Verify transaction was signed by contract owner.
 	var proof SignatureProof
 	if err := beserial.UnmarshalFull(extTx.Proof, &proof); err != nil {
@@ -262,9 +262,15 @@ func (c *VestingAccount) amountUnlocked(height uint32) uint64 {
 		return c.Value // unlock immediately
 	}
 	// unlock step by step
-	progress := float64(height-c.VestingStart) / float64(c.VestingStepBlocks)
-	unlocked := uint64(progress * float64(c.VestingStepAmount))
-	return unlocked
+	steps := uint64((height - c.VestingStart) / c.VestingStepBlocks)
+	if steps > c.VestingTotalAmount/c.VestingStepAmount {
+		return c.Value // everything unlocked
+	}
+	locked := c.VestingTotalAmount - steps*c.VestingStepAmount
+	if locked >= c.Value {
+		return 0
+	}
+	return c.Value - locked
 }
 
 // An HTLCAccount (hashed time-locked contract)
-- 
2.43.0


From d22b6ecc75c5977721ed276d7344e00a4d1a4931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 27/45] fix: charge the fee of HTLC payouts to the contract

---
 wire/account.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index ffe13b9..54eac0e 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -332,8 +332,8 @@ func (h *HTLCAccount) Init(tx Tx, height uint32, prevBalance uint64) error {
 func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	// TODO use typed errors
 	ext := tx.(*ExtendedTx)
-	if ext.Value > h.Value {
-		return nil, &OverspendError{Available: h.Value, Spend: ext.Value}
+	if ext.Value > h.Value || ext.Fee > h.Value-ext.Value {
+		return nil, &OverspendError{Available: h.Value, Spend: ext.Value + ext.Fee}
 	}
 	// Read proof type.
 	if len(ext.Proof) == 0 {
@@ -405,7 +405,7 @@ func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	// Create copy.
 	updated := new(HTLCAccount)
 	*updated = *h
-	updated.Value -= ext.Value
+	updated.Value -= ext.Value + ext.Fee
 	return updated, nil
 }
 
-- 
2.43.0


From e9ab9036fe27cf6163e2c5bca81daf88a62feed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 28/45] fix: keep the part of an HTLC that has not been
 revealed locked

---
 wire/account.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/wire/account.go b/wire/account.go
index 54eac0e..1142a0c 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -2,6 +2,7 @@ package wire
 
 import (
 	"fmt"
+	"math/bits"
 	"strconv"
 
 	"golang.org/x/crypto/blake2b"
@@ -367,7 +368,14 @@ func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 		if proofParams.Proof.SignerAddress() != h.Recipient {
 			return nil, fmt.Errorf("invalid recipient signature")
 		}
-		// TODO check min cap
+		// Check that the amount backed by unrevealed pre-images stays in the contract.
+		if proofParams.HashDepth < h.HashCount {
+			hi, lo := bits.Mul64(h.TotalAmount, uint64(h.HashCount-proofParams.HashDepth))
+			minCap, _ := bits.Div64(hi, lo, uint64(h.HashCount))
+			if h.Value-ext.Value-ext.Fee < minCap {
+				return nil, fmt.Errorf("HTLC pre-image does not unlock %d", ext.Value+ext.Fee)
+			}
+		}
 	case 2:
 		// Get proof params.
 		var proofParams struct {
-- 
2.43.0


From 678244cb45b9ab97dd89287a59bab86f6432df29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 29/45] fix: reject transactions to contracts instead of
 panicking

---
 wire/account.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index 1142a0c..e5160d5 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -250,9 +250,9 @@ func (c *VestingAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error)
 	return updated, nil
 }
 
-// ApplyIncomingTx adds the transaction value to the account.
+// ApplyIncomingTx always fails, as contracts cannot receive transactions.
 func (c *VestingAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
-	panic("not implemented")
+	return nil, fmt.Errorf("illegal incoming transaction to contract")
 }
 
 func (c *VestingAccount) amountUnlocked(height uint32) uint64 {
@@ -417,9 +417,9 @@ func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	return updated, nil
 }
 
-// ApplyIncomingTx adds the transaction value to the account.
+// ApplyIncomingTx always fails, as contracts cannot receive transactions.
 func (h *HTLCAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
-	panic("not implemented")
+	return nil, fmt.Errorf("illegal incoming transaction to contract")
 }
 
 // AccountPruned marks the removal of an account from the state.
-- 
2.43.0


From b95b873ead6455e34b2f38fda3bcd92482cd6a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 30/45] fix: leave the accounts untouched when a block is
 rejected

---
 accounts/accounts.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index c807268..5d91455 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -36,7 +36,19 @@ func NewAccounts(tree *tree.PMTree) *Accounts {
 }
 
 // Push pushes a new block to the state.
+//
+// If the block is rejected, an error is returned and the state is left as it was.
 func (a *Accounts) Push(block *wire.Block) error {
+	overlay := &tree.OverlayStore{Lower: a.Tree.Store}
+	staged := NewAccounts(&tree.PMTree{Store: overlay})
+	if err := staged.push(block); err != nil {
+		return err
+	}
+	overlay.Flush()
+	return nil
+}
+
+func (a *Accounts) push(block *wire.Block) error {
 	if err := a.pushSenders(block, func(acc wire.Account, tx wire.Tx, height uint32) (wire.Account, error) {
 		return acc.ApplyOutgoingTx(tx, height)
 	}); err != nil {
-- 
2.43.0


From 81f6b83909ab25c0aef2d334c993f4102647c040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 31/45] fix: reject blocks without body or height instead of
 panicking

---
 accounts/accounts.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index 5d91455..db33bce 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -49,6 +49,12 @@ func (a *Accounts) Push(block *wire.Block) error {
 }
 
 func (a *Accounts) push(block *wire.Block) error {
+	if block.Body == nil {
+		return fmt.Errorf("missing block body")
+	}
+	if block.Header.Height < 1 {
+		return fmt.Errorf("invalid block height: %d", block.Header.Height)
+	}
 	if err := a.pushSenders(block, func(acc wire.Account, tx wire.Tx, height uint32) (wire.Account, error) {
 		return acc.ApplyOutgoingTx(tx, height)
 	}); err != nil {
-- 
2.43.0


From 3abf04ba23648bd63761307e55bc74a6e3c70734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 32/45] fix: do not hand out a pointer to the shared initial
 account

---
 accounts/accounts.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index db33bce..3a40c06 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -87,7 +87,8 @@ func (a *Accounts) Revert(block *wire.Block) error {
 func (a *Accounts) GetAccount(addr *[20]byte) wire.Account {
 	buf := a.Tree.GetEntry(addr)
 	if len(buf) <= 0 {
-		return &wire.InitialAccount
+		acc := wire.InitialAccount
+		return &acc
 	}
 	var acc wire.WrapAccount
 	n, err := acc.UnmarshalBESerial(buf)
-- 
2.43.0


From 120e2f98354abd8d38b2ea6f52663f615c9dbf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 33/45] fix: reject transactions that declare the unknown
 account type

---
 accounts/accounts.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index 3a40c06..afb4be1 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -120,6 +120,12 @@ func (a *Accounts) PutAccount(addr *[20]byte, acc wire.Account) {
 func (a *Accounts) pushSenders(block *wire.Block, op AccountOp) error {
 	for _, tx := range block.Body.Txs {
 		content := tx.Tx.AsTxContent()
+		if content.SenderType == wire.AccountUnknown {
+			return &InvalidForSenderError{
+				Address: content.Sender,
+				Err:     fmt.Errorf("invalid sender type: %d", content.SenderType),
+			}
+		}
 		if err := a.pushTx(&content.Sender, content.SenderType, tx.Tx, block.Header.Height, op); err != nil {
 			return err
 		}
@@ -132,6 +138,12 @@ func (a *Accounts) pushRecipients(block *wire.Block, op AccountOp) error {
 		content := tx.Tx.AsTxContent()
 		var recipientType uint8 = wire.AccountUnknown
 		if content.Flags&wire.TxFlagContractCreation == 0 {
+			if content.RecipientType == wire.AccountUnknown {
+				return &InvalidForRecipientError{
+					address: content.Recipient,
+					error:   fmt.Errorf("invalid recipient type: %d", content.RecipientType),
+				}
+			}
 			recipientType = content.RecipientType
 		}
 		if err := a.pushTx(&content.Recipient, recipientType, tx.Tx, block.Header.Height, op); err != nil {
-- 
2.43.0


From de4035066e0a28f6ddccba1ee5536b26a051413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 34/45] fix: give converted basic transactions a complete
 signature proof

---
 wire/tx_basic.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/wire/tx_basic.go b/wire/tx_basic.go
index de22fd7..a2b7cdf 100644
--- a/wire/tx_basic.go
+++ b/wire/tx_basic.go
@@ -1,5 +1,7 @@
 package wire
 
+import "terorie.dev/nimiq/beserial"
+
 // BasicTx is a simple transaction moving NIM from one account to another.
 type BasicTx struct {
 	SenderPubKey        [32]byte
@@ -22,6 +24,14 @@ func (t *BasicTx) Amount() (value uint64, fee uint64) {
 
 // AsExtendedTx returns the extended equivalent of this basic tx.
 func (t *BasicTx) AsExtendedTx() ExtendedTx {
+	// The proof holds what a basic transaction consists of implicitly.
+	proof, err := beserial.Marshal(nil, &SignatureProof{
+		PublicKey: t.SenderPubKey,
+		Signature: t.Signature,
+	})
+	if err != nil {
+		panic(err)
+	}
 	return ExtendedTx{
 		Sender:              PublicKeyToAddress(&t.SenderPubKey),
 		SenderType:          AccountBasic,
@@ -32,7 +42,7 @@ func (t *BasicTx) AsExtendedTx() ExtendedTx {
 		ValidityStartHeight: t.ValidityStartHeight,
 		Flags:               0,
 		Data:                nil,
-		Proof:               t.Signature[:],
+		Proof:               proof,
 		NetworkID:           t.NetworkID,
 	}
 }
-- 
2.43.0


From fa1792e949e9f96b11a13c8eced6add08f292c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 35/45] fix: export blocks in order even if the node answers
 out of order

---
 scripts/export_blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/export_blocks.py b/scripts/export_blocks.py
index ca5a20d..9d1e09b 100755
--- a/scripts/export_blocks.py
+++ b/scripts/export_blocks.py
@@ -65,7 +65,7 @@ while True:
     req.raise_for_status()
     body = req.json()
     start = stop
-    sorted(body, key=lambda x: x["id"])
+    body.sort(key=lambda x: x["id"])
     for block in body:
         result = bytearray.fromhex(block["result"])
         dumper.add_block(block["id"], result)
-- 
2.43.0


From 277762329d65037476521cd9fe9d81df64ce5c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 36/45] fix: export the last block that was asked for

---
 scripts/export_blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/export_blocks.py b/scripts/export_blocks.py
index 9d1e09b..13d1163 100755
--- a/scripts/export_blocks.py
+++ b/scripts/export_blocks.py
@@ -48,7 +48,7 @@ dumper = BlockDumper(stdout)
 start = args.from_
 while True:
     batch = []
-    stop = min(start + args.batch, args.to)
+    stop = min(start + args.batch, args.to + 1)
     for n in range(start, stop):
         batch.append(
             {
-- 
2.43.0


From 8d55b1dd95e2080b0c31b57e56b277abea545e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 37/45] fix: read the genesis config keys as they are spelled
 in the files

---
 genesis/genesis.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/genesis/genesis.go b/genesis/genesis.go
index c82326d..2a4ff20 100644
--- a/genesis/genesis.go
+++ b/genesis/genesis.go
@@ -3,6 +3,7 @@ package genesis
 
 import (
 	"embed"
+	"encoding/hex"
 	"fmt"
 	"io/fs"
 	"os"
@@ -113,7 +114,26 @@ func readConfigFromFS(files fs.FS, path string) (conf *Config, err error) {
 	}
 	defer f.Close()
 	dec := toml.NewDecoder(f)
-	conf = new(Config)
-	err = dec.Decode(conf)
-	return
+	var file struct {
+		NetworkID   uint8    `toml:"network_id"`
+		Name        string   `toml:"name"`
+		SeedPeers   []string `toml:"seed_peers"`
+		SeedLists   []string `toml:"seed_lists"`
+		GenesisHash string   `toml:"genesis_hash"`
+	}
+	if err := dec.Decode(&file); err != nil {
+		return nil, err
+	}
+	conf = &Config{
+		NetworkID: file.NetworkID,
+		Name:      file.Name,
+		SeedPeers: file.SeedPeers,
+		SeedLists: file.SeedLists,
+	}
+	hash, err := hex.DecodeString(file.GenesisHash)
+	if err != nil || len(hash) != len(conf.GenesisHash) {
+		return nil, fmt.Errorf("invalid genesis hash: %q", file.GenesisHash)
+	}
+	copy(conf.GenesisHash[:], hash)
+	return conf, nil
 }
-- 
2.43.0


From 9fb0e39159ddcdc64387bb61d679757398676f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 38/45] fix: reject blocks that list a pruned account twice

---
 accounts/accounts.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index afb4be1..5db3dc2 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -194,6 +194,12 @@ func (a *Accounts) pruneAccounts(block *wire.Block) error {
 	// if they were correctly pruned and if accounts were missed.
 	pruned := make(map[[20]byte]wire.Account)
 	for _, acc := range block.Body.Pruned {
+		if _, ok := pruned[acc.Address]; ok {
+			return &InvalidPruneError{
+				address: acc.Address,
+				error:   fmt.Errorf("account listed twice in prune list"),
+			}
+		}
 		pruned[acc.Address] = acc.Account.Account
 	}
 	// For each transaction that prunes an account,
-- 
2.43.0


From 23073a347cd29f1495bac391b52cf18c006f9bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 39/45] fix: do not overwrite shared paths when rolling up a
 branch

---
 tree/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/tree.go b/tree/tree.go
index 8337591..3f6c3ff 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -176,7 +176,7 @@ func (t *PMTree) prune(prefix Nibbles, path []Node) {
 			//  [Branch 1 (nChildren = X)] => [Node X]
 			// Pruning finishes, defer to the non-pruning recursive algorithm to update the path.
 			t.Store.DelNode(node.Prefix)
-			t.invalidatePath(append(node.Prefix, children[0].Suffix...), path)
+			t.invalidatePath(append(node.Prefix[:len(node.Prefix):len(node.Prefix)], children[0].Suffix...), path)
 			return
 		} else if len(children) > 0 || len(node.Prefix) == 0 {
 			// Nothing to be deleted, use non-pruning code path.
-- 
2.43.0


From 63195b8fe56ad29b6b58dab65c5cfee650871838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:59 +0000
Subject: [PATCH 40/45] fix: do not overwrite a contract created earlier in the
 block

---
 accounts/accounts.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index 5db3dc2..3507bcb 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -251,6 +251,12 @@ func (a *Accounts) createContract(tx wire.Tx, height uint32) error {
 		panic("accounts: createContract called on tx without contract creation flag")
 	}
 	acc := a.GetAccount(&content.Recipient)
+	if acc.Type() != wire.AccountBasic {
+		return &InvalidForRecipientError{
+			address: content.Recipient,
+			error:   fmt.Errorf("contract creation for existing contract"),
+		}
+	}
 	var newAcc wire.Account
 	switch content.RecipientType {
 	case wire.AccountBasic:
-- 
2.43.0


From c0f600aa61dd61a7bcc1aa7a00c1e100b80fc542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:59 +0000
Subject: [PATCH 41/45] fix: reject blocks whose fees overflow the reward

---
 accounts/accounts.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index 3507bcb..8ef6785 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -170,6 +170,9 @@ func (a *Accounts) pushInherents(block *wire.Block) error {
 	reward = policy.BlockReward(block.Header.Height)
 	for _, tx := range block.Body.Txs {
 		_, fee := tx.Tx.Amount()
+		if reward+fee < reward {
+			return fmt.Errorf("reward overflow: cannot add fee %d to %d", fee, reward)
+		}
 		reward += fee
 	}
 	coinbase := wire.BasicTx{
-- 
2.43.0


From 35b0c212d58c121df7f2fdecaff67a20a7c42376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 42/45] fix: use the own encoding of named elements in arrays
 and slices

---
 beserial/decode.go | 4 ++--
 beserial/encode.go | 8 ++++++--
 beserial/size.go   | 4 ++--
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/beserial/decode.go b/beserial/decode.go
index 325372f..e1cf7a8 100644
--- a/beserial/decode.go
+++ b/beserial/decode.go
@@ -103,7 +103,7 @@ func (d *decodeState) value(v reflect.Value, ts tags) error {
 		return d.value(ptrV.Elem(), ts)
 	case reflect.Array:
 		typ := v.Type()
-		if typ.Elem().Kind() == reflect.Uint8 {
+		if typ.Elem() == byteType {
 			// Byte arrays can be copied.
 			b, err := d.pop(typ.Len())
 			if err != nil {
@@ -143,7 +143,7 @@ func (d *decodeState) value(v reflect.Value, ts tags) error {
 				return err
 			}
 			v.SetString(string(b))
-		} else if typ.Elem().Kind() == reflect.Uint8 {
+		} else if typ.Elem() == byteType {
 			// Byte slices can be copied.
 			b, err := d.pop(int(u))
 			if err != nil {
diff --git a/beserial/encode.go b/beserial/encode.go
index cb56184..a758b57 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -6,6 +6,10 @@ import (
 	"reflect"
 )
 
+// byteType is the one element type that is copied in bulk.
+// Named types can have their own encoding.
+var byteType = reflect.TypeOf(byte(0))
+
 // Marshal appends the binary encoding of v to b.
 func Marshal(b []byte, v interface{}) ([]byte, error) {
 	rv := reflect.ValueOf(v)
@@ -53,7 +57,7 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 		return b, err
 	case reflect.Array:
 		typ := v.Type()
-		if typ.Elem().Kind() == reflect.Uint8 {
+		if typ.Elem() == byteType {
 			// Byte arrays can be copied.
 			b = append(b, v.Slice(0, typ.Len()).Bytes()...)
 		} else {
@@ -76,7 +80,7 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 		typ := v.Type()
 		if kind == reflect.String {
 			b = append(b, []byte(v.String())...)
-		} else if typ.Elem().Kind() == reflect.Uint8 {
+		} else if typ.Elem() == byteType {
 			b = append(b, v.Bytes()...)
 		} else {
 			for i := 0; i < size; i++ {
diff --git a/beserial/size.go b/beserial/size.go
index b969ae3..fd805c8 100644
--- a/beserial/size.go
+++ b/beserial/size.go
@@ -45,7 +45,7 @@ func valueSize(v reflect.Value, ts tags) (total int, err error) {
 		total += elem
 	case reflect.Array:
 		typ := v.Type()
-		if elemSize, ok := sizeNumber(typ.Elem().Kind()); ok {
+		if elemSize, ok := sizeNumber(typ.Elem().Kind()); ok && typ.Elem().PkgPath() == "" {
 			total = typ.Len() * elemSize
 		} else {
 			for i := 0; i < typ.Len(); i++ {
@@ -65,7 +65,7 @@ func valueSize(v reflect.Value, ts tags) (total int, err error) {
 		total += tagLen
 		if kind == reflect.String {
 			total += v.Len()
-		} else if elemSize, ok := sizeNumber(typ.Elem().Kind()); ok {
+		} else if elemSize, ok := sizeNumber(typ.Elem().Kind()); ok && typ.Elem().PkgPath() == "" {
 			total += v.Len() * elemSize
 		} else {
 			for i := 0; i < v.Len(); i++ {
-- 
2.43.0


From fe137df8510002c23601c612984799b55d5224b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 43/45] fix: report configs that the TOML parser panics on as
 malformed

---
 genesis/genesis.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/genesis/genesis.go b/genesis/genesis.go
index 2a4ff20..ae27f18 100644
--- a/genesis/genesis.go
+++ b/genesis/genesis.go
@@ -113,6 +113,12 @@ func readConfigFromFS(files fs.FS, path string) (conf *Config, err error) {
 		return nil, openErr
 	}
 	defer f.Close()
+	// The TOML parser panics on some malformed documents.
+	defer func() {
+		if r := recover(); r != nil {
+			conf, err = nil, fmt.Errorf("malformed config: %v", r)
+		}
+	}()
 	dec := toml.NewDecoder(f)
 	var file struct {
 		NetworkID   uint8    `toml:"network_id"`
-- 
2.43.0


From 426682c8ff84bc75758eece6aa9a2c979138bdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:10 +0000
Subject: [PATCH 44/45] fix: looking up the address of a wallet wrote to it, a
 data race on shared wallets

---
 wallet/basic.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/wallet/basic.go b/wallet/basic.go
index aeb686a..ee9b321 100644
--- a/wallet/basic.go
+++ b/wallet/basic.go
@@ -18,7 +18,6 @@ import (
 type Basic struct {
 	PrivateKey ed25519.PrivateKey
 	PublicKey  ed25519.PublicKey
-	address    [20]byte
 }
 
 // DeriveBasic creates a new Basic wallet from an Ed25519 private key.
@@ -46,11 +45,8 @@ func GenerateBasic() *Basic {
 
 // GetAddress returns the address of the wallet.
 func (b *Basic) GetAddress() [20]byte {
-	if b.address == [20]byte{} {
-		pubKey := b.GetPublicKey()
-		b.address = wire.PublicKeyToAddress(&pubKey)
-	}
-	return b.address
+	pubKey := b.GetPublicKey()
+	return wire.PublicKeyToAddress(&pubKey)
 }
 
 // GetPublicKey returns the public key of the wallet.
-- 
2.43.0


From dfc8cd74868f52567be36890c8e59d41bec9ffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:22 +0000
Subject: [PATCH 45/45] fix: make Size report misuse like Marshal does instead
 of panicking

---
 beserial/size.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/beserial/size.go b/beserial/size.go
index fd805c8..199a0f0 100644
--- a/beserial/size.go
+++ b/beserial/size.go
@@ -10,9 +10,7 @@ import (
 // v must not be nil or a non-pointer.
 func Size(v interface{}) (int, error) {
 	rv := reflect.ValueOf(v)
-	if rv.IsNil() {
-		return 0, nil
-	} else if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return 0, &InvalidUnmarshalError{reflect.TypeOf(v)}
 	}
 	return valueSize(rv.Elem(), tags{})
-- 
2.43.0

