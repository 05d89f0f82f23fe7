From a76a99a16f90807e9d5fb1a7663301ed4409f261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:34 +0000
Subject: [PATCH 01/41] fix: reject truncated and overlong LEB128 encodings

DecodeSlice returned a value for an empty or unterminated slice and all
decoders accepted encodings longer than five bytes or wider than 32 bits,
dropping the excess bits. DecodeReader also discarded a byte that a reader
delivered together with io.EOF, which io.Reader implementations may do.
---
 leb128/decode.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/leb128/decode.go b/leb128/decode.go
index 0c08921..0df3085 100644
--- a/leb128/decode.go
+++ b/leb128/decode.go
@@ -6,6 +6,15 @@ import (
 	"io"
 )
 
+// maxShift is the shift of the fifth and last byte of a 32 bit value
+const maxShift = 28
+
+// maxLast is the largest fifth byte of a 32 bit value, a larger byte either
+// continues the encoding or holds more than the four remaining bits
+const maxLast = 0b_0000_1111
+
+var errOverflow = fmt.Errorf("leb128 encoding overflows a 32 bit value")
+
 func DecodeReader(r io.Reader) (uint32, int, error) {
 	var val uint32
 	shift := 0
@@ -13,14 +22,15 @@ func DecodeReader(r io.Reader) (uint32, int, error) {
 	buf := make([]byte, 1)
 
 	for {
-		n, err := r.Read(buf)
+		// a byte that was read is processed before any error that came with it
+		n, _ := r.Read(buf)
 		if n == 0 {
 			return 0, 0, fmt.Errorf("expected 1 byte read but read 0")
 		}
-		if err != nil {
-			return 0, 0, err
-		}
 		b := buf[0]
+		if shift == maxShift && b > maxLast {
+			return 0, 0, errOverflow
+		}
 		total++
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
@@ -40,6 +50,9 @@ func Decode(r *bufio.Reader) (uint32, int, error) {
 		if err != nil {
 			return 0, 0, err
 		}
+		if shift == maxShift && b > maxLast {
+			return 0, 0, errOverflow
+		}
 		total++
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
@@ -56,12 +69,15 @@ func DecodeSlice(s []byte) (uint32, int, error) {
 	total := 0
 	for index := 0; index < len(s); index++ {
 		b := s[index]
+		if shift == maxShift && b > maxLast {
+			return 0, 0, errOverflow
+		}
 		total++
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
-			break
+			return val, total, nil
 		}
 		shift += 7
 	}
-	return val, total, nil
+	return 0, 0, io.ErrUnexpectedEOF
 }
-- 
2.43.0


From 4a79de46d3e8ed339a46913d50fdbcac6f817adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:21 +0000
Subject: [PATCH 02/41] fix: put the removed handle index on the free list

Remove pushed the length of the free list instead of the index it freed, so
a later Add could target a live handle or fail.
---
 abi/types/handle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abi/types/handle.go b/abi/types/handle.go
index a4a41a1..b360d5c 100644
--- a/abi/types/handle.go
+++ b/abi/types/handle.go
@@ -59,7 +59,7 @@ func (ht *HandleTable) Remove(rt ResourceType, i uint32) (*HandleElem, error) {
 		return nil, TrapWith("handle table end count != 0")
 	}
 	ht.Array[i] = nil
-	ht.Free = stack.Push(ht.Free, uint32(len(ht.Free)))
+	ht.Free = stack.Push(ht.Free, i)
 	if h.Scope != nil {
 		h.Scope.RemoveBorrowFromTable()
 	}
-- 
2.43.0


From b00f145fb8054e023e66d4c9b18b614d06da4604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:21 +0000
Subject: [PATCH 03/41] fix: create the handle table map on first use

The zero value of HandleTables panicked on every access.
---
 abi/types/handle.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abi/types/handle.go b/abi/types/handle.go
index b360d5c..e640034 100644
--- a/abi/types/handle.go
+++ b/abi/types/handle.go
@@ -74,6 +74,9 @@ func (ht *HandleTables) Table(rt ResourceType) *HandleTable {
 	t, ok := ht.ResourceTypeToTable[rt]
 	if !ok {
 		t = &HandleTable{}
+		if ht.ResourceTypeToTable == nil {
+			ht.ResourceTypeToTable = map[ResourceType]*HandleTable{}
+		}
 		ht.ResourceTypeToTable[rt] = t
 	}
 	return t
-- 
2.43.0


From c00959844d79e563204fe2ea15ac7a41fca0ce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:21 +0000
Subject: [PATCH 04/41] fix: release each lent handle once when a call exits

ExitCall kept the list of lenders, so ending the call again lowered the lend
counts a second time.
---
 abi/types/context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abi/types/context.go b/abi/types/context.go
index 2bfa07c..a3c2913 100644
--- a/abi/types/context.go
+++ b/abi/types/context.go
@@ -27,5 +27,6 @@ func (cx *CallContext) ExitCall() error {
 	for _, h := range cx.Lenders {
 		h.LendCount -= 1
 	}
+	cx.Lenders = nil
 	return nil
 }
-- 
2.43.0


From 4a104819de57b4719c5936b8e73930e5118c6c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:22 +0000
Subject: [PATCH 05/41] fix: trap when a borrowed handle is lifted as owned

The canonical ABI only lets owning handles be transferred.
---
 abi/io/lift.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/abi/io/lift.go b/abi/io/lift.go
index 79abc1a..e4aa2b0 100644
--- a/abi/io/lift.go
+++ b/abi/io/lift.go
@@ -9,7 +9,14 @@ import (
 )
 
 func LiftOwn(cx *types.CallContext, i uint32, own types.Own) (uint32, error) {
-	h, err := cx.Instance.Handles.Remove(own.ResourceType(), i)
+	h, err := cx.Instance.Handles.Get(own.ResourceType(), i)
+	if err != nil {
+		return 0, err
+	}
+	if !h.Own {
+		return 0, types.TrapWith("LiftOwn: handle %d is not owned", i)
+	}
+	h, err = cx.Instance.Handles.Remove(own.ResourceType(), i)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From e2f60fd779a5028c89677a03a1f6e06b52e4aa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:22 +0000
Subject: [PATCH 06/41] fix: check the implementing instance before dropping a
 handle

A refused drop removed the handle without running its destructor.
---
 abi/io/canon.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/abi/io/canon.go b/abi/io/canon.go
index fcdfdd9..9c16e80 100644
--- a/abi/io/canon.go
+++ b/abi/io/canon.go
@@ -19,16 +19,20 @@ func CanonResourceRep(inst *types.ComponentInstance, rt types.ResourceType, rep
 }
 
 func CanonResourceDrop(inst *types.ComponentInstance, rt types.ResourceType, i uint32) error {
-	h, err := inst.Handles.Remove(rt, i)
+	h, err := inst.Handles.Get(rt, i)
+	if err != nil {
+		return err
+	}
+	if h.Own && inst != rt.Impl() && !rt.Impl().MayEnter {
+		return types.TrapWith("ComponentInstance != ResourceType.Impl and ResourceType.Impl.MayEnter == false")
+	}
+	h, err = inst.Handles.Remove(rt, i)
 	if err != nil {
 		return err
 	}
 	if !h.Own {
 		return nil
 	}
-	if inst != rt.Impl() && !rt.Impl().MayEnter {
-		return types.TrapWith("ComponentInstance != ResourceType.Impl and ResourceType.Impl.MayEnter == false")
-	}
 	if rt.DTor() != nil {
 		rt.DTor()(h.Rep)
 	}
-- 
2.43.0


From 1e27836e89a6f8706b98cbe74f0762c64a3da391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:22 +0000
Subject: [PATCH 07/41] fix: report an error when an aligned pointer leaves the
 address space

AlignTo wrapped to a small address for pointers near 2^32 and converted an
infinity for a zero alignment.
---
 abi/io/alignment.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/abi/io/alignment.go b/abi/io/alignment.go
index 03b08dc..ac4959d 100644
--- a/abi/io/alignment.go
+++ b/abi/io/alignment.go
@@ -8,7 +8,14 @@ import (
 )
 
 func AlignTo(ptr, alignment uint32) (uint32, error) {
-	return uint32(math.Ceil(float64(ptr)/float64(alignment)) * float64(alignment)), nil
+	if alignment == 0 {
+		return 0, types.TrapWith("AlignTo: alignment must not be zero")
+	}
+	aligned := (uint64(ptr) + uint64(alignment) - 1) / uint64(alignment) * uint64(alignment)
+	if aligned > math.MaxUint32 {
+		return 0, types.TrapWith("AlignTo: ptr %d aligned to %d exceeds the address space", ptr, alignment)
+	}
+	return uint32(aligned), nil
 }
 
 func Alignment(t types.ValType) (uint32, error) {
-- 
2.43.0


From f3ab00378c48b700922f26fd4ca9cf8cd3a5bd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:22 +0000
Subject: [PATCH 08/41] fix: return the error of a case whose alignment is
 unknown

AlignmentVariant reported alignment zero instead.
---
 abi/io/alignment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abi/io/alignment.go b/abi/io/alignment.go
index ac4959d..79ebf37 100644
--- a/abi/io/alignment.go
+++ b/abi/io/alignment.go
@@ -82,11 +82,11 @@ func AlignmentVariant(v types.Variant) (uint32, error) {
 	}
 	alignment, err := Alignment(dt)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	maxAlignment, err := MaxCaseAlignment(v.Cases())
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	return max(alignment, maxAlignment), nil
 }
-- 
2.43.0


From a0b5b6d313b749607af6bbe8e5f753dac1c13edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:22 +0000
Subject: [PATCH 09/41] fix: report types larger than the address space

The size of large records and variants wrapped around.
---
 abi/io/size.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/abi/io/size.go b/abi/io/size.go
index 7378f94..d2d9146 100644
--- a/abi/io/size.go
+++ b/abi/io/size.go
@@ -64,7 +64,10 @@ func SizeRecord(r types.Record) (uint32, error) {
 		if err != nil {
 			return 0, err
 		}
-		s += size
+		s, err = addSize(s, size)
+		if err != nil {
+			return 0, err
+		}
 	}
 	alignment, err := AlignmentRecord(r)
 	if err != nil {
@@ -105,7 +108,10 @@ func SizeVariant(v types.Variant) (uint32, error) {
 		}
 		cs = max(cs, size)
 	}
-	s += cs
+	s, err = addSize(s, cs)
+	if err != nil {
+		return 0, err
+	}
 	alignment, err = AlignmentVariant(v)
 	if err != nil {
 		return 0, err
@@ -113,6 +119,15 @@ func SizeVariant(v types.Variant) (uint32, error) {
 	return AlignTo(s, alignment)
 }
 
+// addSize adds two sizes and reports an error when the sum is not representable
+func addSize(a, b uint32) (uint32, error) {
+	sum := uint64(a) + uint64(b)
+	if sum > math.MaxUint32 {
+		return 0, types.TrapWith("size: %d exceeds the address space", sum)
+	}
+	return uint32(sum), nil
+}
+
 func SizeFlags(f types.Flags) (uint32, error) {
 	n := len(f.Labels())
 	if n == 0 {
-- 
2.43.0


From 08335d6c8e220b93ffdee5a3d72cf11a266d9135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:22 +0000
Subject: [PATCH 10/41] fix: return an error when reading past the last value

The iterator only checked for an empty list and panicked at the end of any
other list.
---
 abi/values/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abi/values/value.go b/abi/values/value.go
index 3bdcd3c..f996387 100644
--- a/abi/values/value.go
+++ b/abi/values/value.go
@@ -30,7 +30,7 @@ type valueIterator struct {
 }
 
 func (vi *valueIterator) Next(k kind.Kind) (any, error) {
-	if vi.Length() == 0 {
+	if vi.index >= vi.Length() {
 		return nil, fmt.Errorf("eof")
 	}
 
-- 
2.43.0


From bdca076846f55c497dfd31de7b88f700e1836326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:22 +0000
Subject: [PATCH 11/41] fix: reject coercions the canonical ABI does not define

The coercing iterator returned a value of another kind than the one asked for.
---
 abi/values/coerce_value_iterator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abi/values/coerce_value_iterator.go b/abi/values/coerce_value_iterator.go
index ba392f0..44a7eb8 100644
--- a/abi/values/coerce_value_iterator.go
+++ b/abi/values/coerce_value_iterator.go
@@ -76,8 +76,10 @@ func (vi *coerceValueIterator) Next(want kind.Kind) (any, error) {
 			return nil, types.NewCastError(x, "uint64")
 		}
 		return math.Float64frombits(u64), nil
-	default:
+	case have == want:
 		return x, nil
+	default:
+		return nil, fmt.Errorf("unable to coerce kind.%s to kind.%s", have, want)
 	}
 }
 
-- 
2.43.0


From dea332a2984b1b6d15b920fff0ff0ab7309e0991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:21 +0000
Subject: [PATCH 12/41] fix: check guest memory ranges without 32-bit
 wrap-around

A pointer near 2^32 or a large length wrapped past the bounds checks and
panicked on the slice expression. Integer loads and stores had no check.
---
 abi/io/canon_lift.go  |  4 ++--
 abi/io/canon_lower.go |  4 ++--
 abi/io/load.go        |  9 ++++++---
 abi/io/memory.go      | 14 ++++++++++++++
 abi/io/store.go       | 27 +++++++++++++++------------
 5 files changed, 39 insertions(+), 19 deletions(-)
 create mode 100644 abi/io/memory.go

diff --git a/abi/io/canon_lift.go b/abi/io/canon_lift.go
index 925670a..700c382 100644
--- a/abi/io/canon_lift.go
+++ b/abi/io/canon_lift.go
@@ -121,8 +121,8 @@ func LiftValues(cx *types.CallContext, maxFlat int, vi values.ValueIterator, ts
 		return nil, err
 	}
 
-	if ptr+size > uint32(cx.Options.Memory.Len()) {
-		return nil, types.TrapWith("ptr %d + offset %d is greater than len(memory) %d", ptr, size, cx.Options.Memory.Len())
+	if _, err := memoryRange(cx, ptr, uint64(size)); err != nil {
+		return nil, err
 	}
 
 	load, err := Load(cx, tupleType, ptr)
diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index f3e3143..fece85e 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -133,8 +133,8 @@ func LowerValuesToTuple(ts []types.ValType, vs []any, outParam values.ValueItera
 	if ptr != align {
 		return nil, fmt.Errorf("ptr %d does not align to %d", ptr, align)
 	}
-	if ptr+size > uint32(cx.Options.Memory.Len()) {
-		return nil, fmt.Errorf("ptr %d is greater than memory size %d", ptr+size, cx.Options.Memory.Len())
+	if _, err := memoryRange(cx, ptr, uint64(size)); err != nil {
+		return nil, err
 	}
 	return []any{ptr}, nil
 }
diff --git a/abi/io/load.go b/abi/io/load.go
index 9be637e..692a2a3 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -135,7 +135,10 @@ func LoadInt(c *types.CallContext, ptr uint32, t types.ValType) (any, error) {
 	if err != nil {
 		return nil, err
 	}
-	buf := c.Options.Memory.Bytes()[ptr : ptr+size]
+	buf, err := memoryRange(c, ptr, uint64(size))
+	if err != nil {
+		return nil, err
+	}
 	switch t.(type) {
 	case types.U8:
 		return buf[0], nil
@@ -283,8 +286,8 @@ func LoadListFromRange(cx *types.CallContext, ptr uint32, length uint32, element
 	if err != nil {
 		return nil, err
 	}
-	if ptr+length*size > uint32(cx.Options.Memory.Len()) {
-		return nil, types.TrapWith("destination size %d is greater than memory size %d", ptr+length*size, cx.Options.Memory.Len())
+	if _, err := memoryRange(cx, ptr, uint64(length)*uint64(size)); err != nil {
+		return nil, err
 	}
 	var list []any
 	var i uint32 = 0
diff --git a/abi/io/memory.go b/abi/io/memory.go
new file mode 100644
index 0000000..d5bf501
--- /dev/null
+++ b/abi/io/memory.go
@@ -0,0 +1,14 @@
+package io
+
+import "github.com/patrickhuber/go-wasm/abi/types"
+
+// memoryRange returns the bytes [ptr, ptr+length) of the context memory. It
+// traps when the range is not entirely inside the memory.
+func memoryRange(cx *types.CallContext, ptr uint32, length uint64) ([]byte, error) {
+	memory := cx.Options.Memory.Bytes()
+	end := uint64(ptr) + length
+	if end > uint64(len(memory)) {
+		return nil, types.TrapWith("range %d + %d exceeds memory size %d", ptr, length, len(memory))
+	}
+	return memory[ptr:end], nil
+}
diff --git a/abi/io/store.go b/abi/io/store.go
index 54e959c..5cb7636 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -90,10 +90,7 @@ func StoreValidate(c *types.CallContext, t types.ValType, ptr uint32) error {
 		return err
 	}
 
-	if ptr+size > uint32(c.Options.Memory.Len()) {
-		return fmt.Errorf("Store: %d exceeds memory length %d", ptr+size, c.Options.Memory.Len())
-	}
-
+	_, err = memoryRange(c, ptr, uint64(size))
 	return err
 }
 
@@ -112,7 +109,10 @@ func StoreFloat(c *types.CallContext, val any, ptr uint32, nbytes uint32) error
 }
 
 func StoreUInt32(c *types.CallContext, val uint32, ptr uint32) error {
-	buf := c.Options.Memory.Bytes()[ptr : ptr+SizeOfU32]
+	buf, err := memoryRange(c, ptr, uint64(SizeOfU32))
+	if err != nil {
+		return err
+	}
 	binary.LittleEndian.PutUint32(buf, val)
 	return nil
 }
@@ -182,7 +182,10 @@ func StoreInt(c *types.CallContext, val any, ptr uint32, nbytes uint32, signed b
 		}
 	}
 
-	buf := c.Options.Memory.Bytes()[ptr : ptr+nbytes]
+	buf, err := memoryRange(c, ptr, uint64(nbytes))
+	if err != nil {
+		return err
+	}
 	switch nbytes {
 	case SizeOfS8:
 		buf[0] = uint8(u64)
@@ -400,11 +403,11 @@ func StoreListIntoRange(cx *types.CallContext, v any, elementType types.ValType)
 		return 0, 0, err
 	}
 
-	byteLengthInt := len(slice) * int(size)
-	if byteLengthInt >= math.MaxInt {
-		return 0, 0, types.TrapWith("byte length %d exceeds max of %d", byteLengthInt, math.MaxInt)
+	byteLength64 := uint64(len(slice)) * uint64(size)
+	if byteLength64 > math.MaxUint32 {
+		return 0, 0, types.TrapWith("byte length %d exceeds max of %d", byteLength64, uint32(math.MaxUint32))
 	}
-	byteLength := uint32(byteLengthInt)
+	byteLength := uint32(byteLength64)
 
 	alignment, err := Alignment(elementType)
 	if err != nil {
@@ -424,8 +427,8 @@ func StoreListIntoRange(cx *types.CallContext, v any, elementType types.ValType)
 		return 0, 0, types.TrapWith("ptr %d not aligned to %d", ptr, alignment)
 	}
 
-	if ptr+byteLength > uint32(cx.Options.Memory.Len()) {
-		return 0, 0, types.TrapWith("ptr %d exceeds mememory size %d", ptr+byteLength, cx.Options.Memory.Len())
+	if _, err := memoryRange(cx, ptr, uint64(byteLength)); err != nil {
+		return 0, 0, err
 	}
 
 	for i, element := range slice {
-- 
2.43.0


From ca6d0c8ae1fa4750ac4beb8515eea2c76a497dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:21 +0000
Subject: [PATCH 13/41] fix: check string ranges on load without wrap-around

The byte length was computed in 32 bits, so a large length passed the check.
---
 abi/io/load.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/abi/io/load.go b/abi/io/load.go
index 692a2a3..d86db04 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -211,6 +211,9 @@ func LoadString(cx *types.CallContext, ptr uint32) (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if ptr > math.MaxUint32-4 {
+		return "", types.TrapWith("string pointer %d exceeds the address space", ptr)
+	}
 	// is this byte order mark?
 	taggedCodeUnits, err := LoadUInt32(cx, ptr+4)
 	if err != nil {
@@ -236,7 +239,7 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 		return "", err
 	}
 
-	byteLength := tcu.CodeUnits * uint32(codec.RuneSize())
+	byteLength := uint64(tcu.CodeUnits) * uint64(codec.RuneSize())
 	align, err := AlignTo(ptr, uint32(codec.Alignment()))
 
 	if err != nil {
@@ -247,11 +250,10 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 		return "", types.TrapWith("error aligning ptr %d to %d", ptr, uint32(codec.Alignment()))
 	}
 
-	if ptr+byteLength > uint32(cx.Options.Memory.Len()) {
-		return "", types.TrapWith("destination %d > memory size %d", ptr+byteLength, cx.Options.Memory.Len())
+	buf, err := memoryRange(cx, ptr, byteLength)
+	if err != nil {
+		return "", err
 	}
-
-	buf := cx.Options.Memory.Bytes()[ptr : ptr+byteLength]
 	return encoding.DecodeString(codec, bytes.NewReader(buf))
 }
 
@@ -261,6 +263,9 @@ func LoadList(cx *types.CallContext, ptr uint32, elementType types.ValType) ([]a
 	if err != nil {
 		return nil, err
 	}
+	if ptr > math.MaxUint32-4 {
+		return nil, types.TrapWith("list pointer %d exceeds the address space", ptr)
+	}
 	length, err := LoadUInt32(cx, ptr+4)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 92b240d4edfe9834b8d880f631c8b91461a6ebc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:27 +0000
Subject: [PATCH 14/41] fix: validate the pointer the guest allocator returns
 for a string

An out of range pointer panicked and a misaligned one was written to.
---
 abi/io/store.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/abi/io/store.go b/abi/io/store.go
index 5cb7636..6fe0fb9 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -276,6 +276,10 @@ func StoreStringDynamic(
 		return 0, 0, err
 	}
 
+	if uint64(len(encoded)) > uint64(types.MaxStringByteLength) {
+		return 0, 0, types.TrapWith("string byte length %d is greater than max string byte length %d", len(encoded), types.MaxStringByteLength)
+	}
+
 	dstAlignment := uint32(codec.Alignment())
 	lenEncoded := uint32(len(encoded))
 
@@ -284,7 +288,18 @@ func StoreStringDynamic(
 		return 0, 0, err
 	}
 
-	buf := cx.Options.Memory.Bytes()[ptr : ptr+lenEncoded]
+	align, err := AlignTo(ptr, dstAlignment)
+	if err != nil {
+		return 0, 0, err
+	}
+	if ptr != align {
+		return 0, 0, types.TrapWith("ptr %d is not aligned to %d", ptr, dstAlignment)
+	}
+
+	buf, err := memoryRange(cx, ptr, uint64(lenEncoded))
+	if err != nil {
+		return 0, 0, err
+	}
 	copy(buf, encoded)
 
 	// return the pointer and the adjusted length (in runes)
-- 
2.43.0


From 253a3da446c1975ddd3bcac5c8f9499ceb51e8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:28 +0000
Subject: [PATCH 15/41] fix: refuse to store an integer of another width

A host integer wider than the type was truncated without an error, and a
value that is no integer at all was stored as zero.
---
 abi/io/store.go | 54 +++++++++++++++++++++----------------------------
 1 file changed, 23 insertions(+), 31 deletions(-)

diff --git a/abi/io/store.go b/abi/io/store.go
index 6fe0fb9..3c5a312 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -119,46 +119,43 @@ func StoreUInt32(c *types.CallContext, val uint32, ptr uint32) error {
 
 func StoreInt(c *types.CallContext, val any, ptr uint32, nbytes uint32, signed bool) error {
 	var u64 uint64
-	var max uint64
-	var min int64 = 0
+	var width uint32
 	sign := false
 	switch t := val.(type) {
 	case uint8:
 		u64 = uint64(t)
-		max = math.MaxUint8
+		width = SizeOfU8
 	case uint16:
 		u64 = uint64(t)
-		max = math.MaxUint16
+		width = SizeOfU16
 	case uint32:
 		u64 = uint64(t)
-		max = math.MaxUint32
+		width = SizeOfU32
 	case uint64:
 		u64 = t
-		max = math.MaxUint64
+		width = SizeOfU64
 	case int8:
 		u64 = uint64(t)
 		sign = true
-		max = math.MaxInt8
-		min = math.MinInt8
+		width = SizeOfS8
 	case int16:
 		u64 = uint64(t)
 		sign = true
-		max = math.MaxInt16
-		min = math.MinInt16
+		width = SizeOfS16
 	case int32:
 		u64 = uint64(t)
 		sign = true
-		max = math.MaxInt32
-		min = math.MinInt32
+		width = SizeOfS32
 	case int64:
 		u64 = uint64(t)
 		sign = true
-		max = math.MaxInt64
-		min = math.MinInt64
+		width = SizeOfS64
 	case int:
 		return fmt.Errorf("unable to store int. Use sized variant")
 	case uint:
 		return fmt.Errorf("unable to store uint. Use sized variant")
+	default:
+		return types.NewCastError(val, "integer")
 	}
 
 	if sign != signed {
@@ -169,32 +166,27 @@ func StoreInt(c *types.CallContext, val any, ptr uint32, nbytes uint32, signed b
 		return fmt.Errorf("invalid integer sign %v for value %v", signCh, val)
 	}
 
-	if !signed && u64 > max {
-		return fmt.Errorf("invalid integer %d exceeds max value %d", val, max)
-	}
-	if signed {
-		s64 := int64(u64)
-		if s64 > int64(max) {
-			return fmt.Errorf("invalid integer %d exceeds max value %d", val, int64(max))
-		}
-		if s64 < min {
-			return fmt.Errorf("invalid integer %d exceeds min value %d", val, min)
-		}
+	if width != nbytes {
+		return fmt.Errorf("invalid integer width %d for value %v, expected %d", width, val, nbytes)
 	}
+	return storeBits(c, u64, ptr, nbytes)
+}
 
+// storeBits stores the low nbytes bytes of bits in little endian order
+func storeBits(c *types.CallContext, bits uint64, ptr uint32, nbytes uint32) error {
 	buf, err := memoryRange(c, ptr, uint64(nbytes))
 	if err != nil {
 		return err
 	}
 	switch nbytes {
 	case SizeOfS8:
-		buf[0] = uint8(u64)
+		buf[0] = uint8(bits)
 	case SizeOfS16:
-		binary.LittleEndian.PutUint16(buf, uint16(u64))
+		binary.LittleEndian.PutUint16(buf, uint16(bits))
 	case SizeOfS32:
-		binary.LittleEndian.PutUint32(buf, uint32(u64))
+		binary.LittleEndian.PutUint32(buf, uint32(bits))
 	case SizeOfS64:
-		binary.LittleEndian.PutUint64(buf, u64)
+		binary.LittleEndian.PutUint64(buf, bits)
 	}
 	return nil
 }
@@ -510,7 +502,7 @@ func StoreVariant(cx *types.CallContext, val any, ptr uint32, v types.Variant) e
 	if err != nil {
 		return err
 	}
-	err = StoreInt(cx, caseIndex, ptr, size, false)
+	err = storeBits(cx, uint64(caseIndex), ptr, size)
 	if err != nil {
 		return err
 	}
@@ -540,7 +532,7 @@ func StoreFlags(c *types.CallContext, val any, ptr uint32, f types.Flags) error
 	if err != nil {
 		return err
 	}
-	return StoreInt(c, i, ptr, size, false)
+	return storeBits(c, i, ptr, size)
 }
 
 func ToMapStringAny(val any) (map[string]any, error) {
-- 
2.43.0


From 3b13272a1c83915156a7aae1f84835a2c3791ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:28 +0000
Subject: [PATCH 16/41] fix: return an error for a host value of the wrong type

Floats, flags, chars and strings panicked instead.
---
 abi/io/lower.go | 10 ++++++++--
 abi/io/store.go | 15 ++++++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/abi/io/lower.go b/abi/io/lower.go
index d0d93cb..22ce98f 100644
--- a/abi/io/lower.go
+++ b/abi/io/lower.go
@@ -170,13 +170,19 @@ func LowerFloat64(v any) ([]values.Value, error) {
 }
 
 func LowerChar(v any) ([]values.Value, error) {
-	r := v.(rune)
+	r, ok := v.(rune)
+	if !ok {
+		return nil, types.NewCastError(v, "rune")
+	}
 	i := values.U32(r)
 	return slice(i), nil
 }
 
 func LowerString(cx *types.CallContext, v any) ([]values.Value, error) {
-	str := v.(string)
+	str, ok := v.(string)
+	if !ok {
+		return nil, types.NewCastError(v, "string")
+	}
 	ptr, packedLength, err := StoreStringIntoRange(cx, str)
 	if err != nil {
 		return nil, err
diff --git a/abi/io/store.go b/abi/io/store.go
index 3c5a312..1904b6c 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -96,12 +96,18 @@ func StoreValidate(c *types.CallContext, t types.ValType, ptr uint32) error {
 
 func StoreFloat(c *types.CallContext, val any, ptr uint32, nbytes uint32) error {
 	if nbytes == SizeOfFloat32 {
-		f := val.(float32)
+		f, ok := val.(float32)
+		if !ok {
+			return types.NewCastError(val, "float32")
+		}
 		f = CanonicalizeFloat32(f)
 		i := math.Float32bits(f)
 		return StoreInt(c, i, ptr, nbytes, false)
 	} else {
-		f := val.(float64)
+		f, ok := val.(float64)
+		if !ok {
+			return types.NewCastError(val, "float64")
+		}
 		f = CanonicalizeFloat64(f)
 		i := math.Float64bits(f)
 		return StoreInt(c, i, ptr, nbytes, false)
@@ -523,7 +529,10 @@ func StoreVariant(cx *types.CallContext, val any, ptr uint32, v types.Variant) e
 }
 
 func StoreFlags(c *types.CallContext, val any, ptr uint32, f types.Flags) error {
-	vMap := val.(map[string]any)
+	vMap, err := ToMapStringAny(val)
+	if err != nil {
+		return err
+	}
 	i, err := PackFlagsIntoInt(vMap, f)
 	if err != nil {
 		return err
-- 
2.43.0


From e8200fb0dacd16c216af6019c3baaf1dd966418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:28 +0000
Subject: [PATCH 17/41] fix: refuse to lower a rune that is no unicode scalar
 value

Surrogates and values past 0x10FFFF were handed to the guest.
---
 abi/io/lower.go | 3 +++
 abi/io/store.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/abi/io/lower.go b/abi/io/lower.go
index 22ce98f..be09583 100644
--- a/abi/io/lower.go
+++ b/abi/io/lower.go
@@ -174,6 +174,9 @@ func LowerChar(v any) ([]values.Value, error) {
 	if !ok {
 		return nil, types.NewCastError(v, "rune")
 	}
+	if _, err := ConvertU32ToRune(uint32(r)); err != nil {
+		return nil, err
+	}
 	i := values.U32(r)
 	return slice(i), nil
 }
diff --git a/abi/io/store.go b/abi/io/store.go
index 1904b6c..c756604 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -52,6 +52,9 @@ func Store(c *types.CallContext, val any, t types.ValType, ptr uint32) error {
 		if !ok {
 			return types.NewCastError(val, "rune")
 		}
+		if _, err := ConvertU32ToRune(uint32(r)); err != nil {
+			return err
+		}
 		return StoreInt(c, uint32(r), ptr, SizeOfChar, false)
 	case types.String:
 		s, ok := val.(string)
-- 
2.43.0


From 48d715613cac5545996a2ce59150cdcb36c58ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:28 +0000
Subject: [PATCH 18/41] fix: store resource handles in guest memory

Load handles own and borrow, Store reported them as unrecognized types.
---
 abi/io/store.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/abi/io/store.go b/abi/io/store.go
index c756604..ec3ca31 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -70,6 +70,18 @@ func Store(c *types.CallContext, val any, t types.ValType, ptr uint32) error {
 		return StoreVariant(c, val, ptr, vt)
 	case types.Flags:
 		return StoreFlags(c, val, ptr, vt)
+	case types.Own:
+		i, err := LowerOwn(c, val, vt)
+		if err != nil {
+			return err
+		}
+		return StoreUInt32(c, i, ptr)
+	case types.Borrow:
+		i, err := LowerBorrow(c, val, vt)
+		if err != nil {
+			return err
+		}
+		return StoreUInt32(c, i, ptr)
 	}
 	return types.TrapWith("Store: unrecognized type %T", t)
 }
-- 
2.43.0


From f22bc89c26a361d0bc0c6c03dc75166f5b5439f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:28 +0000
Subject: [PATCH 19/41] fix: check the error of a discriminant load before
 using its value

---
 abi/io/load.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/abi/io/load.go b/abi/io/load.go
index d86db04..cf3a124 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -338,6 +338,9 @@ func LoadVariant(cx *types.CallContext, ptr uint32, v types.Variant) (map[string
 		return nil, err
 	}
 	caseIndex, err := LoadInt(cx, ptr, dt)
+	if err != nil {
+		return nil, err
+	}
 	var u32CaseIndex uint32 = 0
 	switch dt.(type) {
 	case types.U8:
@@ -350,9 +353,6 @@ func LoadVariant(cx *types.CallContext, ptr uint32, v types.Variant) (map[string
 		// could cause problems if caseIndex is actually a u64
 		u32CaseIndex = uint32(caseIndex.(uint64))
 	}
-	if err != nil {
-		return nil, err
-	}
 
 	discSize, err := Size(dt)
 	if err != nil {
-- 
2.43.0


From 86b809b619292ee1dc8a5f300d596cc994cc597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:28 +0000
Subject: [PATCH 20/41] fix: stop at the end of the cases when following
 refinements

Cases that refine each other in a cycle made the loop run forever.
---
 abi/io/load.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abi/io/load.go b/abi/io/load.go
index cf3a124..b2a43c0 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -392,7 +392,7 @@ func LoadVariant(cx *types.CallContext, ptr uint32, v types.Variant) (map[string
 
 func CaseLabelWithRefinements(c types.Case, cases []types.Case) string {
 	label := c.Label
-	for {
+	for range cases {
 		if c.Refines == nil {
 			break
 		}
-- 
2.43.0


From 378e6758d110ebebf17dac783a1cf8a7e2b66478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:29 +0000
Subject: [PATCH 21/41] fix: keep the bits of flags with more than 64 labels

Flags were packed into one 64-bit integer, so wider flags lost their upper
labels and flags of more than two words were not stored at all.
---
 abi/io/lift.go  | 11 ++++-------
 abi/io/load.go  | 51 +++++++++++++++++++++++--------------------------
 abi/io/lower.go | 12 +++---------
 abi/io/store.go | 36 +++++++++++++++++++++-------------
 4 files changed, 54 insertions(+), 56 deletions(-)

diff --git a/abi/io/lift.go b/abi/io/lift.go
index e4aa2b0..4679281 100644
--- a/abi/io/lift.go
+++ b/abi/io/lift.go
@@ -330,10 +330,8 @@ func LiftFlatVariant(cx *types.CallContext, vi values.ValueIterator, variant typ
 }
 
 func LiftFlatFlags(vi values.ValueIterator, f types.Flags) (any, error) {
-	var flat uint64 = 0
-	shift := 0
-	numFlags := NumI32Flags(f.Labels())
-	for i := 0; i < int(numFlags); i++ {
+	words := make([]uint32, NumI32Flags(f.Labels()))
+	for i := range words {
 		next, err := vi.Next(kind.U32)
 		if err != nil {
 			return nil, err
@@ -342,8 +340,7 @@ func LiftFlatFlags(vi values.ValueIterator, f types.Flags) (any, error) {
 		if !ok {
 			return nil, types.NewCastError(next, "int32")
 		}
-		flat |= (uint64(u32Next) << shift)
-		shift += 32
+		words[i] = u32Next
 	}
-	return UnpackFlagsFromInt(flat, f.Labels()), nil
+	return UnpackFlags(words, f.Labels()), nil
 }
diff --git a/abi/io/load.go b/abi/io/load.go
index b2a43c0..a740854 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -421,40 +421,37 @@ func LoadFlags(cx *types.CallContext, ptr uint32, flags types.Flags) (map[string
 		return nil, err
 	}
 
-	i, err := LoadIntWithSize(cx, ptr, size, false)
-	if err != nil {
-		return nil, err
+	if size < SizeOfU32 {
+		i, err := LoadIntWithSize(cx, ptr, size, false)
+		if err != nil {
+			return nil, err
+		}
+		var word uint32
+		switch u := i.(type) {
+		case uint8:
+			word = uint32(u)
+		case uint16:
+			word = uint32(u)
+		}
+		return UnpackFlags([]uint32{word}, flags.Labels()), nil
 	}
 
-	var ui uint64 = 0
-	switch size {
-	case 1:
-		ui = uint64(i.(uint8))
-	case 2:
-		ui = uint64(i.(uint16))
-	case 4:
-		ui = uint64(i.(uint32))
-	case 8:
-		ui = i.(uint64)
-	}
-	flagMap := map[string]any{}
-	for _, label := range flags.Labels() {
-		v := ui & 1
-		b := false
-		if v > 0 {
-			b = true
+	words := make([]uint32, NumI32Flags(flags.Labels()))
+	for i := range words {
+		words[i], err = LoadUInt32(cx, ptr)
+		if err != nil {
+			return nil, err
 		}
-		flagMap[label] = b
-		ui >>= 1
+		ptr += SizeOfU32
 	}
-	return flagMap, nil
+	return UnpackFlags(words, flags.Labels()), nil
 }
 
-func UnpackFlagsFromInt(i uint64, labels []string) map[string]any {
+// UnpackFlags is the inverse of PackFlags
+func UnpackFlags(words []uint32, labels []string) map[string]any {
 	unpacked := map[string]any{}
-	for _, label := range labels {
-		unpacked[label] = (i&1 == 1)
-		i >>= 1
+	for i, label := range labels {
+		unpacked[label] = words[i/32]>>(i%32)&1 == 1
 	}
 	return unpacked
 }
diff --git a/abi/io/lower.go b/abi/io/lower.go
index be09583..2e975c5 100644
--- a/abi/io/lower.go
+++ b/abi/io/lower.go
@@ -233,19 +233,13 @@ func LowerFlatFlags(cx *types.CallContext, v any, f types.Flags) ([]values.Value
 	if !ok {
 		return nil, types.NewCastError(v, "map[string]any")
 	}
-	packed, err := PackFlagsIntoInt(vMap, f)
+	words, err := PackFlags(vMap, f)
 	if err != nil {
 		return nil, err
 	}
 	var flat []values.Value
-	numFlags := NumI32Flags(f.Labels())
-	for i := 0; i < int(numFlags); i++ {
-		u32 := values.U32(packed & 0xffffffff)
-		flat = append(flat, u32)
-		packed >>= 32
-	}
-	if packed != 0 {
-		return nil, fmt.Errorf("invalid flag value")
+	for _, word := range words {
+		flat = append(flat, values.U32(word))
 	}
 	return flat, nil
 }
diff --git a/abi/io/store.go b/abi/io/store.go
index ec3ca31..b3e6985 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -548,7 +548,7 @@ func StoreFlags(c *types.CallContext, val any, ptr uint32, f types.Flags) error
 	if err != nil {
 		return err
 	}
-	i, err := PackFlagsIntoInt(vMap, f)
+	words, err := PackFlags(vMap, f)
 	if err != nil {
 		return err
 	}
@@ -556,7 +556,21 @@ func StoreFlags(c *types.CallContext, val any, ptr uint32, f types.Flags) error
 	if err != nil {
 		return err
 	}
-	return storeBits(c, i, ptr, size)
+	if size < SizeOfU32 {
+		for _, word := range words {
+			if err := storeBits(c, uint64(word), ptr, size); err != nil {
+				return err
+			}
+		}
+		return nil
+	}
+	for _, word := range words {
+		if err := StoreUInt32(c, word, ptr); err != nil {
+			return err
+		}
+		ptr += SizeOfU32
+	}
+	return nil
 }
 
 func ToMapStringAny(val any) (map[string]any, error) {
@@ -567,22 +581,18 @@ func ToMapStringAny(val any) (map[string]any, error) {
 	return nil, types.NewCastError(val, "map[string]any")
 }
 
-func PackFlagsIntoInt(v map[string]any, flags types.Flags) (uint64, error) {
-	var packed uint64 = 0
-	shift := 0
-	for _, label := range flags.Labels() {
+// PackFlags packs the flags into 32 bit words, the first label is the lowest bit of the first word
+func PackFlags(v map[string]any, flags types.Flags) ([]uint32, error) {
+	words := make([]uint32, NumI32Flags(flags.Labels()))
+	for i, label := range flags.Labels() {
 		val := v[label]
 		b, ok := val.(bool)
 		if !ok {
-			return 0, types.NewCastError(val, "bool")
+			return nil, types.NewCastError(val, "bool")
 		}
-		var i uint64 = 0
 		if b {
-			i = 1
+			words[i/32] |= 1 << (i % 32)
 		}
-		packed |= i << shift
-		shift += 1
 	}
-
-	return packed, nil
+	return words, nil
 }
-- 
2.43.0


From 7bb8d601f7b0a6b87ca3d25d2e6a33038ea48360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:29 +0000
Subject: [PATCH 22/41] fix: lift spilled values in declaration order

The values were collected in the random order of a map.
---
 abi/io/canon_lift.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/abi/io/canon_lift.go b/abi/io/canon_lift.go
index 700c382..19dae8c 100644
--- a/abi/io/canon_lift.go
+++ b/abi/io/canon_lift.go
@@ -2,6 +2,7 @@ package io
 
 import (
 	"fmt"
+	"strconv"
 
 	"github.com/patrickhuber/go-wasm/abi/kind"
 	"github.com/patrickhuber/go-wasm/abi/types"
@@ -136,8 +137,8 @@ func LiftValues(cx *types.CallContext, maxFlat int, vi values.ValueIterator, ts
 	}
 
 	values := []any{}
-	for _, v := range m {
-		values = append(values, v)
+	for i := range ts {
+		values = append(values, m[strconv.Itoa(i)])
 	}
 	return values, nil
 }
-- 
2.43.0


From 775e6e57f5316e8f8c8d7c74af824d76840ecf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:29 +0000
Subject: [PATCH 23/41] fix: store spilled values in guest memory

Lowering only validated the destination and never wrote the values. The
pointer is a core value like every other lowered value.
---
 abi/io/canon_lower.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index fece85e..b49bd3e 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -136,5 +136,8 @@ func LowerValuesToTuple(ts []types.ValType, vs []any, outParam values.ValueItera
 	if _, err := memoryRange(cx, ptr, uint64(size)); err != nil {
 		return nil, err
 	}
-	return []any{ptr}, nil
+	if err := Store(cx, tupleValue, tupleType, ptr); err != nil {
+		return nil, err
+	}
+	return []any{values.U32(ptr)}, nil
 }
-- 
2.43.0


From 1bdf21df3b6f7a97228125e4402430abf9ee5e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:29 +0000
Subject: [PATCH 24/41] fix: refuse to lower a wrong number of values

Extra values panicked and missing ones were dropped.
---
 abi/io/canon_lower.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index b49bd3e..eedc3b8 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -69,6 +69,9 @@ func CanonLower(
 }
 
 func LowerValues(cx *types.CallContext, maxFlat int, vs []any, ts []types.ValType, outParam values.ValueIterator) ([]any, error) {
+	if len(vs) != len(ts) {
+		return nil, types.TrapWith("expected %d values, found %d", len(ts), len(vs))
+	}
 	flatTypes, err := FlattenTypes(ts)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 076b3e5449d88375d488c827555adf931d31460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:29 +0000
Subject: [PATCH 25/41] fix: report an error from ending a lowered call

---
 abi/io/canon_lower.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index eedc3b8..a57f9bf 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -60,7 +60,9 @@ func CanonLower(
 	inst.MayLeave = true
 
 	postReturn()
-	cx.ExitCall()
+	if err := cx.ExitCall(); err != nil {
+		return nil, err
+	}
 
 	if callingImport {
 		inst.MayEnter = true
-- 
2.43.0


From 71247bd300262dd76f44a4e0a2fc67d6091a8f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:30 +0000
Subject: [PATCH 26/41] fix: keep an instance closed while it calls an import

The flag was only ever set back to true, so the import could re-enter.
---
 abi/io/canon_lower.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index a57f9bf..80e6b2e 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -30,6 +30,9 @@ func CanonLower(
 	if !inst.MayEnter {
 		return nil, fmt.Errorf("CanonLower : ComponentInstance MayLeave must be true")
 	}
+	if callingImport {
+		inst.MayEnter = false
+	}
 	args, err := collections.Select(flatArgs, func(source any) (values.Value, error) {
 		result, ok := any(source).(values.Value)
 		if !ok {
-- 
2.43.0


From 5aacf6753d942a11b9cfba63cb03f0618a4eb056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:21 +0000
Subject: [PATCH 27/41] fix: return an error from Peek of the WIT lexer instead
 of panicking

Peek unwrapped the result of the scanner, so a text that does not lex made
it panic. It also moved the read position, so that the read after a failed
peek continued behind the offending character.
---
 wit/lex/lexer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wit/lex/lexer.go b/wit/lex/lexer.go
index 611ea99..514cc92 100644
--- a/wit/lex/lexer.go
+++ b/wit/lex/lexer.go
@@ -71,7 +71,14 @@ func (l *Lexer) Peek() (*token.Token, error) {
 		return l.peekToken, nil
 	}
 
-	l.peekToken = l.next().Unwrap()
+	position := l.position
+	tok, err := l.next().Deconstruct()
+	if err != nil {
+		// nothing was read, so the next read reports the same error
+		l.position = position
+		return nil, err
+	}
+	l.peekToken = tok
 	return l.peekToken, nil
 }
 
-- 
2.43.0


From 799ff4a9af6fe566775935207253dac4e0f72989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:21 +0000
Subject: [PATCH 28/41] fix: return an error from Peek of the WAT lexer instead
 of panicking

Peek unwrapped the result of the scanner, so a text that does not lex made
it panic. It also moved the read position, so that the read after a failed
peek continued behind the offending character.
---
 wat/lex/lexer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index a07b1e3..ec7d6a6 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -71,7 +71,14 @@ func (l *Lexer) Peek() (*token.Token, error) {
 		return l.peekToken, nil
 	}
 
-	l.peekToken = l.next().Unwrap()
+	position := l.position
+	tok, err := l.next().Deconstruct()
+	if err != nil {
+		// nothing was read, so the next read reports the same error
+		l.position = position
+		return nil, err
+	}
+	l.peekToken = tok
 	return l.peekToken, nil
 }
 
-- 
2.43.0


From ed892a506d0fb90991ae36a8a42adaa592e8c89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:38 +0000
Subject: [PATCH 29/41] fix: report text that ends within a string or a block
 comment

The lexer delivered an end-of-stream token that swallowed the unfinished
string or comment, so a text cut off there was accepted. A line comment at
the end of the input is complete and is now delivered as a comment.
---
 wat/lex/lexer.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index ec7d6a6..3bb29b9 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -128,8 +128,8 @@ func (l *Lexer) next() (res types.Result[*token.Token]) {
 				}
 			}
 
-			// process any lexemes in an accepted state and emit a token
-			return l.token(token.EndOfStream) // returned if nothing is matched
+			// the input ends within a string or a comment
+			return result.Error[*token.Token](l.lexerError())
 		}
 
 		var matched []Lexeme
@@ -236,7 +236,10 @@ func whitespace() Rule {
 func lineComment() Rule {
 	start := &Node{}
 	semi := &Node{}
-	semi2 := &Node{}
+	// a line comment also ends with the input
+	semi2 := &Node{
+		Final: true,
+	}
 	newLine := &Node{
 		Final: true,
 	}
-- 
2.43.0


From 2895bc13be87034378bc408785994d05cfc814af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:59 +0000
Subject: [PATCH 30/41] fix: allocate no more than a module binary contains

Counts and lengths in a binary were used to allocate before anything was
read, so a few bytes could request gigabytes and crash the process. Lists
and names now grow with what is actually read.
---
 binary/read.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/binary/read.go b/binary/read.go
index 0748f7e..c6f9efe 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -105,11 +105,8 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 			module.Exports = exports
 		default:
 			// skip unknown sections
-			data := make([]byte, size)
-			if size > 0 {
-				if _, err := io.ReadFull(reader, data); err != nil {
-					return nil, fmt.Errorf("failed to read section %d: %w", sectionID, err)
-				}
+			if _, err := io.CopyN(io.Discard, reader, int64(size)); err != nil {
+				return nil, fmt.Errorf("failed to read section %d: %w", sectionID, err)
 			}
 		}
 	}
@@ -139,13 +136,13 @@ func ReadFuncTypes(size uint32, reader io.Reader) ([]*api.FuncType, error) {
 	if err != nil {
 		return nil, err
 	}
-	types := make([]*api.FuncType, count)
+	types := []*api.FuncType{}
 	for i := uint32(0); i < count; i++ {
 		t, err := ReadType(reader)
 		if err != nil {
 			return nil, err
 		}
-		types[i] = t
+		types = append(types, t)
 	}
 	return types, nil
 }
@@ -188,13 +185,13 @@ func ReadValueTypeVector(reader io.Reader) ([]api.ValType, error) {
 	if err != nil {
 		return nil, err
 	}
-	valueTypes := make([]api.ValType, size)
+	valueTypes := []api.ValType{}
 	for i := uint32(0); i < size; i++ {
 		vt, err := ReadValueType(reader)
 		if err != nil {
 			return nil, err
 		}
-		valueTypes[i] = vt
+		valueTypes = append(valueTypes, vt)
 	}
 	return valueTypes, nil
 }
@@ -224,13 +221,13 @@ func ReadFuncs(size uint32, reader io.Reader) ([]*api.Func, error) {
 		return nil, err
 	}
 
-	funcs := make([]*api.Func, count)
+	funcs := []*api.Func{}
 	for i := uint32(0); i < count; i++ {
 		result, err := ReadFunc(reader)
 		if err != nil {
 			return nil, err
 		}
-		funcs[i] = result
+		funcs = append(funcs, result)
 	}
 
 	return funcs, nil
@@ -252,13 +249,13 @@ func ReadExports(size uint32, reader io.Reader) ([]api.Export, error) {
 		return nil, err
 	}
 
-	exports := make([]api.Export, count)
+	exports := []api.Export{}
 	for i := uint32(0); i < count; i++ {
 		export, err := ReadExport(reader)
 		if err != nil {
 			return nil, err
 		}
-		exports[i] = export
+		exports = append(exports, export)
 	}
 
 	return exports, nil
@@ -304,11 +301,13 @@ func ReadString(reader io.Reader) (string, error) {
 		return "", nil
 	}
 
-	buf := make([]byte, size)
-	err = binary.Read(reader, binary.LittleEndian, buf)
+	buf, err := io.ReadAll(io.LimitReader(reader, int64(size)))
 	if err != nil {
 		return "", err
 	}
+	if len(buf) < int(size) {
+		return "", io.ErrUnexpectedEOF
+	}
 
 	return string(buf), nil
 }
-- 
2.43.0


From ea4cefcd316fe5f8c07e0a9e66ba675ca7d0bcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:00 +0000
Subject: [PATCH 31/41] fix: keep the reading of a section within its declared
 size

The declared sizes of sections and function bodies were read and ignored.
A section cut short took its missing bytes from the section behind it, and
a section with surplus bytes had them read as the next section header.
---
 binary/read.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/binary/read.go b/binary/read.go
index c6f9efe..6525833 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -78,37 +78,41 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 			}
 			return nil, err
 		}
+		section := &io.LimitedReader{R: reader, N: int64(size)}
 		switch sectionID {
 		case TypeSectionID:
-			types, err := ReadFuncTypes(size, reader)
+			types, err := ReadFuncTypes(size, section)
 			if err != nil {
 				return nil, err
 			}
 			module.Types = types
 		case FunctionSectionID:
-			funcs, err := ReadFuncs(size, reader)
+			funcs, err := ReadFuncs(size, section)
 			if err != nil {
 				return nil, err
 			}
 			module.Funcs = funcs
 		case CodeSectionID:
-			err := UpdateFuncsWithCode(module, size, reader)
+			err := UpdateFuncsWithCode(module, size, section)
 			if err != nil {
 				return nil, err
 			}
 
 		case ExportSectionID:
-			exports, err := ReadExports(size, reader)
+			exports, err := ReadExports(size, section)
 			if err != nil {
 				return nil, err
 			}
 			module.Exports = exports
 		default:
 			// skip unknown sections
-			if _, err := io.CopyN(io.Discard, reader, int64(size)); err != nil {
+			if _, err := io.CopyN(io.Discard, section, int64(size)); err != nil {
 				return nil, fmt.Errorf("failed to read section %d: %w", sectionID, err)
 			}
 		}
+		if section.N != 0 {
+			return nil, fmt.Errorf("section %d is longer than its content", sectionID)
+		}
 	}
 	return module, nil
 }
@@ -346,21 +350,25 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 		}
 
 		// function size
-		_, err := ReadLebU128(reader)
+		codeSize, err := ReadLebU128(reader)
 		if err != nil {
 			return err
 		}
 
 		fn := module.Funcs[index]
-		locals, err := ReadValueTypeVector(reader)
+		code := &io.LimitedReader{R: reader, N: int64(codeSize)}
+		locals, err := ReadValueTypeVector(code)
 		if err != nil {
 			return err
 		}
 		fn.Locals = locals
-		body, err := ReadExpression(reader)
+		body, err := ReadExpression(code)
 		if err != nil {
 			return err
 		}
+		if code.N != 0 {
+			return fmt.Errorf("code of function %d is longer than its content", index)
+		}
 		fn.Body = body
 	}
 	return nil
-- 
2.43.0


From 010e0ddf1f7876c26d757aa101382b7775ce6d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:01 +0000
Subject: [PATCH 32/41] fix: read the locals of a function as groups of a count
 and a type

Locals were read as a plain list of value types, so a function with locals
was rejected or its counts were taken for types.
---
 binary/read.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/binary/read.go b/binary/read.go
index 6525833..85bb2c1 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -200,6 +200,35 @@ func ReadValueTypeVector(reader io.Reader) ([]api.ValType, error) {
 	return valueTypes, nil
 }
 
+// maxLocals is the largest number of locals of a function
+const maxLocals = 50000
+
+// ReadLocals reads the locals of a function, groups of a count and a type
+func ReadLocals(reader io.Reader) ([]api.ValType, error) {
+	groups, err := ReadLebU128(reader)
+	if err != nil {
+		return nil, err
+	}
+	locals := []api.ValType{}
+	for i := uint32(0); i < groups; i++ {
+		count, err := ReadLebU128(reader)
+		if err != nil {
+			return nil, err
+		}
+		vt, err := ReadValueType(reader)
+		if err != nil {
+			return nil, err
+		}
+		if int64(count) > int64(maxLocals-len(locals)) {
+			return nil, fmt.Errorf("function has more than %d locals", maxLocals)
+		}
+		for ; count > 0; count-- {
+			locals = append(locals, vt)
+		}
+	}
+	return locals, nil
+}
+
 func ReadValueType(reader io.Reader) (api.ValType, error) {
 	b, err := ReadByte(reader)
 	if err != nil {
@@ -357,7 +386,7 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 
 		fn := module.Funcs[index]
 		code := &io.LimitedReader{R: reader, N: int64(codeSize)}
-		locals, err := ReadValueTypeVector(code)
+		locals, err := ReadLocals(code)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 8fc24cec91e786f3170b6ca907ef112208742b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:17 +0000
Subject: [PATCH 33/41] fix: lex decimal floats and reject trailing characters
 of numeric literals

The part of a decimal float in front of the point was not recognised, an
exponent without a sign was rejected and a number followed by other
characters could be classified as a float.
---
 wat/lex/lexer.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index 3bb29b9..590509c 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -355,7 +355,7 @@ func sign(s string, i int) (int, bool) {
 	if s[i] == '+' || s[i] == '-' {
 		return i + 1, true
 	}
-	return i, false
+	return i, true
 }
 
 func num(s string, i int) (int, bool) {
@@ -373,7 +373,7 @@ func num(s string, i int) (int, bool) {
 		if isDigit(s[i]) {
 			continue
 		}
-		return i, false
+		return i, true
 	}
 	return i, true
 }
@@ -411,7 +411,7 @@ func frac(s string, i int) (int, bool) {
 		if isDigit(s[i]) {
 			continue
 		}
-		return i, false
+		return i, true
 	}
 	return i, true
 }
@@ -466,6 +466,10 @@ func float(s string, i int) (int, bool) {
 		}
 		return n, true
 	}
+	if s[i] != '.' {
+		return i, false
+	}
+	i++ // '.'
 	// p:num '.' q:frac
 	n, ok = frac(s, i)
 	if !ok {
@@ -523,6 +527,9 @@ func hexfloat(s string, i int) (int, bool) {
 		}
 		return n, true
 	}
+	if s[i] != '.' {
+		return i, false
+	}
 	i++ // '.'
 	// p:hexnum '.' q:hexfrac
 	n, ok = hexfrac(s, i)
@@ -568,13 +575,13 @@ func isFloat(s string) bool {
 	}
 	if strings.HasPrefix(s, "nan:0x") {
 		s = strings.TrimPrefix(s, "nan:0x")
-		_, ok := hexnum(s, 0)
-		return ok
+		n, ok := hexnum(s, 0)
+		return ok && n == len(s)
 	}
-	if _, ok := float(s, 0); ok {
+	if n, ok := float(s, 0); ok && n == len(s) {
 		return true
 	}
-	if _, ok := hexfloat(s, 0); ok {
+	if n, ok := hexfloat(s, 0); ok && n == len(s) {
 		return true
 	}
 	return false
@@ -588,7 +595,7 @@ func isInteger(s string) bool {
 	if s[0] == '+' || s[0] == '-' {
 		s = s[1:]
 	}
-	if _, ok := num(s, 0); ok {
+	if i, ok := num(s, 0); ok && i == len(s) {
 		return true
 	}
 	if strings.HasPrefix(s, "0x") {
-- 
2.43.0


From 157b53af717ca38833d2740c938c93c1f3e0b04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:19 +0000
Subject: [PATCH 34/41] fix: read integer literals at their width

An i64 literal was limited to 32 bits, a leading zero made a decimal
literal octal and a plus sign was rejected.
---
 wat/parse/parser.go | 74 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 64 insertions(+), 10 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 7b8f746..44d8231 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -778,11 +778,7 @@ func parseInt32(lexer *lex.Lexer) (res types.Result[int32]) {
 	if tok.Type != token.Integer {
 		return result.Errorf[int32]("expected integer %w", parseError(tok))
 	}
-	if strings.HasPrefix(tok.Capture, "-") {
-		i, err := strconv.ParseInt(tok.Capture, 0, 32)
-		return result.New(int32(i), err)
-	}
-	i, err := strconv.ParseUint(tok.Capture, 0, 32)
+	i, err := parseInteger(tok.Capture, 32)
 	return result.New(int32(i), err)
 }
 
@@ -797,12 +793,70 @@ func parseInt64(lexer *lex.Lexer) (res types.Result[int64]) {
 	if tok.Type != token.Integer {
 		return result.Errorf[int64]("expected integer %w", parseError(tok))
 	}
-	if strings.HasPrefix(tok.Capture, "-") {
-		i, err := strconv.ParseInt(tok.Capture, 0, 32)
-		return result.New(int64(i), err)
+	i, err := parseInteger(tok.Capture, 64)
+	return result.New(i, err)
+}
+
+// parseInteger parses an integer literal with an optional sign. A literal
+// without minus may use all bits, it is the two's complement of the result.
+func parseInteger(s string, bits int) (int64, error) {
+	if strings.HasPrefix(s, "-") {
+		u, err := parseNatural(s[1:], bits)
+		if err == nil && u > uint64(1)<<(bits-1) {
+			err = fmt.Errorf("integer '%s' is out of range", s)
+		}
+		return -int64(u), err
+	}
+	u, err := parseNatural(strings.TrimPrefix(s, "+"), bits)
+	return int64(u), err
+}
+
+// parseNatural parses an unsigned decimal or hexadecimal literal of at most
+// the given number of bits.
+func parseNatural(s string, bits int) (uint64, error) {
+	max := uint64(math.MaxUint64) >> (64 - bits)
+	if strings.HasPrefix(s, "0x") {
+		return parseDigits(s[2:], 16, max)
+	}
+	return parseDigits(s, 10, max)
+}
+
+// parseDigits parses a number that is not larger than max. A single underscore
+// may separate two digits.
+func parseDigits(s string, base uint64, max uint64) (uint64, error) {
+	value := uint64(0)
+	digit := false // the previous character is a digit
+	for i := 0; i < len(s); i++ {
+		if s[i] == '_' && digit {
+			digit = false
+			continue
+		}
+		d := digitValue(s[i])
+		if d >= base {
+			return 0, fmt.Errorf("malformed number '%s'", s)
+		}
+		if value > (max-d)/base {
+			return 0, fmt.Errorf("number '%s' is out of range", s)
+		}
+		value = value*base + d
+		digit = true
+	}
+	if !digit {
+		return 0, fmt.Errorf("malformed number '%s'", s)
+	}
+	return value, nil
+}
+
+func digitValue(ch byte) uint64 {
+	switch {
+	case '0' <= ch && ch <= '9':
+		return uint64(ch - '0')
+	case 'a' <= ch && ch <= 'f':
+		return uint64(ch-'a') + 10
+	case 'A' <= ch && ch <= 'F':
+		return uint64(ch-'A') + 10
 	}
-	i, err := strconv.ParseUint(tok.Capture, 0, 32)
-	return result.New(int64(i), err)
+	return math.MaxUint64
 }
 
 func peekFloat(lexer *lex.Lexer) (res types.Result[bool]) {
-- 
2.43.0


From 1b192e57af0d7599eb910926ad23a48cb6b18c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:20 +0000
Subject: [PATCH 35/41] fix: reject indices and limits that are negative or out
 of range

They were truncated to 32 bits without an error.
---
 wat/parse/parser.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 44d8231..21ea900 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -311,15 +311,15 @@ func parseMemory(lexer *lex.Lexer) (res types.Result[ast.Memory]) {
 
 func parseLimits(lexer *lex.Lexer) (res types.Result[ast.Limits]) {
 	defer handle.Error(&res)
-	min := parseInt32(lexer).Unwrap()
+	min := parseUint32(lexer).Unwrap()
 	max := option.None[uint32]()
 	tok := peek(lexer).Unwrap()
 	if tok.Type == token.Integer {
-		n := parseInt32(lexer).Unwrap()
-		max = option.Some(uint32(n))
+		n := parseUint32(lexer).Unwrap()
+		max = option.Some(n)
 	}
 	return result.Ok(ast.Limits{
-		Min: uint32(min),
+		Min: min,
 		Max: max,
 	})
 }
@@ -544,7 +544,7 @@ func parseIndex(lexer *lex.Lexer) (res types.Result[ast.Index]) {
 	var index ast.Index
 	switch tok.Type {
 	case token.Integer:
-		i := result.New(strconv.Atoi(tok.Capture)).Unwrap()
+		i := result.New(parseNatural(tok.Capture, 32)).Unwrap()
 		index = &ast.RawIndex{
 			Index: uint32(i),
 		}
@@ -782,6 +782,17 @@ func parseInt32(lexer *lex.Lexer) (res types.Result[int32]) {
 	return result.New(int32(i), err)
 }
 
+func parseUint32(lexer *lex.Lexer) (res types.Result[uint32]) {
+	defer handle.Error(&res)
+
+	tok := next(lexer).Unwrap()
+	if tok.Type != token.Integer {
+		return result.Errorf[uint32]("expected integer %w", parseError(tok))
+	}
+	u, err := parseNatural(tok.Capture, 32)
+	return result.New(uint32(u), err)
+}
+
 func ParseInt64(lexer *lex.Lexer) (int64, error) {
 	return parseInt64(lexer).Deconstruct()
 }
-- 
2.43.0


From 647c9d65ca10f6ed08d126d8f55584142c904309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:31:17 +0000
Subject: [PATCH 36/41] fix: read float literals at their width

An f64 literal was rounded to 32 bits, a plain nan became an infinity,
integers were read as two's complement with their sign of zero lost, and
underscores, plus signs, nan payloads out of range and hexadecimal
literals without an exponent were mishandled.
---
 wast/parse/parser.go | 34 ++----------------
 wat/parse/parser.go  | 85 +++++++++++++++++++++++++++++++-------------
 2 files changed, 62 insertions(+), 57 deletions(-)

diff --git a/wast/parse/parser.go b/wast/parse/parser.go
index 401936e..ea40b1f 100644
--- a/wast/parse/parser.go
+++ b/wast/parse/parser.go
@@ -291,26 +291,12 @@ func parseConst(lexer *lex.Lexer) (res types.Result[ast.Const]) {
 			Value: parseInt64(lexer).Unwrap(),
 		}
 	case "f32.const":
-		// some times constants can be ambiguous like '0'
-		var f32 float32
-		if peekFloat(lexer).Unwrap() {
-			f32 = parseFloat32(lexer).Unwrap()
-		} else {
-			f32 = float32(parseInt32(lexer).Unwrap())
-		}
 		c = ast.F32Const{
-			Value: f32,
+			Value: parseFloat32(lexer).Unwrap(),
 		}
 	case "f64.const":
-		// some times constants can be ambiguous like '0'
-		var f64 float64
-		if peekFloat(lexer).Unwrap() {
-			f64 = parseFloat64(lexer).Unwrap()
-		} else if peekInteger(lexer).Unwrap() {
-			f64 = float64(parseInt64(lexer).Unwrap())
-		}
 		c = ast.F64Const{
-			Value: f64,
+			Value: parseFloat64(lexer).Unwrap(),
 		}
 	case "ref.null":
 	case "ref.extern":
@@ -342,14 +328,6 @@ func parseResults(lexer *lex.Lexer) (res types.Result[[]ast.Result]) {
 	return result.Ok(results)
 }
 
-func peekFloat(lexer *lex.Lexer) (res types.Result[bool]) {
-	tok, err := watparse.Peek(lexer)
-	if err != nil {
-		return result.New(false, err)
-	}
-	return result.Ok(tok.Type == token.Float)
-}
-
 func parseFloat32(lexer *lex.Lexer) (res types.Result[float32]) {
 	return result.New(watparse.ParseFloat32(lexer))
 }
@@ -441,14 +419,6 @@ func parseString(lexer *lex.Lexer) types.Result[string] {
 	return result.New(str, err)
 }
 
-func peekInteger(lexer *lex.Lexer) types.Result[bool] {
-	i, err := watparse.Peek(lexer)
-	if err != nil {
-		return result.New(false, err)
-	}
-	return result.Ok(i.Type == token.Integer)
-}
-
 func parseInt32(lexer *lex.Lexer) types.Result[int32] {
 	i, err := watparse.ParseInt32(lexer)
 	return result.New(i, err)
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 21ea900..7537142 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -428,23 +428,12 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 			Value: parseInt64(lexer).Unwrap(),
 		}
 	case "f32.const":
-		var f32 float32
-		if peekFloat(lexer).Unwrap() {
-			f32 = parseFloat32(lexer).Unwrap()
-		} else {
-			f32 = float32(parseInt32(lexer).Unwrap())
-		}
+		f32 := parseFloat32(lexer).Unwrap()
 		inst = ast.F32Const{
 			Value: f32,
 		}
 	case "f64.const":
-		// some times constants can be ambiguous like '0'
-		var f64 float64
-		if peekFloat(lexer).Unwrap() {
-			f64 = parseFloat64(lexer).Unwrap()
-		} else {
-			f64 = float64(parseInt64(lexer).Unwrap())
-		}
+		f64 := parseFloat64(lexer).Unwrap()
 		inst = ast.F64Const{
 			Value: f64,
 		}
@@ -870,12 +859,6 @@ func digitValue(ch byte) uint64 {
 	return math.MaxUint64
 }
 
-func peekFloat(lexer *lex.Lexer) (res types.Result[bool]) {
-	defer handle.Error(&res)
-	tok := peek(lexer).Unwrap()
-	return result.Ok(tok.Type == token.Float)
-}
-
 func ParseFloat32(lexer *lex.Lexer) (float32, error) {
 	return parseFloat32(lexer).Deconstruct()
 }
@@ -883,7 +866,8 @@ func ParseFloat32(lexer *lex.Lexer) (float32, error) {
 func parseFloat32(lexer *lex.Lexer) (res types.Result[float32]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
-	if tok.Type != token.Float {
+	// constants can be ambiguous like '0'
+	if tok.Type != token.Float && tok.Type != token.Integer {
 		return result.Errorf[float32]("expected float %w", parseError(tok))
 	}
 	negative := false
@@ -892,10 +876,12 @@ func parseFloat32(lexer *lex.Lexer) (res types.Result[float32]) {
 		negative = true
 		capture = capture[1:]
 	}
+	capture = strings.TrimPrefix(capture, "+")
 	if strings.HasPrefix(capture, "nan") {
 		capture = capture[3:]
 
-		var u32 uint64
+		// quiet nan
+		var u32 uint64 = 1 << 22
 		if strings.HasPrefix(capture, ":") {
 			capture = capture[1:]
 
@@ -911,7 +897,7 @@ func parseFloat32(lexer *lex.Lexer) (res types.Result[float32]) {
 					var val uint32 = 0b_1111_1111_1100_0000_0000_0000_0000_0000
 					return result.Ok(math.Float32frombits(val))
 				}
-				u32, err = strconv.ParseUint(capture, 0, 32)
+				u32, err = parsePayload(capture, 23)
 				if err != nil {
 					return result.Error[float32](err)
 				}
@@ -927,7 +913,7 @@ func parseFloat32(lexer *lex.Lexer) (res types.Result[float32]) {
 		return result.Ok(math.Float32frombits(uint32(u32)))
 	}
 	// not nan, so parse normally
-	f, err := strconv.ParseFloat(tok.Capture, 32)
+	f, err := parseFloat(tok.Capture, 32)
 	return result.New(float32(f), err)
 }
 
@@ -938,13 +924,62 @@ func ParseFloat64(lexer *lex.Lexer) (float64, error) {
 func parseFloat64(lexer *lex.Lexer) (res types.Result[float64]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
-	if tok.Type != token.Float {
+	// constants can be ambiguous like '0'
+	if tok.Type != token.Float && tok.Type != token.Integer {
 		return result.Errorf[float64]("expected float %w", parseError(tok))
 	}
-	f, err := strconv.ParseFloat(tok.Capture, 32)
+	capture := strings.TrimLeft(tok.Capture, "+-")
+	if strings.HasPrefix(capture, "nan") {
+		// quiet nan, also for nan:canonical and nan:arithmetic
+		var u64 uint64 = 1 << 51
+		if strings.HasPrefix(capture, "nan:0x") {
+			var err error
+			u64, err = parsePayload(capture[4:], 52)
+			if err != nil {
+				return result.Error[float64](err)
+			}
+		}
+		u64 |= 0x7ff << 52
+		if strings.HasPrefix(tok.Capture, "-") {
+			u64 |= 1 << 63
+		}
+		return result.Ok(math.Float64frombits(u64))
+	}
+	f, err := parseFloat(tok.Capture, 64)
 	return result.New(f, err)
 }
 
+// parsePayload parses the payload of a nan, which is not zero
+func parsePayload(s string, bits int) (uint64, error) {
+	u, err := parseNatural(s, bits)
+	if err == nil && u == 0 {
+		err = fmt.Errorf("nan payload '%s' is out of range", s)
+	}
+	return u, err
+}
+
+// parseFloat parses a literal that is not a nan. A single underscore may
+// separate two digits and the exponent is optional.
+func parseFloat(s string, bits int) (float64, error) {
+	base := uint64(10)
+	if strings.Contains(s, "0x") {
+		base = 16
+	}
+	for i := 0; i < len(s); i++ {
+		if s[i] != '_' {
+			continue
+		}
+		if i == 0 || i == len(s)-1 || digitValue(s[i-1]) >= base || digitValue(s[i+1]) >= base {
+			return 0, fmt.Errorf("malformed number '%s'", s)
+		}
+	}
+	text := strings.ReplaceAll(s, "_", "")
+	if base == 16 && !strings.ContainsAny(text, "pP") {
+		text += "p0"
+	}
+	return strconv.ParseFloat(text, bits)
+}
+
 func eat(lexer *lex.Lexer, ty token.Type) (res types.Result[bool]) {
 	defer handle.Error(&res)
 
-- 
2.43.0


From 32efe722ae40da019fd7747425837b46ed151848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:31:17 +0000
Subject: [PATCH 37/41] fix: return an error from ParseString instead of
 panicking

The functions that unwrap tokens without handling the error passed the
panic on to their callers.
---
 wast/parse/parser.go | 1 +
 wat/parse/parser.go  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/wast/parse/parser.go b/wast/parse/parser.go
index ea40b1f..35bfccc 100644
--- a/wast/parse/parser.go
+++ b/wast/parse/parser.go
@@ -268,6 +268,7 @@ func parseConsts(lexer *lex.Lexer) (res types.Result[[]ast.Const]) {
 }
 
 func parseConst(lexer *lex.Lexer) (res types.Result[ast.Const]) {
+	defer handle.Error(&res)
 	/*
 		const:
 		  ( <num_type>.const <num> )                 ;; number value
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 7537142..ac49c0d 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -728,6 +728,7 @@ func parseBlockType(lexer *lex.Lexer) (res types.Result[ast.BlockType]) {
 }
 
 func parseOptionalId(lexer *lex.Lexer) (res types.Result[types.Option[string]]) {
+	defer handle.Error(&res)
 	tok := peek(lexer).Unwrap()
 	if tok.Type == token.Id {
 		id := parseId(lexer).Unwrap()
@@ -737,6 +738,7 @@ func parseOptionalId(lexer *lex.Lexer) (res types.Result[types.Option[string]])
 }
 
 func parseId(lexer *lex.Lexer) (res types.Result[string]) {
+	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
 	if tok.Type != token.Id {
 		return result.Errorf[string]("%w", parseError(tok))
@@ -749,6 +751,7 @@ func ParseString(lexer *lex.Lexer) (string, error) {
 }
 
 func parseString(lexer *lex.Lexer) (res types.Result[string]) {
+	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
 	if tok.Type != token.String {
 		return result.Errorf[string]("%w", parseError(tok))
-- 
2.43.0


From 3f2559b1fcefa2e5c649f4287d90d8a498ccb730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:31:37 +0000
Subject: [PATCH 38/41] fix: reject unknown reference types, function type
 clauses and actions

They were dropped without an error.
---
 wast/parse/parser.go | 2 ++
 wat/parse/parser.go  | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/wast/parse/parser.go b/wast/parse/parser.go
index 35bfccc..52c1dfe 100644
--- a/wast/parse/parser.go
+++ b/wast/parse/parser.go
@@ -224,6 +224,8 @@ func parseAction(lexer *lex.Lexer) (res types.Result[ast.Action]) {
 		action = parseInvoke(lexer).Unwrap()
 	case "get":
 		action = parseGet(lexer).Unwrap()
+	default:
+		return result.Errorf[ast.Action]("%w : expected 'invoke' or 'get' but found '%s'", parseError(tok), tok.Capture)
 	}
 
 	expect(lexer, token.CloseParen).Unwrap()
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index ac49c0d..a7bdc5f 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -204,6 +204,8 @@ func parseFuncType(lexer *lex.Lexer) (res types.Result[ast.FuncType]) {
 		case "result":
 			result := parseResult(lexer).Unwrap()
 			results = append(results, *result)
+		default:
+			return result.Errorf[ast.FuncType]("%w : expected 'param' or 'result' but found '%s'", parseError(tok), tok.Capture)
 		}
 		expect(lexer, token.CloseParen).Unwrap()
 	}
@@ -261,6 +263,8 @@ func parseTableType(lexer *lex.Lexer) (res types.Result[ast.TableType]) {
 		refType = ast.ExternRef{}
 	case "funcref":
 		refType = ast.FuncRef{}
+	default:
+		return result.Errorf[ast.TableType]("expected 'externref' or 'funcref': %w", parseError(tok))
 	}
 
 	return result.Ok(ast.TableType{
-- 
2.43.0


From e25ee8bc8eca397b1ab08142ab8e5b801d3bd0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:31:37 +0000
Subject: [PATCH 39/41] fix: reject text after the end of a decoded module

It was ignored.
---
 wat/decoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wat/decoder.go b/wat/decoder.go
index 5a47e43..7437b75 100644
--- a/wat/decoder.go
+++ b/wat/decoder.go
@@ -8,6 +8,7 @@ import (
 	"github.com/patrickhuber/go-wasm/wat/ast"
 	"github.com/patrickhuber/go-wasm/wat/lex"
 	"github.com/patrickhuber/go-wasm/wat/parse"
+	"github.com/patrickhuber/go-wasm/wat/token"
 )
 
 type Decoder interface {
@@ -34,6 +35,13 @@ func (d *decoder) Decode(reader io.Reader) (api.Directive, error) {
 	if err != nil {
 		return nil, err
 	}
+	tok, err := parse.Peek(lexer)
+	if err != nil {
+		return nil, err
+	}
+	if tok.Type != token.EndOfStream {
+		return nil, fmt.Errorf("unexpected text after the module at position %d", tok.Position)
+	}
 	return d.directive(directive)
 }
 
-- 
2.43.0


From c90062b7942a4fdfe232c5b60a44f1ae8a57d28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:31:51 +0000
Subject: [PATCH 40/41] fix: reject tokens that cannot start a top level item

They became empty items, among them the semicolon behind a use.
---
 wit/parse/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 4451f84..92ac87d 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -44,6 +44,8 @@ func parseAst(lexer *lex.Lexer) (res types.Result[*ast.Ast]) {
 			item.World = parseWorld(lexer).Unwrap()
 		case token.Interface:
 			item.Interface = parseInterface(lexer).Unwrap()
+		default:
+			return result.Errorf[*ast.Ast]("%w : found '%s' but expected (use, world, interface)", parseError(tok), tok.Capture)
 		}
 		n.Items = append(n.Items, *item)
 
@@ -106,6 +108,8 @@ func parseTopLevelUse(lexer *lex.Lexer) (res types.Result[*ast.TopLevelUse]) {
 	} else {
 		topLevelUse.As = option.None[string]()
 	}
+	// ;
+	expect(lexer, token.Semicolon).Unwrap()
 	return result.Ok(topLevelUse)
 }
 
-- 
2.43.0


From d59f090efb2a872525ee987a9c4d2e224c35378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:31:51 +0000
Subject: [PATCH 41/41] fix: reject tokens that are no type, namespace or
 resource body

Any token was taken as the name of a type or a package namespace.
---
 wit/parse/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 92ac87d..ea26faa 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -59,7 +59,7 @@ func parsePackageDeclaration(lexer *lex.Lexer) (res types.Result[*ast.PackageDec
 
 	// id
 	packageName := &ast.PackageDeclaration{}
-	packageName.Namespace = next(lexer).Unwrap().Capture
+	packageName.Namespace = parseId(lexer).Unwrap()
 
 	// ':'
 	expect(lexer, token.Colon).Unwrap()
@@ -215,6 +215,8 @@ func parseResource(lexer *lex.Lexer) (res types.Result[ast.Resource]) {
 			tok = peek(lexer).Unwrap()
 		}
 		expect(lexer, token.CloseBrace).Unwrap()
+	default:
+		return result.Errorf[ast.Resource]("%w : found '%s' but expected ';' or '{'", parseError(tok), tok.Capture)
 	}
 
 	return result.Ok(ast.Resource{
@@ -513,8 +515,12 @@ func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
 			Id: parseId(lexer).Unwrap(),
 		}
 		expect(lexer, token.Greater).Unwrap()
-	default:
+	case token.Id, token.ExplicitId,
+		token.U8, token.U16, token.U64, token.S8, token.S16, token.S32, token.S64,
+		token.Char, token.Bool:
 		ty = &ast.Id{Value: name.Capture}
+	default:
+		return result.Errorf[ast.Type]("%w : found '%s' but expected a type", parseError(name), name.Capture)
 	}
 
 	return result.Ok(ty)
-- 
2.43.0

