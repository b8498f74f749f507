From 2991848bc700309ad65502fac036629db3dfe49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 01/44] fix: keep the state of all frames intact across
 recursive values

The frames between a recursive frame and its container lost their destination
and offset while recursing, and the recursion stack was left populated by calls
that failed or panicked.
---
 jscandec.go | 222 ++++++++++++++++++++++++----------------------------
 1 file changed, 101 insertions(+), 121 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index f69ede0..ab65ddb 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -510,6 +510,78 @@ type Decoder[S []byte | string, T any] struct {
 	parseUint    func(s S) (uint, error)
 	parseFloat32 func(s S) (float32, error)
 	parseFloat64 func(s S) (float64, error)
+
+	// recursion lists the recursive frames that are currently being recursed into,
+	// the innermost is last.
+	recursion []uint32
+
+	// recursionState keeps the state of the frames following the recursive frame
+	// for every entry of recursion.
+	recursionState []frameState
+}
+
+// frameState is the part of a stackFrame that's overwritten at runtime.
+type frameState struct {
+	Dest   unsafe.Pointer
+	Offset uintptr
+	Len    int
+}
+
+// pushRecursion saves the state of the recursive frame of container
+// and of all frames following it.
+func (d *Decoder[S, T]) pushRecursion(container uint32) {
+	r := uint32(d.stackExp[container].RecurFrame)
+	d.stackExp[r].RecursionStack = append(
+		d.stackExp[r].RecursionStack, recursionStackFrame{
+			Dest:           d.stackExp[r].Dest,
+			Offset:         d.stackExp[r].Offset,
+			ContainerFrame: container,
+		},
+	)
+	for i := r + 1; i < uint32(len(d.stackExp)); i++ {
+		d.recursionState = append(d.recursionState, frameState{
+			Dest:   d.stackExp[i].Dest,
+			Offset: d.stackExp[i].Offset,
+			Len:    d.stackExp[i].Len,
+		})
+	}
+	d.recursion = append(d.recursion, r)
+}
+
+// popRecursion restores the state saved by the last call to pushRecursion
+// and returns the index of its container frame.
+func (d *Decoder[S, T]) popRecursion() (container uint32) {
+	top := len(d.recursion) - 1
+	r := d.recursion[top]
+	d.recursion = d.recursion[:top]
+
+	recurStack := d.stackExp[r].RecursionStack
+	top = len(recurStack) - 1
+	d.stackExp[r].Dest = recurStack[top].Dest
+	d.stackExp[r].Offset = recurStack[top].Offset
+	container = recurStack[top].ContainerFrame
+	recurStack[top].Dest = nil
+	d.stackExp[r].RecursionStack = recurStack[:top]
+
+	base := len(d.recursionState) - (len(d.stackExp) - int(r) - 1)
+	saved := d.recursionState[base:]
+	for i := range saved {
+		f := &d.stackExp[int(r)+1+i]
+		f.Dest, f.Offset, f.Len = saved[i].Dest, saved[i].Offset, saved[i].Len
+		saved[i].Dest = nil
+	}
+	d.recursionState = d.recursionState[:base]
+	return container
+}
+
+// recursionContainer returns the index of the container frame the frame at si
+// is currently recursed into through, or noParentFrame if it isn't.
+func (d *Decoder[S, T]) recursionContainer(si uint32) uint32 {
+	if l := len(d.recursion); l < 1 || d.recursion[l-1] != si {
+		return noParentFrame
+	}
+	recurStack := d.stackExp[si].RecursionStack
+	return recurStack[len(recurStack)-1].ContainerFrame
 }
 
 // NewDecoder creates a new reusable decoder instance.
@@ -716,6 +788,10 @@ func (d *Decoder[S, T]) Decode(
 	s S, t *T, options *DecodeOptions,
 ) (errIndex int, err error) {
 	defer func() {
+		for len(d.recursion) > 0 {
+			// Not all recursions were completed because of an error or a panic.
+			d.popRecursion()
+		}
 		for i := range d.stackExp {
 			d.stackExp[i].Dest = nil
 		}
@@ -1412,11 +1488,7 @@ func (d *Decoder[S, T]) Decode(
 						}
 						*(*sliceHeader)(p) = emptySlice
 						ti += 2
-						if len(d.stackExp[recursiveFrame].RecursionStack) < 1 {
-							goto ON_VAL_END
-						}
-						si = uint32(recursiveFrame)
-						continue
+						goto ON_VAL_END
 					}
 
 					var dp unsafe.Pointer
@@ -1443,14 +1515,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					ti++
 
-					// Push recursion stack
-					d.stackExp[recursiveFrame].RecursionStack = append(
-						d.stackExp[recursiveFrame].RecursionStack, recursionStackFrame{
-							Dest:           d.stackExp[recursiveFrame].Dest,
-							Offset:         d.stackExp[recursiveFrame].Offset,
-							ContainerFrame: si,
-						},
-					)
+					d.pushRecursion(si)
 
 					si = uint32(recursiveFrame)
 					d.stackExp[si].Dest = dp
@@ -2120,16 +2185,8 @@ func (d *Decoder[S, T]) Decode(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
 
-					siPointer := si
+					d.pushRecursion(si)
 					si = uint32(d.stackExp[si].RecurFrame)
-					// Push recursion stack
-					d.stackExp[si].RecursionStack = append(
-						d.stackExp[si].RecursionStack, recursionStackFrame{
-							Dest:           d.stackExp[si].Dest,
-							Offset:         d.stackExp[si].Offset,
-							ContainerFrame: siPointer,
-						},
-					)
 
 					var dp unsafe.Pointer
 					if *(*unsafe.Pointer)(p) != nil {
@@ -2139,10 +2196,11 @@ func (d *Decoder[S, T]) Decode(
 						*(*unsafe.Pointer)(p) = dp
 					}
 					d.stackExp[si].Dest = dp
+					d.stackExp[si].Offset = 0
 
 					if tokens[ti].Elements == 0 {
 						ti += 2
-						goto ON_RECUR_OBJ_END
+						goto ON_VAL_END
 					}
 					// Point all fields to the struct, the offsets are already
 					// set statically during decoder init time.
@@ -2152,15 +2210,6 @@ func (d *Decoder[S, T]) Decode(
 					ti++
 
 				case ExpectTypeMapRecur:
-					// Push recursion stack
-					recursiveFrame := d.stackExp[si].RecurFrame
-					d.stackExp[recursiveFrame].RecursionStack = append(
-						d.stackExp[recursiveFrame].RecursionStack, recursionStackFrame{
-							Dest:           d.stackExp[recursiveFrame].Dest,
-							Offset:         d.stackExp[recursiveFrame].Offset,
-							ContainerFrame: si,
-						},
-					)
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
@@ -2174,6 +2223,7 @@ func (d *Decoder[S, T]) Decode(
 						ti += 2
 						goto ON_VAL_END
 					}
+					d.pushRecursion(si)
 					ti++
 
 				case ExpectTypeMap:
@@ -2247,7 +2297,7 @@ func (d *Decoder[S, T]) Decode(
 					)
 					if tokens[ti].Elements == 0 {
 						ti += 2
-						goto ON_RECUR_OBJ_END
+						goto ON_VAL_END
 					}
 					// Point all fields to the struct, the offsets are already
 					// set statically during decoder init time.
@@ -2512,6 +2562,7 @@ func (d *Decoder[S, T]) Decode(
 					if d.stackExp[si].Type == ExpectTypeMapRecur {
 						recursiveFrame := d.stackExp[si].RecurFrame
 						si = uint32(recursiveFrame)
+						d.stackExp[si].Offset = 0
 					} else {
 						// For non-recursive maps the value frame is guaranteed to
 						// be at an offset of 2 relative to the map frame index.
@@ -2534,107 +2585,36 @@ func (d *Decoder[S, T]) Decode(
 
 			case jscan.TokenTypeObjectEnd:
 				ti++
-				switch d.stackExp[si].Type {
-				case ExpectTypeStruct:
-					goto ON_VAL_END
-				case ExpectTypeMapRecur:
-					recursiveFrame := d.stackExp[si].RecurFrame
-					recurStack := d.stackExp[recursiveFrame].RecursionStack
-					if len(recurStack) < 1 {
-						// In map of the root recursive struct
-						si = uint32(d.stackExp[si].RecurFrame)
-						goto ON_VAL_END
-					}
-
-					// Reset to parent context
-					topIndex := len(recurStack) - 1
-					resetTo := d.stackExp[recursiveFrame].RecursionStack[topIndex]
-					d.stackExp[recursiveFrame].Dest = resetTo.Dest
-					d.stackExp[recursiveFrame].Offset = resetTo.Offset
-					fields := d.stackExp[recursiveFrame].Fields
-					for i := range fields {
-						d.stackExp[fields[i].FrameIndex].Dest = resetTo.Dest
-					}
-
-					// Pop recursion stack
-					recurStack[topIndex].Dest = nil
-					d.stackExp[recursiveFrame].RecursionStack = recurStack[:topIndex]
-					si = d.stackExp[si].ParentFrameIndex
-					continue
+				if d.stackExp[si].Type == ExpectTypeMapRecur {
+					si = d.popRecursion()
 				}
-				goto ON_RECUR_OBJ_END
+				goto ON_VAL_END
 
 			case jscan.TokenTypeArrayEnd:
 				ti++
-				if d.stackExp[si].Type == ExpectTypeStructRecur {
-					recurStack := d.stackExp[si].RecursionStack
-					if len(recurStack) < 1 {
-						// In slice of the root recursive struct
-						goto ON_VAL_END
-					}
-
-					// Reset to parent context
-					topIndex := len(recurStack) - 1
-					resetTo := d.stackExp[si].RecursionStack[topIndex]
-					d.stackExp[si].Dest = resetTo.Dest
-					d.stackExp[si].Offset = resetTo.Offset
-					fields := d.stackExp[si].Fields
-					for i := range fields {
-						d.stackExp[fields[i].FrameIndex].Dest = resetTo.Dest
-					}
-
-					// Pop recursion stack
-					recurStack[topIndex].Dest = nil
-					d.stackExp[si].RecursionStack = recurStack[:topIndex]
-					si = d.stackExp[resetTo.ContainerFrame].ParentFrameIndex
-					continue
+				if d.recursionContainer(si) != noParentFrame {
+					si = d.popRecursion()
+				} else {
+					si--
 				}
-				si--
 				goto ON_VAL_END
 			}
 			continue
 
-		ON_RECUR_OBJ_END:
-			if l := len(d.stackExp[si].RecursionStack); l > 0 {
-				top := d.stackExp[si].RecursionStack[l-1]
-				switch d.stackExp[top.ContainerFrame].Type {
+		ON_VAL_END:
+			if siCon := d.recursionContainer(si); siCon != noParentFrame {
+				switch d.stackExp[siCon].Type {
 				case ExpectTypeSliceRecur:
 					d.stackExp[si].Offset += d.stackExp[si].Size
-				case ExpectTypePtrRecur:
-					recurStack := d.stackExp[si].RecursionStack
-					if len(recurStack) < 1 {
-						// In map of the root recursive struct
-						goto ON_VAL_END
-					}
-
-					// Reset to parent context
-					topIndex := len(recurStack) - 1
-					d.stackExp[si].Dest = top.Dest
-					d.stackExp[si].Offset = top.Offset
-					fields := d.stackExp[si].Fields
-					for i := range fields {
-						d.stackExp[fields[i].FrameIndex].Dest = top.Dest
-					}
-
-					// Pop recursion stack
-					recurStack[topIndex].Dest = nil
-					d.stackExp[si].RecursionStack = recurStack[:topIndex]
-					si = d.stackExp[top.ContainerFrame].ParentFrameIndex
-					continue
-
 				case ExpectTypeMapRecur:
-					si = top.ContainerFrame
-					// Set the top stack destination so the next key gets assigned to it.
-					// Otherwise we'll be in the destination of the previously assigned
-					// key, which will point to an empty map.
-					d.stackExp[si].Dest = top.Dest
+					// Reset the map frame for the next key.
+					si = d.popRecursion()
+					d.pushRecursion(si)
+				case ExpectTypePtrRecur:
+					si = d.popRecursion()
+					goto ON_VAL_END
 				}
-				continue
-			}
-			// Here we expect to fallthrough directly to ON_VAL_END!
-
-		ON_VAL_END:
-			if siCon := d.stackExp[si].ParentFrameIndex; siCon != noParentFrame {
+			} else if siCon := d.stackExp[si].ParentFrameIndex; siCon != noParentFrame {
 				switch d.stackExp[siCon].Type {
 				case ExpectTypePtr:
 					si--
-- 
2.43.0


From 2e8922d1b0b5db58b70643fd479674213addbe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 02/44] fix: end the pointer frame together with the value it
 points to

---
 jscandec.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index ab65ddb..87aa43e 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2617,7 +2617,9 @@ func (d *Decoder[S, T]) Decode(
 			} else if siCon := d.stackExp[si].ParentFrameIndex; siCon != noParentFrame {
 				switch d.stackExp[siCon].Type {
 				case ExpectTypePtr:
+					// The end of the value is also the end of the pointer to it.
 					si--
+					goto ON_VAL_END
 				case ExpectTypeArray:
 					d.stackExp[si].Len++
 					if d.stackExp[si].Len >= d.stackExp[si].Cap {
-- 
2.43.0


From bd383f65ca8087487ffc0d5c06e7250e02bba850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 03/44] fix: skip composite values of unknown fields as a whole

---
 jscandec.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 87aa43e..1813585 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2367,22 +2367,15 @@ func (d *Decoder[S, T]) Decode(
 							}
 							// Skip value, go to the next key
 							ti++
-							for l := 0; ; ti++ {
-								switch tokens[ti].Type {
-								case jscan.TokenTypeKey:
-									if l < 1 {
-										continue SCAN_KEYVALS
-									}
-								case jscan.TokenTypeObject:
-									l++
-								case jscan.TokenTypeObjectEnd:
-									l--
-									if l < 1 {
-										ti--
-										break SCAN_KEYVALS
-									}
-								}
+							switch tokens[ti].Type {
+							case jscan.TokenTypeObject, jscan.TokenTypeArray:
+								ti = tokens[ti].End
+							}
+							if tokens[ti+1].Type == jscan.TokenTypeObjectEnd {
+								break SCAN_KEYVALS
 							}
+							ti++
+							continue SCAN_KEYVALS
 						}
 						si = frameIndex
 						if si == noParentFrame {
-- 
2.43.0


From 7c3ace7942544dbabd7007d3381d34b02ff3e0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 04/44] fix: reject empty and malformed numbers in strings and
 map keys

---
 internal/jsonnum/jsonnum.go |  5 +++
 jscandec.go                 | 76 +++++++++++++++++--------------------
 2 files changed, 40 insertions(+), 41 deletions(-)

diff --git a/internal/jsonnum/jsonnum.go b/internal/jsonnum/jsonnum.go
index aa8f823..ec84e32 100644
--- a/internal/jsonnum/jsonnum.go
+++ b/internal/jsonnum/jsonnum.go
@@ -13,6 +13,11 @@ const (
 func ReadNumber[S ~string | ~[]byte](s S) (trailing S, rc ReturnCode) {
 	var i int
 
+	if len(s) < 1 {
+		// Expected at least one digit
+		return s, ReturnCodeErr
+	}
+
 	if s[0] == '-' {
 		// Signed
 		s = s[1:]
diff --git a/jscandec.go b/jscandec.go
index 1813585..8901791 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1127,7 +1127,7 @@ func (d *Decoder[S, T]) Decode(
 
 				case ExpectTypeNumber:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					if _, rc := jsonnum.ReadNumber(tv); rc == jsonnum.ReturnCodeErr {
+					if t, rc := jsonnum.ReadNumber(tv); rc == jsonnum.ReturnCodeErr || len(t) > 0 {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1161,8 +1161,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*float64)(p) = v
 				case ExpectTypeIntString:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger {
+					if !isInteger(tv) {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1174,8 +1173,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*int)(p) = v
 				case ExpectTypeInt8String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger {
+					if !isInteger(tv) {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1187,8 +1185,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*int8)(p) = v
 				case ExpectTypeInt16String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger {
+					if !isInteger(tv) {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1200,8 +1197,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*int16)(p) = v
 				case ExpectTypeInt32String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger {
+					if !isInteger(tv) {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1213,8 +1209,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*int32)(p) = v
 				case ExpectTypeInt64String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger {
+					if !isInteger(tv) {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1226,8 +1221,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*int64)(p) = v
 				case ExpectTypeUintString:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
+					if !isInteger(tv) || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1239,8 +1233,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint)(p) = v
 				case ExpectTypeUint8String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
+					if !isInteger(tv) || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1252,8 +1245,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint8)(p) = v
 				case ExpectTypeUint16String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
+					if !isInteger(tv) || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1265,8 +1257,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint16)(p) = v
 				case ExpectTypeUint32String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
+					if !isInteger(tv) || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1278,8 +1269,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint32)(p) = v
 				case ExpectTypeUint64String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
+					if !isInteger(tv) || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -2422,8 +2412,7 @@ func (d *Decoder[S, T]) Decode(
 						}
 
 					case ExpectTypeInt:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
+						if !isInteger(key) {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2435,8 +2424,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt8:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
+						if !isInteger(key) {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2448,8 +2436,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt16:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
+						if !isInteger(key) {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2461,8 +2448,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt32:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
+						if !isInteger(key) {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2474,8 +2460,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt64:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
+						if !isInteger(key) {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2487,8 +2472,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
+						if !isInteger(key) || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2500,8 +2484,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint8:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
+						if !isInteger(key) || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2513,8 +2496,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint16:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
+						if !isInteger(key) || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2526,8 +2508,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint32:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
+						if !isInteger(key) || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2539,8 +2520,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint64:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
+						if !isInteger(key) || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2720,6 +2700,20 @@ var (
 	zeroFloat64 float64
 )
 
+// isInteger returns true if s consists of decimal digits only,
+// optionally preceded by a minus sign.
+func isInteger[S []byte | string](s S) bool {
+	if len(s) > 0 && s[0] == '-' {
+		s = s[1:]
+	}
+	for i := 0; i < len(s); i++ {
+		if s[i] < '0' || s[i] > '9' {
+			return false
+		}
+	}
+	return len(s) > 0
+}
+
 // fieldFrameIndexByName returns the frame index of the field identified by name
 // or -1 if no field is found. Exact matches are prioritized over
 // case-insensitive matches.
-- 
2.43.0


From 1437356d0da70c45c1cca23bb8627c18735c1f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 05/44] fix: detect signed integers that overflow more than
 once around

---
 internal/atoi/atoi.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/atoi/atoi.go b/internal/atoi/atoi.go
index 8ffc771..616994c 100644
--- a/internal/atoi/atoi.go
+++ b/internal/atoi/atoi.go
@@ -34,6 +34,9 @@ func I8[S []byte | string](s S) (n int8, overflow bool) {
 		case 3:
 			return -(d(1)*1e1 + d(2)), false
 		case 4: // This case can overflow
+			if s[1]-'0' > 1 {
+				return 0, true
+			}
 			if n = -(d(1)*1e2 + d(2)*1e1 + d(3)); n > 0 {
 				return 0, true
 			}
@@ -46,6 +49,9 @@ func I8[S []byte | string](s S) (n int8, overflow bool) {
 		case 2:
 			return d(0)*1e1 + d(1), false
 		case 3: // This case can overflow
+			if s[0]-'0' > 1 {
+				return 0, true
+			}
 			if n = d(0)*1e2 + d(1)*1e1 + d(2); n < 0 {
 				return 0, true
 			}
@@ -97,6 +103,9 @@ func I16[S []byte | string](s S) (n int16, overflow bool) {
 		case 5:
 			return -(d(1)*1e3 + d(2)*1e2 + d(3)*1e1 + d(4)), false
 		case 6: // This case can overflow
+			if s[1]-'0' > 3 {
+				return 0, true
+			}
 			n = -(d(1)*1e4 + d(2)*1e3 + d(3)*1e2 + d(4)*1e1 + d(5))
 			if n > 0 {
 				return 0, true
@@ -114,6 +123,9 @@ func I16[S []byte | string](s S) (n int16, overflow bool) {
 		case 4:
 			return d(0)*1e3 + d(1)*1e2 + d(2)*1e1 + d(3), false
 		case 5: // This case can overflow
+			if s[0]-'0' > 3 {
+				return 0, true
+			}
 			n = d(0)*1e4 + d(1)*1e3 + d(2)*1e2 + d(3)*1e1 + d(4)
 			if n < 0 {
 				return 0, true
@@ -214,6 +226,9 @@ func I32[S []byte | string](s S) (n int32, overflow bool) {
 				d(7)*1e2 + d(8)*1e1 +
 				d(9)), false
 		case 11: // This case can overflow
+			if s[1]-'0' > 2 {
+				return 0, true
+			}
 			n = d(1)*1e9 + d(2)*1e8 +
 				d(3)*1e7 + d(4)*1e6 +
 				d(5)*1e5 + d(6)*1e4 +
@@ -258,6 +273,9 @@ func I32[S []byte | string](s S) (n int32, overflow bool) {
 				d(6)*1e2 + d(7)*1e1 +
 				d(8), false
 		case 10: // This case can overflow
+			if s[0]-'0' > 2 {
+				return 0, true
+			}
 			n = d(0)*1e9 + d(1)*1e8 +
 				d(2)*1e7 + d(3)*1e6 +
 				d(4)*1e5 + d(5)*1e4 +
-- 
2.43.0


From cd02cb61ec3a5723aa89e9628e0284f7605210b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 06/44] fix: decode escaped surrogate pairs

---
 internal/unescape/unescape.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/unescape/unescape.go b/internal/unescape/unescape.go
index c967696..42da71e 100644
--- a/internal/unescape/unescape.go
+++ b/internal/unescape/unescape.go
@@ -45,6 +45,19 @@ func Valid[S []byte | string, O []byte | string](str S) O {
 				buf = append(buf, byte(r))
 			case r <= rune2Max:
 				buf = append(buf, t2|byte(r>>6), tx|byte(r)&maskx)
+			case surrogateMin <= r && r < surrogateLow &&
+				len(s) >= 12 && s[6] == '\\' && s[7] == 'u':
+				low := uint32(lut[s[8]]<<12 + lut[s[9]]<<8 + lut[s[10]]<<4 + lut[s[11]])
+				if low < surrogateLow || low > surrogateMax {
+					buf = append(buf, RuneError...) // Error placeholder rune
+					break
+				}
+				// Surrogate pair
+				r = ((r-surrogateMin)<<10 | (low - surrogateLow)) + surrogateSelf
+				buf = append(buf,
+					t4|byte(r>>18), tx|byte(r>>12)&maskx,
+					tx|byte(r>>6)&maskx, tx|byte(r)&maskx)
+				s = s[6:]
 			case r > maxRune, surrogateMin <= r && r <= surrogateMax:
 				buf = append(buf, RuneError...) // Error placeholder rune
 			default:
@@ -130,6 +143,10 @@ const (
 	// Code points in the surrogate range are not valid for UTF-8.
 	surrogateMin, surrogateMax = 0xD800, 0xDFFF
 
+	// surrogateLow is the first code point of the low surrogates and
+	// surrogateSelf is the first code point encoded as a surrogate pair.
+	surrogateLow, surrogateSelf = 0xDC00, 0x10000
+
 	tx, t2, t3, t4               = 0b10000000, 0b11000000, 0b11100000, 0b11110000
 	maskx                        = 0b00111111
 	rune1Max, rune2Max, rune3Max = 1<<7 - 1, 1<<11 - 1, 1<<16 - 1
-- 
2.43.0


From 55b10af90f4dc0f4ee3e9630d086489b6fd8214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 07/44] fix: detect recursion only in types a type is nested in

---
 append_type_stack.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 575e0d1..1f1dcb2 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -10,6 +10,14 @@ import (
 // appendTypeToStack will recursively flat-append stack frames recursing into t.
 func appendTypeToStack[S []byte | string](
 	stack []stackFrame[S], t reflect.Type, options *InitOptions,
+) ([]stackFrame[S], error) {
+	return appendTypeToStackWithin(stack, t, options, nil)
+}
+
+// appendTypeToStackWithin is like appendTypeToStack with parents listing the indexes
+// of all struct frames t is nested in.
+func appendTypeToStackWithin[S []byte | string](
+	stack []stackFrame[S], t reflect.Type, options *InitOptions, parents []int,
 ) ([]stackFrame[S], error) {
 	if t == nil {
 		return append(stack, stackFrame[S]{
@@ -66,7 +74,7 @@ func appendTypeToStack[S []byte | string](
 		})
 		newAtIndex := len(stack)
 		var err error
-		if stack, err = appendTypeToStack(stack, t.Elem(), options); err != nil {
+		if stack, err = appendTypeToStackWithin(stack, t.Elem(), options, parents); err != nil {
 			return nil, err
 		}
 
@@ -87,7 +95,7 @@ func appendTypeToStack[S []byte | string](
 				}), nil
 			}
 			// Check for recursion
-			for i := range stack {
+			for _, i := range parents {
 				if stack[i].RType == elem {
 					// Recursion of type stack[i] detected.
 					// Link recursive frame to the recursion frame.
@@ -214,7 +222,7 @@ func appendTypeToStack[S []byte | string](
 		})
 		newAtIndex := len(stack)
 		var err error
-		if stack, err = appendTypeToStack(stack, t.Elem(), options); err != nil {
+		if stack, err = appendTypeToStackWithin(stack, t.Elem(), options, parents); err != nil {
 			return nil, err
 		}
 
@@ -226,7 +234,7 @@ func appendTypeToStack[S []byte | string](
 		elem := t.Elem()
 		if elem.Kind() == reflect.Struct && elem.Size() > 0 {
 			// Check for recursion
-			for i := range stack {
+			for _, i := range parents {
 				if stack[i].RType == elem {
 					// Recursion of type stack[i] detected.
 					// Link recursive frame to the recursion frame.
@@ -244,7 +252,7 @@ func appendTypeToStack[S []byte | string](
 					{
 						newAtIndex := len(stack)
 						var err error
-						stack, err = appendTypeToStack(stack, t.Key(), options)
+						stack, err = appendTypeToStackWithin(stack, t.Key(), options, parents)
 						if err != nil {
 							return nil, err
 						}
@@ -278,7 +286,7 @@ func appendTypeToStack[S []byte | string](
 		{
 			newAtIndex := len(stack)
 			var err error
-			if stack, err = appendTypeToStack(stack, t.Key(), options); err != nil {
+			if stack, err = appendTypeToStackWithin(stack, t.Key(), options, parents); err != nil {
 				return nil, err
 			}
 			// Link map key to the map frame.
@@ -287,7 +295,7 @@ func appendTypeToStack[S []byte | string](
 		{
 			newAtIndex := len(stack)
 			var err error
-			if stack, err = appendTypeToStack(stack, elem, options); err != nil {
+			if stack, err = appendTypeToStackWithin(stack, elem, options, parents); err != nil {
 				return nil, err
 			}
 			// Link map value to the map frame.
@@ -313,6 +321,7 @@ func appendTypeToStack[S []byte | string](
 			Fields:           make([]fieldStackFrame, 0, numFields),
 			ParentFrameIndex: noParentFrame,
 		})
+		parents = append(parents[:len(parents):len(parents)], int(parentIndex))
 
 		for i := 0; i < numFields; i++ {
 			f := t.Field(i)
@@ -337,7 +346,7 @@ func appendTypeToStack[S []byte | string](
 
 			newAtIndex := uint32(len(stack))
 			var err error
-			stack, err = appendTypeToStack(stack, f.Type, options)
+			stack, err = appendTypeToStackWithin(stack, f.Type, options, parents)
 			if err != nil {
 				return nil, err
 			}
@@ -507,7 +516,7 @@ func appendTypeToStack[S []byte | string](
 		elem := t.Elem()
 		if elem.Kind() == reflect.Struct && elem.Size() > 0 {
 			// Check for recursion
-			for i := range stack {
+			for _, i := range parents {
 				if stack[i].RType == elem {
 					// Recursion of type stack[i] detected.
 					// Link recursive frame to the recursion frame.
@@ -533,7 +542,7 @@ func appendTypeToStack[S []byte | string](
 		newAtIndex := len(stack)
 		var err error
 
-		if stack, err = appendTypeToStack(stack, elem, options); err != nil {
+		if stack, err = appendTypeToStackWithin(stack, elem, options, parents); err != nil {
 			return nil, err
 		}
 		stack[newAtIndex].ParentFrameIndex = parentIndex
-- 
2.43.0


From 72b19037ed71d545d9bc77304f5a57973d7871de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 08/44] fix: support pointers to types that implement an
 unmarshaler by pointer

---
 jscandec.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 8901791..c1de889 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1074,9 +1074,9 @@ func (d *Decoder[S, T]) Decode(
 
 				switch d.stackExp[si].Type {
 				case ExpectTypeTextUnmarshaler:
-					u := reflect.NewAt(
+					u := unmarshalerAt(
 						d.stackExp[si].RType, p,
-					).Interface().(encoding.TextUnmarshaler)
+					).(encoding.TextUnmarshaler)
 					tb := unescape.Valid[S, []byte](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
@@ -1370,7 +1370,14 @@ func (d *Decoder[S, T]) Decode(
 				case ExpectTypeSliceUint64:
 					*(*[]uint64)(p) = nil
 				case ExpectTypeJSONUnmarshaler:
-					goto ON_JSON_UNMARSHALER
+					if d.stackExp[si].RType.Kind() != reflect.Pointer {
+						goto ON_JSON_UNMARSHALER
+					}
+					*(*unsafe.Pointer)(p) = nil
+				case ExpectTypeTextUnmarshaler:
+					if d.stackExp[si].RType.Kind() == reflect.Pointer {
+						*(*unsafe.Pointer)(p) = nil
+					}
 				}
 				ti++
 				goto ON_VAL_END
@@ -2658,7 +2665,7 @@ func (d *Decoder[S, T]) Decode(
 					raw = s[tokens[ti].Index:tokens[ti].End]
 					ti++
 				}
-				u := reflect.NewAt(d.stackExp[si].RType, p).Interface().(json.Unmarshaler)
+				u := unmarshalerAt(d.stackExp[si].RType, p).(json.Unmarshaler)
 				if errUnmarshal := u.UnmarshalJSON([]byte(raw)); errUnmarshal != nil {
 					errIndex, err = tkIndex, errUnmarshal
 					return true
@@ -2700,6 +2707,20 @@ var (
 	zeroFloat64 float64
 )
 
+// unmarshalerAt returns the unmarshaler of type t at p. If t is a pointer type then
+// p refers to the pointer and the value it points to is allocated if it's nil.
+func unmarshalerAt(t reflect.Type, p unsafe.Pointer) any {
+	v := reflect.NewAt(t, p)
+	if t.Kind() != reflect.Pointer {
+		return v.Interface()
+	}
+	v = v.Elem()
+	if v.IsNil() {
+		v.Set(reflect.New(t.Elem()))
+	}
+	return v.Interface()
+}
+
 // isInteger returns true if s consists of decimal digits only,
 // optionally preceded by a minus sign.
 func isInteger[S []byte | string](s S) bool {
-- 
2.43.0


From 05d991239df3ee62c268c08a60a4f16e10c2cefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 09/44] fix: return an error for maps with unsupported key
 types

---
 jscandec.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index c1de889..1dee3fb 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2537,6 +2537,10 @@ func (d *Decoder[S, T]) Decode(
 							return true
 						}
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
+
+					default: // Unsupported key type
+						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
+						return true
 					}
 
 					if d.stackExp[si].Type == ExpectTypeMapRecur {
-- 
2.43.0


From 7f71a7c1176a0662ddbe0a68ade8f797134f8ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 10/44] fix: honor unmarshalers implemented by slice elements,
 map keys and map values

---
 append_type_stack.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 1f1dcb2..98bb89a 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -84,7 +84,11 @@ func appendTypeToStackWithin[S []byte | string](
 
 	case reflect.Slice:
 		elem := t.Elem()
-		switch elem.Kind() {
+		elemKind := elem.Kind()
+		if implementsUnmarshaler(elem) {
+			elemKind = reflect.Invalid // The elements are not decoded by kind
+		}
+		switch elemKind {
 		case reflect.Struct:
 			if elem.Size() < 1 {
 				return append(stack, stackFrame[S]{
@@ -264,7 +268,9 @@ func appendTypeToStackWithin[S []byte | string](
 			}
 		}
 
-		if t.Key().Kind() == reflect.String && t.Elem().Kind() == reflect.String {
+		if t.Key().Kind() == reflect.String && elem.Kind() == reflect.String &&
+			!implementsUnmarshaler(t.Key()) && !implementsUnmarshaler(elem) &&
+			elem != tpNumber {
 			return append(stack, stackFrame[S]{
 				Type:             ExpectTypeMapStringString,
 				Typ:              getTyp(t),
@@ -553,6 +559,11 @@ func appendTypeToStackWithin[S []byte | string](
 	return stack, nil
 }
 
+func implementsUnmarshaler(t reflect.Type) bool {
+	return determineJSONUnmarshalerSupport(t) != interfaceSupportNone ||
+		determineTextUnmarshalerSupport(t) != interfaceSupportNone
+}
+
 func getTyp(t reflect.Type) *typ {
 	return (*typ)(((*emptyInterface)(unsafe.Pointer(&t))).ptr)
 }
-- 
2.43.0


From 7363005d76eb8a6b68367c468f1c1ad3f6d03742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 11/44] fix: decode nothing from a document that's followed by
 anything but whitespace

---
 jscandec.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index 1dee3fb..29e4248 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -805,6 +805,12 @@ func (d *Decoder[S, T]) Decode(
 	d.stackExp[0].Dest = unsafe.Pointer(t)
 
 	errTok := d.tokenizer.Tokenize(s, func(tokens []jscan.Token[S]) (exit bool) {
+		if !endsWith(s, tokens) {
+			// The tokenizer will return the error after this callback returns,
+			// make sure nothing is decoded from an invalid document.
+			return false
+		}
+
 		// ti stands for the token index and points at the current token
 		for ti := 0; ti < len(tokens); {
 			switch tokens[ti].Type {
@@ -2711,6 +2717,24 @@ var (
 	zeroFloat64 float64
 )
 
+// endsWith returns true if tokens is followed by nothing but whitespace in s.
+func endsWith[S []byte | string](s S, tokens []jscan.Token[S]) bool {
+	last := tokens[len(tokens)-1]
+	end := last.End
+	switch last.Type {
+	case jscan.TokenTypeObjectEnd, jscan.TokenTypeArrayEnd:
+		end = last.Index + 1
+	}
+	for ; end < len(s); end++ {
+		switch s[end] {
+		case ' ', '\t', '\n', '\r':
+		default:
+			return false
+		}
+	}
+	return true
+}
+
 // unmarshalerAt returns the unmarshaler of type t at p. If t is a pointer type then
 // p refers to the pointer and the value it points to is allocated if it's nil.
 func unmarshalerAt(t reflect.Type, p unsafe.Pointer) any {
-- 
2.43.0


From 0b566b1008531d3358dddba8622749733e09884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 12/44] fix: skip the end of objects decoded into empty structs

---
 jscandec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jscandec.go b/jscandec.go
index 29e4248..3bdcaeb 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2168,7 +2168,7 @@ func (d *Decoder[S, T]) Decode(
 			case jscan.TokenTypeObject:
 				switch d.stackExp[si].Type {
 				case ExpectTypeEmptyStruct:
-					ti = tokens[ti].End // Skip object value
+					ti = tokens[ti].End + 1 // Skip object value
 					goto ON_VAL_END
 				case ExpectTypeAny:
 					v, tail, errDecode := decodeAny(s, tokens[ti:])
-- 
2.43.0


From cd3a9f09efedf98fe0a33768bfd544d27bdc3447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 13/44] fix: reject elements of empty struct slices that are
 neither an object nor null

---
 jscandec.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index 3bdcaeb..a2fcc23 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1528,6 +1528,16 @@ func (d *Decoder[S, T]) Decode(
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
+					for i := ti + 1; i < tokens[ti].End; i++ {
+						switch tokens[i].Type {
+						case jscan.TokenTypeNull:
+						case jscan.TokenTypeObject:
+							i = tokens[i].End
+						default:
+							errIndex, err = tokens[i].Index, ErrUnexpectedValue
+							return true
+						}
+					}
 					*(*sliceHeader)(p) = sliceHeader{
 						Data: emptyStructAddr,
 						Len:  uintptr(tokens[ti].Elements),
-- 
2.43.0


From b7f0247035c6b64675ca00ba4f84569937f73d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 14/44] fix: leave the destination of non-nillable types
 unchanged on null

---
 jscandec.go | 201 +++++++++++++++++++++++++---------------------------
 1 file changed, 98 insertions(+), 103 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index a2fcc23..2e6fc30 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1317,36 +1317,6 @@ func (d *Decoder[S, T]) Decode(
 					// Skip
 				case ExpectTypePtr, ExpectTypePtrRecur:
 					*(*unsafe.Pointer)(p) = nil
-				case ExpectTypeBool:
-					*(*bool)(p) = zeroBool
-				case ExpectTypeStr:
-					*(*string)(p) = zeroStr
-				case ExpectTypeNumber:
-					*(*Number)(p) = ""
-				case ExpectTypeFloat32:
-					*(*float32)(p) = zeroFloat32
-				case ExpectTypeFloat64:
-					*(*float64)(p) = zeroFloat64
-				case ExpectTypeInt:
-					*(*int)(p) = zeroInt
-				case ExpectTypeInt8:
-					*(*int8)(p) = zeroInt8
-				case ExpectTypeInt16:
-					*(*int16)(p) = zeroInt16
-				case ExpectTypeInt32:
-					*(*int32)(p) = zeroInt32
-				case ExpectTypeInt64:
-					*(*int64)(p) = zeroInt64
-				case ExpectTypeUint:
-					*(*uint)(p) = zeroUint
-				case ExpectTypeUint8:
-					*(*uint8)(p) = zeroUint8
-				case ExpectTypeUint16:
-					*(*uint16)(p) = zeroUint16
-				case ExpectTypeUint32:
-					*(*uint32)(p) = zeroUint32
-				case ExpectTypeUint64:
-					*(*uint64)(p) = zeroUint64
 				case ExpectTypeSliceBool:
 					*(*[]bool)(p) = nil
 				case ExpectTypeSliceString:
@@ -1558,18 +1528,21 @@ func (d *Decoder[S, T]) Decode(
 						goto ON_VAL_END
 					}
 
-					sl := *(*[]bool)(p)
-					if cap(sl) < elems {
+					old := *(*[]bool)(p)
+					sl := old
+					if cap(old) < elems {
 						sl = make([]bool, elems)
 					} else {
-						sl = sl[:elems]
+						sl = old[:elems]
 					}
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = false
+							if i < len(old) {
+								sl[i] = old[i] // Keep
+							}
 						case jscan.TokenTypeTrue:
 							sl[i] = true
 						case jscan.TokenTypeFalse:
@@ -1595,18 +1568,21 @@ func (d *Decoder[S, T]) Decode(
 						goto ON_VAL_END
 					}
 
-					sl := *(*[]string)(p)
-					if cap(sl) < elems {
+					old := *(*[]string)(p)
+					sl := old
+					if cap(old) < elems {
 						sl = make([]string, elems)
 					} else {
-						sl = sl[:elems]
+						sl = old[:elems]
 					}
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = ""
+							if i < len(old) {
+								sl[i] = old[i] // Keep
+							}
 						case jscan.TokenTypeString:
 							sl[i] = unescape.Valid[S, string](
 								s[tokens[i].Index+1 : tokens[i].End-1],
@@ -1632,18 +1608,21 @@ func (d *Decoder[S, T]) Decode(
 						goto ON_VAL_END
 					}
 
-					sl := *(*[]int)(p)
-					if cap(sl) < elems {
+					old := *(*[]int)(p)
+					sl := old
+					if cap(old) < elems {
 						sl = make([]int, elems)
 					} else {
-						sl = sl[:elems]
+						sl = old[:elems]
 					}
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							if i < len(old) {
+								sl[i] = old[i] // Keep
+							}
 						case jscan.TokenTypeInteger:
 							v, errParse := d.parseInt(s[tokens[i].Index:tokens[i].End])
 							if errParse != nil {
@@ -1672,18 +1651,21 @@ func (d *Decoder[S, T]) Decode(
 						goto ON_VAL_END
 					}
 
-					sl := *(*[]int8)(p)
-					if cap(sl) < elems {
+					old := *(*[]int8)(p)
+					sl := old
+					if cap(old) < elems {
 						sl = make([]int8, elems)
 					} else {
-						sl = sl[:elems]
+						sl = old[:elems]
 					}
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							if i < len(old) {
+								sl[i] = old[i] // Keep
+							}
 						case jscan.TokenTypeInteger:
 							v, overflow := atoi.I8(s[tokens[i].Index:tokens[i].End])
 							if overflow {
@@ -1712,18 +1694,21 @@ func (d *Decoder[S, T]) Decode(
 						goto ON_VAL_END
 					}
 
-					sl := *(*[]int16)(p)
-					if cap(sl) < elems {
+					old := *(*[]int16)(p)
+					sl := old
+					if cap(old) < elems {
 						sl = make([]int16, elems)
 					} else {
-						sl = sl[:elems]
+						sl = old[:elems]
 					}
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							if i < len(old) {
+								sl[i] = old[i] // Keep
+							}
 						case jscan.TokenTypeInteger:
 							v, overflow := atoi.I16(s[tokens[i].Index:tokens[i].End])
 							if overflow {
@@ -1752,18 +1737,21 @@ func (d *Decoder[S, T]) Decode(
 						goto ON_VAL_END
 					}
 
-					sl := *(*[]int32)(p)
-					if cap(sl) < elems {
+					old := *(*[]int32)(p)
+					sl := old
+					if cap(old) < elems {
 						sl = make([]int32, elems)
 					} else {
-						sl = sl[:elems]
+						sl = old[:elems]
 					}
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							if i < len(old) {
+								sl[i] = old[i] // Keep
+							}
 						case jscan.TokenTypeInteger:
 							v, overflow := atoi.I32(s[tokens[i].Index:tokens[i].End])
 							if overflow {
@@ -1792,18 +1780,21 @@ func (d *Decoder[S, T]) Decode(
 						goto ON_VAL_END
 					}
 
-					sl := *(*[]int64)(p)
-					if cap(sl) < elems {
+					old := *(*[]int64)(p)
+					sl := old
+					if cap(old) < elems {
 						sl = make([]int64, elems)
 					} else {
-						sl = sl[:elems]
+						sl = old[:elems]
 					}
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							if i < len(old) {
+								sl[i] = old[i] // Keep
+							}
 						case jscan.TokenTypeInteger:
 							v, overflow := atoi.I64(s[tokens[i].Index:tokens[i].End])
 							if overflow {
@@ -1832,18 +1823,21 @@ func (d *Decoder[S, T]) Decode(
 						goto ON_VAL_END
 					}
 
-					sl := *(*[]uint)(p)
-					if cap(sl) < elems {
+					old := *(*[]uint)(p)
+					sl := old
+					if cap(old) < elems {
 						sl = make([]uint, elems)
 					} else {
-						sl = sl[:elems]
+						sl = old[:elems]
 					}
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							if i < len(old) {
+								sl[i] = old[i] // Keep
+							}
 						case jscan.TokenTypeInteger:
 							if s[tokens[i].Index] == '-' {
 								errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -1876,18 +1870,21 @@ func (d *Decoder[S, T]) Decode(
 						goto ON_VAL_END
 					}
 
-					sl := *(*[]uint8)(p)
-					if cap(sl) < elems {
+					old := *(*[]uint8)(p)
+					sl := old
+					if cap(old) < elems {
 						sl = make([]uint8, elems)
 					} else {
-						sl = sl[:elems]
+						sl = old[:elems]
 					}
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							if i < len(old) {
+								sl[i] = old[i] // Keep
+							}
 						case jscan.TokenTypeInteger:
 							if s[tokens[i].Index] == '-' {
 								errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -1920,18 +1917,21 @@ func (d *Decoder[S, T]) Decode(
 						goto ON_VAL_END
 					}
 
-					sl := *(*[]uint16)(p)
-					if cap(sl) < elems {
+					old := *(*[]uint16)(p)
+					sl := old
+					if cap(old) < elems {
 						sl = make([]uint16, elems)
 					} else {
-						sl = sl[:elems]
+						sl = old[:elems]
 					}
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							if i < len(old) {
+								sl[i] = old[i] // Keep
+							}
 						case jscan.TokenTypeInteger:
 							if s[tokens[i].Index] == '-' {
 								errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -1964,18 +1964,21 @@ func (d *Decoder[S, T]) Decode(
 						goto ON_VAL_END
 					}
 
-					sl := *(*[]uint32)(p)
-					if cap(sl) < elems {
+					old := *(*[]uint32)(p)
+					sl := old
+					if cap(old) < elems {
 						sl = make([]uint32, elems)
 					} else {
-						sl = sl[:elems]
+						sl = old[:elems]
 					}
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							if i < len(old) {
+								sl[i] = old[i] // Keep
+							}
 						case jscan.TokenTypeInteger:
 							if s[tokens[i].Index] == '-' {
 								errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -2008,18 +2011,21 @@ func (d *Decoder[S, T]) Decode(
 						goto ON_VAL_END
 					}
 
-					sl := *(*[]uint64)(p)
-					if cap(sl) < elems {
+					old := *(*[]uint64)(p)
+					sl := old
+					if cap(old) < elems {
 						sl = make([]uint64, elems)
 					} else {
-						sl = sl[:elems]
+						sl = old[:elems]
 					}
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							if i < len(old) {
+								sl[i] = old[i] // Keep
+							}
 						case jscan.TokenTypeInteger:
 							if s[tokens[i].Index] == '-' {
 								errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -2052,18 +2058,21 @@ func (d *Decoder[S, T]) Decode(
 						goto ON_VAL_END
 					}
 
-					sl := *(*[]float32)(p)
-					if cap(sl) < elems {
+					old := *(*[]float32)(p)
+					sl := old
+					if cap(old) < elems {
 						sl = make([]float32, elems)
 					} else {
-						sl = sl[:elems]
+						sl = old[:elems]
 					}
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							if i < len(old) {
+								sl[i] = old[i] // Keep
+							}
 						case jscan.TokenTypeNumber:
 							v, errParse := d.parseFloat32(
 								s[tokens[i].Index:tokens[i].End],
@@ -2114,18 +2123,21 @@ func (d *Decoder[S, T]) Decode(
 						goto ON_VAL_END
 					}
 
-					sl := *(*[]float64)(p)
-					if cap(sl) < elems {
+					old := *(*[]float64)(p)
+					sl := old
+					if cap(old) < elems {
 						sl = make([]float64, elems)
 					} else {
-						sl = sl[:elems]
+						sl = old[:elems]
 					}
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							if i < len(old) {
+								sl[i] = old[i] // Keep
+							}
 						case jscan.TokenTypeNumber:
 							v, errParse := d.parseFloat64(
 								s[tokens[i].Index:tokens[i].End],
@@ -2710,23 +2722,6 @@ type sliceHeader struct {
 	Len, Cap uintptr
 }
 
-var (
-	zeroBool    bool
-	zeroStr     string
-	zeroInt     int
-	zeroUint    uint
-	zeroInt8    int8
-	zeroUint8   uint8
-	zeroInt16   int16
-	zeroUint16  uint16
-	zeroInt32   int32
-	zeroUint32  uint32
-	zeroInt64   int64
-	zeroUint64  uint64
-	zeroFloat32 float32
-	zeroFloat64 float64
-)
-
 // endsWith returns true if tokens is followed by nothing but whitespace in s.
 func endsWith[S []byte | string](s S, tokens []jscan.Token[S]) bool {
 	last := tokens[len(tokens)-1]
-- 
2.43.0


From 47254aea591a51689fd628ff403c2e20cab0da0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 15/44] fix: don't decode map values into the values of
 existing keys

---
 jscandec.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 2e6fc30..82087a6 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2583,11 +2583,8 @@ func (d *Decoder[S, T]) Decode(
 
 					d.stackExp[si].Dest = pNewData
 
-					// Zero struct values
-					if d.stackExp[si].Type == ExpectTypeStruct ||
-						d.stackExp[si].Type == ExpectTypeStructRecur {
-						typedmemclr(typVal, pNewData)
-					}
+					// Zero the value of an already existing key
+					typedmemclr(typVal, pNewData)
 
 				default:
 					errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-- 
2.43.0


From aba1fd4684f146040494a691e9819eed21ce9449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 16/44] fix: keep existing entries of map[string]string like of
 any other map

---
 jscandec.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 82087a6..2e6d735 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2273,10 +2273,15 @@ func (d *Decoder[S, T]) Decode(
 					)
 					if tokens[ti].Elements == 0 {
 						ti += 2
-						*(*map[string]string)(p) = make(map[string]string, 0)
+						if *(*map[string]string)(p) == nil {
+							*(*map[string]string)(p) = make(map[string]string, 0)
+						}
 						goto ON_VAL_END
 					}
-					m := make(map[string]string, tokens[ti].Elements)
+					m := *(*map[string]string)(p)
+					if m == nil {
+						m = make(map[string]string, tokens[ti].Elements)
+					}
 					tiEnd := tokens[ti].End
 
 					for ti++; ti < tiEnd; ti += 2 {
-- 
2.43.0


From 5626cb06cae1eb95159455c2312f308f1115f575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 17/44] fix: decode into the value a non-nil pointer points to

---
 jscandec.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 2e6d735..5682c22 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -359,8 +359,7 @@ func (t ExpectType) String() string {
 // otherwise returns true.
 func (t ExpectType) isElemComposite() bool {
 	switch t {
-	case ExpectTypePtr,
-		ExpectTypeArrayLen0, // Zero-length arrays require no memory
+	case ExpectTypeArrayLen0, // Zero-length arrays require no memory
 		ExpectTypeEmptyStruct,
 		ExpectTypeBool,
 		ExpectTypeStr,
@@ -2672,7 +2671,10 @@ func (d *Decoder[S, T]) Decode(
 					uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 				)
 				si++
-				if d.stackExp[si].Size == 0 {
+				if dp := *(*unsafe.Pointer)(p); dp != nil {
+					d.stackExp[si].Dest = dp // Reuse the allocated memory
+				} else if d.stackExp[si].Size == 0 {
+					d.stackExp[si].Dest = emptyStructAddr
 					*(*unsafe.Pointer)(p) = emptyStructAddr
 				} else {
 					dp := mallocgc(d.stackExp[si].Size, d.stackExp[si].Typ, true)
-- 
2.43.0


From f77aca54a06c3a3c98ef90cdeb427d8ab9c6511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 18/44] fix: zero the items of Go arrays that exceed the JSON
 array

---
 jscandec.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 5682c22..550a28f 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1383,9 +1383,7 @@ func (d *Decoder[S, T]) Decode(
 					)
 					if tokens[ti].Elements < 1 {
 						ti += 2 // Skip over closing TokenArrayEnd
-						// Empty array, no need to allocate memory.
-						// Go will automatically allocate it together with its parent
-						// and zero it.
+						typedmemclr(d.stackExp[si].Typ, p)
 						goto ON_VAL_END
 					}
 					ti++
@@ -2608,6 +2606,15 @@ func (d *Decoder[S, T]) Decode(
 				if d.recursionContainer(si) != noParentFrame {
 					si = d.popRecursion()
 				} else {
+					if d.stackExp[si-1].Type == ExpectTypeArray {
+						// Zero the remaining items.
+						for ; d.stackExp[si].Len < d.stackExp[si].Cap; d.stackExp[si].Len++ {
+							typedmemclr(d.stackExp[si].Typ, unsafe.Pointer(
+								uintptr(d.stackExp[si].Dest)+d.stackExp[si].Offset,
+							))
+							d.stackExp[si].Offset += d.stackExp[si].Size
+						}
+					}
 					si--
 				}
 				goto ON_VAL_END
-- 
2.43.0


From ce193fb3aa5bb3880099c97911400e7149b8a450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 19/44] fix: decode -0 into a negative zero float

---
 jscandec.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index 550a28f..06de6b1 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -979,6 +979,9 @@ func (d *Decoder[S, T]) Decode(
 							return true
 						}
 						*(*float32)(p) = float32(i32)
+						if i32 == 0 && s[tokens[ti].Index] == '-' {
+							*(*float32)(p) = float32(math.Copysign(0, -1))
+						}
 					} else {
 						v, errParse := d.parseFloat32(s[tokens[ti].Index:tokens[ti].End])
 						if errParse != nil {
@@ -998,6 +1001,9 @@ func (d *Decoder[S, T]) Decode(
 							return true
 						}
 						*(*float64)(p) = float64(i64)
+						if i64 == 0 && s[tokens[ti].Index] == '-' {
+							*(*float64)(p) = float64(math.Copysign(0, -1))
+						}
 					} else {
 						v, errParse := d.parseFloat64(s[tokens[ti].Index:tokens[ti].End])
 						if errParse != nil {
@@ -2089,6 +2095,9 @@ func (d *Decoder[S, T]) Decode(
 									return true
 								}
 								sl[i] = float32(i32)
+								if i32 == 0 && s[tokens[i].Index] == '-' {
+									sl[i] = float32(math.Copysign(0, -1))
+								}
 							} else {
 								v, errParse := d.parseFloat32(
 									s[tokens[i].Index:tokens[i].End],
@@ -2154,6 +2163,9 @@ func (d *Decoder[S, T]) Decode(
 									return true
 								}
 								sl[i] = float64(v)
+								if v == 0 && s[tokens[i].Index] == '-' {
+									sl[i] = float64(math.Copysign(0, -1))
+								}
 							} else {
 								v, errParse := d.parseFloat64(
 									s[tokens[i].Index:tokens[i].End],
-- 
2.43.0


From 5ef9a4f211fe79a24f4363da404f187cd3c98378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 20/44] fix: ignore unexported struct fields

---
 append_type_stack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/append_type_stack.go b/append_type_stack.go
index 98bb89a..4c6c9bd 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -331,6 +331,9 @@ func appendTypeToStackWithin[S []byte | string](
 
 		for i := 0; i < numFields; i++ {
 			f := t.Field(i)
+			if !f.IsExported() {
+				continue
+			}
 			name := f.Name
 			optionString := false
 			if jsonTag := f.Tag.Get("json"); jsonTag != "" {
-- 
2.43.0


From 1a60ff07ac7702058a250024a648f1c587475555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 21/44] fix: determine the type to unmarshal independently of
 the destination's contents

---
 jscandec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jscandec.go b/jscandec.go
index 06de6b1..d4c4d45 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -484,8 +484,9 @@ func Unmarshal[S []byte | string, T any](s S, t *T) error {
 		return ErrNilDest
 	}
 	stack := make([]stackFrame[S], 0, 4)
+	var z T // Don't use *t, for an interface that's the type of the value in it.
 	var err error
-	stack, err = appendTypeToStack(stack, reflect.TypeOf(*t), DefaultInitOptions)
+	stack, err = appendTypeToStack(stack, reflect.TypeOf(z), DefaultInitOptions)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 44cf013f35b4b3e19c7b4fc880c3caed1b9969c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 22/44] fix: set empty struct slices to nil on null

---
 jscandec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jscandec.go b/jscandec.go
index d4c4d45..02690db 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1316,7 +1316,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*map[string]string)(p) = nil
 				case ExpectTypeMap, ExpectTypeMapRecur:
 					*(*unsafe.Pointer)(p) = nil
-				case ExpectTypeSlice, ExpectTypeSliceRecur:
+				case ExpectTypeSlice, ExpectTypeSliceRecur, ExpectTypeSliceEmptyStruct:
 					// Skip
 					*(*[]any)(p) = nil
 				case ExpectTypeStruct, ExpectTypeStructRecur:
-- 
2.43.0


From f44ce2e40e7494e3b210218c0404e82032127cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 23/44] fix: disallow unknown fields in empty structs too

---
 jscandec.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index 02690db..1dbe7eb 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1506,6 +1506,10 @@ func (d *Decoder[S, T]) Decode(
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
 						case jscan.TokenTypeObject:
+							if options.DisallowUnknownFields && tokens[i].Elements > 0 {
+								errIndex, err = tokens[i+1].Index, ErrUnknownField
+								return true
+							}
 							i = tokens[i].End
 						default:
 							errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -2200,6 +2204,10 @@ func (d *Decoder[S, T]) Decode(
 			case jscan.TokenTypeObject:
 				switch d.stackExp[si].Type {
 				case ExpectTypeEmptyStruct:
+					if options.DisallowUnknownFields && tokens[ti].Elements > 0 {
+						errIndex, err = tokens[ti+1].Index, ErrUnknownField
+						return true
+					}
 					ti = tokens[ti].End + 1 // Skip object value
 					goto ON_VAL_END
 				case ExpectTypeAny:
-- 
2.43.0


From 5765f419c9aa56cd8fefec5c7f6141a3a2859240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 24/44] fix: accept quoted null for fields tagged with option
 string

---
 jscandec.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index 1dbe7eb..d65a3a1 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1084,6 +1084,13 @@ func (d *Decoder[S, T]) Decode(
 					uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 				)
 
+				if t := d.stackExp[si].Type; t >= ExpectTypeBoolString &&
+					string(s[tokens[ti].Index+1:tokens[ti].End-1]) == "null" {
+					// Quoted null leaves the destination unchanged
+					ti++
+					goto ON_VAL_END
+				}
+
 				switch d.stackExp[si].Type {
 				case ExpectTypeTextUnmarshaler:
 					u := unmarshalerAt(
-- 
2.43.0


From 0820fe653cb453c2019ba5b9953229e9497f39f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 25/44] fix: limit the nesting depth of values decoded to type
 any

---
 jscandec.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index d65a3a1..ded71e7 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1377,7 +1377,7 @@ func (d *Decoder[S, T]) Decode(
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
-					v, tail, errDecode := decodeAny(s, tokens[ti:])
+					v, tail, errDecode := decodeAny(s, tokens[ti:], maxDepthAny)
 					if errDecode != nil {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -2218,7 +2218,7 @@ func (d *Decoder[S, T]) Decode(
 					ti = tokens[ti].End + 1 // Skip object value
 					goto ON_VAL_END
 				case ExpectTypeAny:
-					v, tail, errDecode := decodeAny(s, tokens[ti:])
+					v, tail, errDecode := decodeAny(s, tokens[ti:], maxDepthAny)
 					if errDecode != nil {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -2858,8 +2858,15 @@ func fieldFrameIndexByName[S []byte | string](fields []fieldStackFrame, name S)
 	return noParentFrame
 }
 
+// maxDepthAny is the maximum nesting depth of values decoded to type any.
+// It's the same limit encoding/json has for documents and keeps adversarial inputs
+// from overflowing the goroutine stack.
+const maxDepthAny = 10_000
+
+var errMaxDepth = errors.New("exceeded max depth")
+
 func decodeAny[S []byte | string](
-	str S, tokens []jscan.Token[S],
+	str S, tokens []jscan.Token[S], depth int,
 ) (any, []jscan.Token[S], error) {
 	switch tokens[0].Type {
 	case jscan.TokenTypeNull:
@@ -2879,17 +2886,23 @@ func decodeAny[S []byte | string](
 			str[tokens[0].Index+1 : tokens[0].End-1],
 		), tokens[1:], nil
 	case jscan.TokenTypeArray:
+		if depth < 1 {
+			return nil, nil, errMaxDepth
+		}
 		l := make([]any, 0, tokens[0].Elements)
 		for tokens = tokens[1:]; tokens[0].Type != jscan.TokenTypeArrayEnd; {
 			var v any
 			var err error
-			if v, tokens, err = decodeAny(str, tokens); err != nil {
+			if v, tokens, err = decodeAny(str, tokens, depth-1); err != nil {
 				return nil, nil, err
 			}
 			l = append(l, v)
 		}
 		return l, tokens[1:], nil
 	case jscan.TokenTypeObject:
+		if depth < 1 {
+			return nil, nil, errMaxDepth
+		}
 		if tokens[0].Elements == 0 {
 			return map[string]any{}, tokens[2:], nil
 		}
@@ -2898,7 +2911,7 @@ func decodeAny[S []byte | string](
 			key := str[tokens[0].Index+1 : tokens[0].End-1]
 			var v any
 			var err error
-			if v, tokens, err = decodeAny(str, tokens[1:]); err != nil {
+			if v, tokens, err = decodeAny(str, tokens[1:], depth-1); err != nil {
 				return nil, nil, err
 			}
 			m[unescape.Valid[S, string](key)] = v
-- 
2.43.0


From 9c934c9e003d784a6780ee225caa5b53468e53d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 26/44] fix: parse struct tag options the way encoding/json
 does

---
 append_type_stack.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 4c6c9bd..1602305 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -337,19 +337,20 @@ func appendTypeToStackWithin[S []byte | string](
 			name := f.Name
 			optionString := false
 			if jsonTag := f.Tag.Get("json"); jsonTag != "" {
-				name = jsonTag
-				if i := strings.IndexByte(jsonTag, ','); i != -1 {
-					name = jsonTag[:i]
-					optionName := jsonTag[i+1:]
+				if jsonTag == "-" {
+					// Ignore this field.
+					continue
+				}
+				var tagOptions string
+				name, tagOptions, _ = strings.Cut(jsonTag, ",")
+				for tagOptions != "" && !optionString {
+					var optionName string
+					optionName, tagOptions, _ = strings.Cut(tagOptions, ",")
 					optionString = optionName == "string"
 				}
-				switch name {
-				case "":
+				if name == "" {
 					// Either there was no tag or no name specified in it.
 					name = f.Name
-				case "-":
-					// Ignore this field.
-					continue
 				}
 			}
 
-- 
2.43.0


From b6a0bd77a83d84fb9c8b9bbd2a1e73370431b7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 27/44] fix: match field names case-insensitively even if cases
 differ in length

The letters k and s have case variants outside ASCII (U+212A and U+017F)
which encoding/json matches.
---
 jscandec.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index ded71e7..6cb75ae 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2837,21 +2837,21 @@ func fieldFrameIndexByName[S []byte | string](fields []fieldStackFrame, name S)
 	f := fields
 	eq := strings.EqualFold
 	for ; len(f) >= 4; f = f[4:] { // Try 4 at a time if enough are left
-		if len(f[0].Name) == len(name) && eq(string(f[0].Name), string(name)) {
+		if eq(string(f[0].Name), string(name)) {
 			return f[0].FrameIndex
 		}
-		if len(f[1].Name) == len(name) && eq(string(f[1].Name), string(name)) {
+		if eq(string(f[1].Name), string(name)) {
 			return f[1].FrameIndex
 		}
-		if len(f[2].Name) == len(name) && eq(string(f[2].Name), string(name)) {
+		if eq(string(f[2].Name), string(name)) {
 			return f[2].FrameIndex
 		}
-		if len(f[3].Name) == len(name) && eq(string(f[3].Name), string(name)) {
+		if eq(string(f[3].Name), string(name)) {
 			return f[3].FrameIndex
 		}
 	}
 	for i := range f {
-		if len(f[i].Name) == len(name) && eq(string(f[i].Name), string(name)) {
+		if eq(string(f[i].Name), string(name)) {
 			return f[i].FrameIndex
 		}
 	}
-- 
2.43.0


From 562ff2848b17f57496f15fe3b7d10ba9087770a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 28/44] fix: ignore invalid names in struct tags like
 encoding/json does

---
 append_type_stack.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 1602305..a6a1b40 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"reflect"
 	"strings"
+	"unicode"
 	"unsafe"
 )
 
@@ -348,8 +349,8 @@ func appendTypeToStackWithin[S []byte | string](
 					optionName, tagOptions, _ = strings.Cut(tagOptions, ",")
 					optionString = optionName == "string"
 				}
-				if name == "" {
-					// Either there was no tag or no name specified in it.
+				if !isValidTagName(name) {
+					// Either there was no name specified in the tag or it's invalid.
 					name = f.Name
 				}
 			}
@@ -563,6 +564,17 @@ func appendTypeToStackWithin[S []byte | string](
 	return stack, nil
 }
 
+// isValidTagName returns true if name is a name encoding/json accepts in struct tags.
+func isValidTagName(name string) bool {
+	for _, c := range name {
+		if !strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) &&
+			!unicode.IsLetter(c) && !unicode.IsDigit(c) {
+			return false
+		}
+	}
+	return name != ""
+}
+
 func implementsUnmarshaler(t reflect.Type) bool {
 	return determineJSONUnmarshalerSupport(t) != interfaceSupportNone ||
 		determineTextUnmarshalerSupport(t) != interfaceSupportNone
-- 
2.43.0


From db7e9283e7ddb8da148a3e95dde798a93d66d72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 29/44] fix: resolve fields of the same name like encoding/json
 does

The field named by its tag wins. If there's none or more than one then all of
them are ignored.
---
 append_type_stack.go | 61 ++++++++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index a6a1b40..c39e14f 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -335,24 +335,15 @@ func appendTypeToStackWithin[S []byte | string](
 			if !f.IsExported() {
 				continue
 			}
-			name := f.Name
+			name, tagOptions, ignore := fieldName(f)
+			if ignore || isShadowed(t, i) {
+				continue
+			}
 			optionString := false
-			if jsonTag := f.Tag.Get("json"); jsonTag != "" {
-				if jsonTag == "-" {
-					// Ignore this field.
-					continue
-				}
-				var tagOptions string
-				name, tagOptions, _ = strings.Cut(jsonTag, ",")
-				for tagOptions != "" && !optionString {
-					var optionName string
-					optionName, tagOptions, _ = strings.Cut(tagOptions, ",")
-					optionString = optionName == "string"
-				}
-				if !isValidTagName(name) {
-					// Either there was no name specified in the tag or it's invalid.
-					name = f.Name
-				}
+			for tagOptions != "" && !optionString {
+				var optionName string
+				optionName, tagOptions, _ = strings.Cut(tagOptions, ",")
+				optionString = optionName == "string"
 			}
 
 			newAtIndex := uint32(len(stack))
@@ -564,6 +555,42 @@ func appendTypeToStackWithin[S []byte | string](
 	return stack, nil
 }
 
+// fieldName returns the name of the exported struct field f in JSON and the options
+// of its tag. Returns ignore=true if f is excluded by its tag.
+func fieldName(f reflect.StructField) (name, tagOptions string, ignore bool) {
+	tag := f.Tag.Get("json")
+	if tag == "-" {
+		return "", "", true
+	}
+	name, tagOptions, _ = strings.Cut(tag, ",")
+	if !isValidTagName(name) {
+		// Either there was no name specified in the tag or it's invalid.
+		name = f.Name
+	}
+	return name, tagOptions, false
+}
+
+// isShadowed returns true if another field of struct type t has the same name as
+// field i, unless field i is the only one of them that's named by its tag.
+func isShadowed(t reflect.Type, i int) bool {
+	name, _, _ := fieldName(t.Field(i))
+	tagged := func(f reflect.StructField) bool {
+		tagName, _, _ := strings.Cut(f.Tag.Get("json"), ",")
+		return isValidTagName(tagName)
+	}
+	for j := 0; j < t.NumField(); j++ {
+		f := t.Field(j)
+		if j == i || !f.IsExported() {
+			continue
+		}
+		other, _, ignore := fieldName(f)
+		if !ignore && other == name && (tagged(f) || !tagged(t.Field(i))) {
+			return true
+		}
+	}
+	return false
+}
+
 // isValidTagName returns true if name is a name encoding/json accepts in struct tags.
 func isValidTagName(name string) bool {
 	for _, c := range name {
-- 
2.43.0


From 543bdff86f1dda04b5d93cfdc8fa8e62bbf97851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 30/44] fix: unescape integer map keys and accept a plus sign
 in signed ones

encoding/json does both.
---
 jscandec.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index 6cb75ae..560bc5b 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2456,6 +2456,13 @@ func (d *Decoder[S, T]) Decode(
 
 					// The key frame is guaranteed to be non-composite (single frame)
 					// and at an offset of 1 relative to the map frame index.
+					if t := d.stackExp[si+1].Type; t >= ExpectTypeInt && t <= ExpectTypeUint64 {
+						key = unescape.Valid[S, S](key)
+						if t <= ExpectTypeInt64 && len(key) > 1 &&
+							key[0] == '+' && key[1] != '-' {
+							key = key[1:]
+						}
+					}
 					switch d.stackExp[si+1].Type {
 					case ExpectTypeTextUnmarshaler:
 						v := reflect.New(d.stackExp[si+1].RType)
-- 
2.43.0


From 2b196b39601224645a25b8c402353263c156d018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 31/44] fix: support map keys of type Number

Like in encoding/json, they're treated as any other string key.
---
 jscandec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jscandec.go b/jscandec.go
index 560bc5b..b77720a 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2475,7 +2475,7 @@ func (d *Decoder[S, T]) Decode(
 						pKey := v.UnsafePointer()
 						pNewData = mapassign(typMap, pMap, noescape(pKey))
 
-					case ExpectTypeStr:
+					case ExpectTypeStr, ExpectTypeNumber:
 						keyStr := unescape.Valid[S, string](key)
 						if d.stackExp[si].MapCanUseAssignFaststr {
 							pNewData = mapassign_faststr(typMap, pMap, keyStr)
-- 
2.43.0


From bf0d7ed3511ddc01ac177108822f6648c686a6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:09 +0000
Subject: [PATCH 32/44] fix: decode escape sequences in strings tagged with
 option string

The quoted string may itself contain escape sequences, for example whenever
encoding/json marshaled a string with a line break.
---
 jscandec.go | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index b77720a..cdc64ca 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1,7 +1,6 @@
 package jscandec
 
 import (
-	"bytes"
 	"encoding"
 	"encoding/json"
 	"errors"
@@ -1122,27 +1121,16 @@ func (d *Decoder[S, T]) Decode(
 						return true
 					}
 				case ExpectTypeStrString:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					if len(tv) < len(`\"\"`) ||
-						string(tv[0:2]) != `\"` ||
-						string(tv[len(tv)-2:]) != `\"` {
-						// Too short or not encloused by \"
-						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-						return true
-					}
-					val := tv[2 : len(tv)-2]
-					var indexReverseSolidus int
-					switch val := any(val).(type) {
-					case string:
-						indexReverseSolidus = strings.IndexByte(val, '\\')
-					case []byte:
-						indexReverseSolidus = bytes.IndexByte(val, '\\')
-					}
-					if indexReverseSolidus != -1 {
+					// Unescape twice, the string contains a JSON string
+					tv := unescape.Valid[S, string](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
+					if len(tv) < len(`""`) || tv[0] != '"' || tv[len(tv)-1] != '"' ||
+						!json.Valid([]byte(tv)) {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
-					*(*string)(p) = string(val)
+					*(*string)(p) = unescape.Valid[string, string](tv[1 : len(tv)-1])
 
 				case ExpectTypeNumber:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-- 
2.43.0


From 0dc983e27494692f75759ddc771a3e8c80e0e488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:58 +0000
Subject: [PATCH 33/44] fix: support map keys that implement a JSON unmarshaler

Like in encoding/json it's used if the key type implements a text unmarshaler
too, like time.Time, and ignored otherwise.
---
 append_type_stack.go | 28 ++++++++++++++++++++++++++--
 jscandec.go          | 15 +++++++++++++++
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index c39e14f..58a6d6c 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -257,7 +257,7 @@ func appendTypeToStackWithin[S []byte | string](
 					{
 						newAtIndex := len(stack)
 						var err error
-						stack, err = appendTypeToStackWithin(stack, t.Key(), options, parents)
+						stack, err = appendMapKeyToStack(stack, t.Key(), options, parents)
 						if err != nil {
 							return nil, err
 						}
@@ -293,7 +293,7 @@ func appendTypeToStackWithin[S []byte | string](
 		{
 			newAtIndex := len(stack)
 			var err error
-			if stack, err = appendTypeToStackWithin(stack, t.Key(), options, parents); err != nil {
+			if stack, err = appendMapKeyToStack(stack, t.Key(), options, parents); err != nil {
 				return nil, err
 			}
 			// Link map key to the map frame.
@@ -555,6 +555,30 @@ func appendTypeToStackWithin[S []byte | string](
 	return stack, nil
 }
 
+// appendMapKeyToStack is like appendTypeToStackWithin for map key type t.
+// JSON unmarshalers of keys are ignored unless the key is a text unmarshaler too.
+func appendMapKeyToStack[S []byte | string](
+	stack []stackFrame[S], t reflect.Type, options *InitOptions, parents []int,
+) ([]stackFrame[S], error) {
+	if determineJSONUnmarshalerSupport(t) != interfaceSupportNone &&
+		determineTextUnmarshalerSupport(t) == interfaceSupportNone {
+		frame := stackFrame[S]{
+			Typ:              getTyp(t),
+			Size:             t.Size(),
+			ParentFrameIndex: noParentFrame,
+		}
+		switch k := t.Kind(); {
+		case k == reflect.String:
+			frame.Type = ExpectTypeStr
+			return append(stack, frame), nil
+		case k >= reflect.Int && k <= reflect.Uint64:
+			frame.Type = ExpectTypeInt + ExpectType(k-reflect.Int)
+			return append(stack, frame), nil
+		}
+	}
+	return appendTypeToStackWithin(stack, t, options, parents)
+}
+
 // fieldName returns the name of the exported struct field f in JSON and the options
 // of its tag. Returns ignore=true if f is excluded by its tag.
 func fieldName(f reflect.StructField) (name, tagOptions string, ignore bool) {
diff --git a/jscandec.go b/jscandec.go
index cdc64ca..b68ba90 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2463,6 +2463,21 @@ func (d *Decoder[S, T]) Decode(
 						pKey := v.UnsafePointer()
 						pNewData = mapassign(typMap, pMap, noescape(pKey))
 
+					case ExpectTypeJSONUnmarshaler:
+						v := reflect.New(d.stackExp[si+1].RType)
+						iface, ok := v.Interface().(json.Unmarshaler)
+						if _, isText := v.Interface().(encoding.TextUnmarshaler); !isText || !ok {
+							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
+							return true
+						}
+						raw := s[tokens[ti].Index:tokens[ti].End]
+						if errU := iface.UnmarshalJSON([]byte(raw)); errU != nil {
+							errIndex, err = tokens[ti].Index, errU
+							return true
+						}
+						pKey := v.UnsafePointer()
+						pNewData = mapassign(typMap, pMap, noescape(pKey))
+
 					case ExpectTypeStr, ExpectTypeNumber:
 						keyStr := unescape.Valid[S, string](key)
 						if d.stackExp[si].MapCanUseAssignFaststr {
-- 
2.43.0


From d47afd72438e51775f9e3bdbc208830365b0623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 34/44] fix: decode base64 strings into byte slices like
 encoding/json does

---
 jscandec.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index b68ba90..d0532f6 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2,6 +2,7 @@ package jscandec
 
 import (
 	"encoding"
+	"encoding/base64"
 	"encoding/json"
 	"errors"
 	"math"
@@ -1110,6 +1111,18 @@ func (d *Decoder[S, T]) Decode(
 					*(*string)(p) = unescape.Valid[S, string](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
+				case ExpectTypeSliceUint8:
+					// Like in encoding/json, strings are base64-encoded bytes
+					tv := unescape.Valid[S, []byte](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
+					b := make([]byte, base64.StdEncoding.DecodedLen(len(tv)))
+					n, errDecode := base64.StdEncoding.Decode(b, tv)
+					if errDecode != nil {
+						errIndex, err = tokens[ti].Index, errDecode
+						return true
+					}
+					*(*[]byte)(p) = b[:n]
 				case ExpectTypeBoolString:
 					switch string(s[tokens[ti].Index+1 : tokens[ti].End-1]) {
 					case "true":
-- 
2.43.0


From 86a3f4c0669ca18484958da31c98bb6f29103a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:52 +0000
Subject: [PATCH 35/44] fix: set slices and maps that unmarshal text to nil on
 null

---
 jscandec.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index d0532f6..8664417 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1365,8 +1365,9 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*unsafe.Pointer)(p) = nil
 				case ExpectTypeTextUnmarshaler:
-					if d.stackExp[si].RType.Kind() == reflect.Pointer {
-						*(*unsafe.Pointer)(p) = nil
+					switch d.stackExp[si].RType.Kind() {
+					case reflect.Pointer, reflect.Slice, reflect.Map:
+						typedmemclr(d.stackExp[si].Typ, p)
 					}
 				}
 				ti++
-- 
2.43.0


From 7f39dce48124ef7c49729bd823284f1a0df58b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 36/44] fix: reset frames of recursive structs when recursing
 into a parent struct

---
 jscandec.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index 8664417..e532c82 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -445,6 +445,9 @@ type stackFrame[S []byte | string] struct {
 	// For struct fields however, Offset is assigned statically at decoder init time.
 	Offset uintptr // Overwritten at runtime
 
+	// InitOffset is the value of Offset before any call to Decode.
+	InitOffset uintptr
+
 	// ParentFrameIndex defines either the index of the composite parent object
 	// in the stack, or noParentFrame.
 	ParentFrameIndex uint32
@@ -544,6 +547,11 @@ func (d *Decoder[S, T]) pushRecursion(container uint32) {
 			Offset: d.stackExp[i].Offset,
 			Len:    d.stackExp[i].Len,
 		})
+		if d.stackExp[i].Type == ExpectTypeStructRecur {
+			// Undo the changes made by a recursion into this frame, it may be
+			// entered from its parent frame again within this recursion.
+			d.stackExp[i].Offset = d.stackExp[i].InitOffset
+		}
 	}
 	d.recursion = append(d.recursion, r)
 }
@@ -609,6 +617,10 @@ func NewDecoder[S []byte | string, T any](
 }
 
 func (d *Decoder[S, T]) init() {
+	for i := range d.stackExp {
+		d.stackExp[i].InitOffset = d.stackExp[i].Offset
+	}
+
 	// 64-bit system
 	d.parseInt = func(s S) (int, error) {
 		i, overflow := atoi.I64(s)
-- 
2.43.0


From e975692cf98dadfcba8a12f478618d5ee5d93240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 37/44] fix: decode escape sequences in quoted numbers,
 booleans and nulls

---
 jscandec.go | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index e532c82..276e8ac 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1097,7 +1097,7 @@ func (d *Decoder[S, T]) Decode(
 				)
 
 				if t := d.stackExp[si].Type; t >= ExpectTypeBoolString &&
-					string(s[tokens[ti].Index+1:tokens[ti].End-1]) == "null" {
+					string(unescapeLiteral(s[tokens[ti].Index+1:tokens[ti].End-1])) == "null" {
 					// Quoted null leaves the destination unchanged
 					ti++
 					goto ON_VAL_END
@@ -1136,7 +1136,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*[]byte)(p) = b[:n]
 				case ExpectTypeBoolString:
-					switch string(s[tokens[ti].Index+1 : tokens[ti].End-1]) {
+					switch string(unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])) {
 					case "true":
 						*(*bool)(p) = true
 					case "false":
@@ -1158,7 +1158,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*string)(p) = unescape.Valid[string, string](tv[1 : len(tv)-1])
 
 				case ExpectTypeNumber:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if t, rc := jsonnum.ReadNumber(tv); rc == jsonnum.ReturnCodeErr || len(t) > 0 {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1166,7 +1166,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*Number)(p) = Number(tv)
 
 				case ExpectTypeFloat32String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					_, rc := jsonnum.ReadNumber(tv)
 					if rc == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1179,7 +1179,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*float32)(p) = v
 				case ExpectTypeFloat64String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					_, rc := jsonnum.ReadNumber(tv)
 					if rc == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1192,7 +1192,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*float64)(p) = v
 				case ExpectTypeIntString:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if !isInteger(tv) {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1204,7 +1204,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int)(p) = v
 				case ExpectTypeInt8String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if !isInteger(tv) {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1216,7 +1216,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int8)(p) = v
 				case ExpectTypeInt16String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if !isInteger(tv) {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1228,7 +1228,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int16)(p) = v
 				case ExpectTypeInt32String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if !isInteger(tv) {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1240,7 +1240,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int32)(p) = v
 				case ExpectTypeInt64String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if !isInteger(tv) {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1252,7 +1252,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int64)(p) = v
 				case ExpectTypeUintString:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if !isInteger(tv) || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1264,7 +1264,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint)(p) = v
 				case ExpectTypeUint8String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if !isInteger(tv) || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1276,7 +1276,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint8)(p) = v
 				case ExpectTypeUint16String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if !isInteger(tv) || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1288,7 +1288,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint16)(p) = v
 				case ExpectTypeUint32String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if !isInteger(tv) || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1300,7 +1300,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint32)(p) = v
 				case ExpectTypeUint64String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if !isInteger(tv) || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -2829,6 +2829,17 @@ func unmarshalerAt(t reflect.Type, p unsafe.Pointer) any {
 	return v.Interface()
 }
 
+// unescapeLiteral returns the unescaped contents of a JSON string that's expected to
+// contain a number, a boolean or null. s is returned as is if there's nothing to unescape.
+func unescapeLiteral[S []byte | string](s S) S {
+	for i := 0; i < len(s); i++ {
+		if s[i] == '\\' {
+			return unescape.Valid[S, S](s)
+		}
+	}
+	return s
+}
+
 // isInteger returns true if s consists of decimal digits only,
 // optionally preceded by a minus sign.
 func isInteger[S []byte | string](s S) bool {
-- 
2.43.0


From d8d0b83efdbfeabbec0147823b80c294b9d46b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:06 +0000
Subject: [PATCH 38/44] fix: accept leading zeros in quoted integers and
 integer map keys

---
 jscandec.go | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 276e8ac..504ddbd 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1192,7 +1192,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*float64)(p) = v
 				case ExpectTypeIntString:
-					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
+					tv := trimZeros(unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1]))
 					if !isInteger(tv) {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1204,7 +1204,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int)(p) = v
 				case ExpectTypeInt8String:
-					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
+					tv := trimZeros(unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1]))
 					if !isInteger(tv) {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1216,7 +1216,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int8)(p) = v
 				case ExpectTypeInt16String:
-					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
+					tv := trimZeros(unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1]))
 					if !isInteger(tv) {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1228,7 +1228,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int16)(p) = v
 				case ExpectTypeInt32String:
-					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
+					tv := trimZeros(unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1]))
 					if !isInteger(tv) {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1240,7 +1240,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int32)(p) = v
 				case ExpectTypeInt64String:
-					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
+					tv := trimZeros(unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1]))
 					if !isInteger(tv) {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1252,7 +1252,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int64)(p) = v
 				case ExpectTypeUintString:
-					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
+					tv := trimZeros(unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1]))
 					if !isInteger(tv) || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1264,7 +1264,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint)(p) = v
 				case ExpectTypeUint8String:
-					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
+					tv := trimZeros(unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1]))
 					if !isInteger(tv) || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1276,7 +1276,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint8)(p) = v
 				case ExpectTypeUint16String:
-					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
+					tv := trimZeros(unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1]))
 					if !isInteger(tv) || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1288,7 +1288,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint16)(p) = v
 				case ExpectTypeUint32String:
-					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
+					tv := trimZeros(unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1]))
 					if !isInteger(tv) || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1300,7 +1300,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint32)(p) = v
 				case ExpectTypeUint64String:
-					tv := unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1])
+					tv := trimZeros(unescapeLiteral(s[tokens[ti].Index+1 : tokens[ti].End-1]))
 					if !isInteger(tv) || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -2476,6 +2476,7 @@ func (d *Decoder[S, T]) Decode(
 							key[0] == '+' && key[1] != '-' {
 							key = key[1:]
 						}
+						key = trimZeros(key)
 					}
 					switch d.stackExp[si+1].Type {
 					case ExpectTypeTextUnmarshaler:
@@ -2840,6 +2841,22 @@ func unescapeLiteral[S []byte | string](s S) S {
 	return s
 }
 
+// trimZeros removes insignificant leading zeros from integer s.
+func trimZeros[S []byte | string](s S) S {
+	sign := 0
+	if len(s) > 0 && s[0] == '-' {
+		sign = 1
+	}
+	i := sign
+	for i+1 < len(s) && s[i] == '0' && s[i+1] >= '0' && s[i+1] <= '9' {
+		i++
+	}
+	if i == sign {
+		return s
+	}
+	return S(string(s[:sign]) + string(s[i:]))
+}
+
 // isInteger returns true if s consists of decimal digits only,
 // optionally preceded by a minus sign.
 func isInteger[S []byte | string](s S) bool {
-- 
2.43.0


From 3bf9cc4f488a9675e4571555fe6afc244820dd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:03 +0000
Subject: [PATCH 39/44] fix: support type uintptr

---
 append_type_stack.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 58a6d6c..7909c61 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -167,7 +167,7 @@ func appendTypeToStackWithin[S []byte | string](
 				Size:             t.Size(),
 				ParentFrameIndex: noParentFrame,
 			}), nil
-		case reflect.Uint:
+		case reflect.Uint, reflect.Uintptr:
 			return append(stack, stackFrame[S]{
 				Type:             ExpectTypeSliceUint,
 				Typ:              getTyp(t),
@@ -463,7 +463,7 @@ func appendTypeToStackWithin[S []byte | string](
 			Size:             t.Size(),
 			ParentFrameIndex: noParentFrame,
 		})
-	case reflect.Uint:
+	case reflect.Uint, reflect.Uintptr:
 		stack = append(stack, stackFrame[S]{
 			Type:             ExpectTypeUint,
 			Typ:              getTyp(t),
-- 
2.43.0


From 536e62632d8cd51288ca3b69e781729f7f315595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:33 +0000
Subject: [PATCH 40/44] fix: reject keys of map types with pointers to text
 unmarshalers as keys, the call panicked

---
 jscandec.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jscandec.go b/jscandec.go
index 504ddbd..cb067b8 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2481,7 +2481,11 @@ func (d *Decoder[S, T]) Decode(
 					switch d.stackExp[si+1].Type {
 					case ExpectTypeTextUnmarshaler:
 						v := reflect.New(d.stackExp[si+1].RType)
-						iface := v.Interface().(encoding.TextUnmarshaler)
+						iface, ok := v.Interface().(encoding.TextUnmarshaler)
+						if !ok { // Pointers as keys aren't supported
+							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
+							return true
+						}
 						keyUnescaped := unescape.Valid[S, []byte](key)
 						if errU := iface.UnmarshalText(keyUnescaped); errU != nil {
 							errIndex, err = tokens[ti].Index, errU
-- 
2.43.0


From 1108341b21b6ba4dd88b52ef0bc66a463570e5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:50 +0000
Subject: [PATCH 41/44] fix: return an error of a user unmarshaler that equals
 ErrStringTagOptionOnUnsupportedType, Unmarshal dropped it

---
 jscandec.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index cb067b8..abbe016 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -498,11 +498,8 @@ func Unmarshal[S []byte | string, T any](s S, t *T) error {
 	)
 	d := Decoder[S, T]{tokenizer: tokenizer, stackExp: stack}
 	d.init()
-	if _, err := d.Decode(s, t, DefaultOptions); err != nil &&
-		err != ErrStringTagOptionOnUnsupportedType {
-		return err
-	}
-	return nil
+	_, err = d.Decode(s, t, DefaultOptions)
+	return err
 }
 
 // Decoder is a reusable decoder instance.
-- 
2.43.0


From b5b3dbba934597b2711c21b269fe22cb9819884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:08 +0000
Subject: [PATCH 42/44] fix: reject objects for maps with unsupported key
 types, empty ones were accepted

---
 append_type_stack.go |  2 ++
 jscandec.go          | 21 +++++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/append_type_stack.go b/append_type_stack.go
index 7909c61..a83a802 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -251,6 +251,7 @@ func appendTypeToStackWithin[S []byte | string](
 						Size:                   t.Size(),
 						MapValueType:           getTyp(t.Elem()),
 						MapCanUseAssignFaststr: canUseAssignFaststr(t),
+						MapKeyUnsupported:      !isSupportedMapKey(t.Key()),
 						ParentFrameIndex:       noParentFrame,
 						RecurFrame:             i,
 					})
@@ -288,6 +289,7 @@ func appendTypeToStackWithin[S []byte | string](
 			Size:                   t.Size(),
 			MapValueType:           getTyp(t.Elem()),
 			MapCanUseAssignFaststr: canUseAssignFaststr(t),
+			MapKeyUnsupported:      !isSupportedMapKey(t.Key()),
 			ParentFrameIndex:       noParentFrame,
 		})
 		{
diff --git a/jscandec.go b/jscandec.go
index abbe016..61ed3f1 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -460,6 +460,10 @@ type stackFrame[S []byte | string] struct {
 	// MapCanUseAssignFaststr is only relevant to map frames and indicates whether
 	// mapassign_faststr can be used instead of mapassign.
 	MapCanUseAssignFaststr bool
+
+	// MapKeyUnsupported is only relevant to map frames and indicates that
+	// objects can't be decoded into the map because of its key type.
+	MapKeyUnsupported bool
 }
 
 // noParentFrame uses math.MaxUint32 because the length of the decoder stack
@@ -2271,6 +2275,10 @@ func (d *Decoder[S, T]) Decode(
 					ti++
 
 				case ExpectTypeMapRecur:
+					if d.stackExp[si].MapKeyUnsupported {
+						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
+						return true
+					}
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
@@ -2288,6 +2296,10 @@ func (d *Decoder[S, T]) Decode(
 					ti++
 
 				case ExpectTypeMap:
+					if d.stackExp[si].MapKeyUnsupported {
+						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
+						return true
+					}
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
@@ -3032,6 +3044,15 @@ type emptyInterface struct {
 	ptr unsafe.Pointer
 }
 
+// isSupportedMapKey returns true if keys of JSON objects can be decoded into t,
+// which is the case for strings, integers and implementers of
+// encoding.TextUnmarshaler except for pointers and interfaces.
+func isSupportedMapKey(t reflect.Type) bool {
+	k := t.Kind()
+	return k == reflect.String || k >= reflect.Int && k <= reflect.Uintptr ||
+		reflect.PointerTo(t).Implements(tpTextUnmarshaler)
+}
+
 func canUseAssignFaststr(mapType reflect.Type) bool {
 	return mapType.Elem().Size() <= 128 && mapType.Key().Kind() == reflect.String
 }
-- 
2.43.0


From 71547b234a53e3199aab99be5dac2619da196ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:55 +0000
Subject: [PATCH 43/44] fix: decode the fields of zero-size structs in slices,
 misfitting values were accepted

Elements of slices were treated as structs without fields if their size is zero,
also if they have fields of zero size.
---
 append_type_stack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index a83a802..dd731c0 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -91,7 +91,7 @@ func appendTypeToStackWithin[S []byte | string](
 		}
 		switch elemKind {
 		case reflect.Struct:
-			if elem.Size() < 1 {
+			if elem.NumField() < 1 {
 				return append(stack, stackFrame[S]{
 					Type:             ExpectTypeSliceEmptyStruct,
 					Typ:              getTyp(t),
-- 
2.43.0


From 3bb222bfc8f583c0351bfe3988d1f02b6c3fb53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:40 +0000
Subject: [PATCH 44/44] fix: support interfaces with methods in destinations
 like encoding/json does

NewDecoder and Unmarshal panicked if the destination type contained an interface type
with methods, and treated it as any if it was the destination type itself, which wrote
a type where the interface keeps its method table. Like in encoding/json only null can
be decoded into such interfaces, any other value is unexpected.
---
 append_type_stack.go | 12 ++++++++----
 jscandec.go          | 15 +++++++++++----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index dd731c0..c50647e 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -27,6 +27,14 @@ func appendTypeToStackWithin[S []byte | string](
 			Size:             unsafe.Sizeof(struct{ typ, dat uintptr }{}),
 			ParentFrameIndex: noParentFrame,
 		}), nil
+	} else if t.Kind() == reflect.Interface && t.NumMethod() != 0 {
+		// Must not be mistaken for the implementation of an unmarshaler.
+		return append(stack, stackFrame[S]{
+			Type:             ExpectTypeIface,
+			Typ:              getTyp(t),
+			Size:             t.Size(),
+			ParentFrameIndex: noParentFrame,
+		}), nil
 	} else if s := determineJSONUnmarshalerSupport(t); s != interfaceSupportNone {
 		return append(stack, stackFrame[S]{
 			Type:             ExpectTypeJSONUnmarshaler,
@@ -46,10 +54,6 @@ func appendTypeToStackWithin[S []byte | string](
 	}
 	switch t.Kind() {
 	case reflect.Interface:
-		if t.NumMethod() != 0 {
-			// TODO:
-			panic("not yet supported")
-		}
 		return append(stack, stackFrame[S]{
 			Type:             ExpectTypeAny,
 			Typ:              getTyp(t),
diff --git a/jscandec.go b/jscandec.go
index 61ed3f1..693903d 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -71,6 +71,9 @@ const (
 	// ExpectTypeAny is type `any`
 	ExpectTypeAny
 
+	// ExpectTypeIface is any interface type that has methods, only null can be decoded
+	ExpectTypeIface
+
 	// ExpectTypeMap is any map type
 	ExpectTypeMap
 
@@ -245,6 +248,8 @@ func (t ExpectType) String() string {
 		return "*⟲"
 	case ExpectTypeAny:
 		return "any"
+	case ExpectTypeIface:
+		return "interface"
 	case ExpectTypeMap:
 		return "map"
 	case ExpectTypeMapStringString:
@@ -491,9 +496,8 @@ func Unmarshal[S []byte | string, T any](s S, t *T) error {
 		return ErrNilDest
 	}
 	stack := make([]stackFrame[S], 0, 4)
-	var z T // Don't use *t, for an interface that's the type of the value in it.
 	var err error
-	stack, err = appendTypeToStack(stack, reflect.TypeOf(z), DefaultInitOptions)
+	stack, err = appendTypeToStack(stack, reflect.TypeOf(t).Elem(), DefaultInitOptions)
 	if err != nil {
 		return err
 	}
@@ -606,9 +610,10 @@ func NewDecoder[S []byte | string, T any](
 		stackExp:  make([]stackFrame[S], 0, 4),
 	}
 
-	var z T
 	var err error
-	d.stackExp, err = appendTypeToStack(d.stackExp, reflect.TypeOf(z), options)
+	d.stackExp, err = appendTypeToStack(
+		d.stackExp, reflect.TypeOf((*T)(nil)).Elem(), options,
+	)
 	if err != nil {
 		return nil, err
 	}
@@ -1333,6 +1338,8 @@ func (d *Decoder[S, T]) Decode(
 					// Nothing
 				case ExpectTypeAny:
 					*(*any)(p) = nil
+				case ExpectTypeIface:
+					typedmemclr(d.stackExp[si].Typ, p)
 				case ExpectTypeMapStringString:
 					*(*map[string]string)(p) = nil
 				case ExpectTypeMap, ExpectTypeMapRecur:
-- 
2.43.0

