From 804cedf902331a0398351fffe4a7bd367dd17d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 01/21] fix: CDF writer picks the version for global attributes
 before the header is written

---
 netcdf/cdf/cdfwriter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 09d0b64..5afef49 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -893,6 +893,8 @@ func (cw *CDFWriter) writeNumber(n int64) {
 }
 
 func (cw *CDFWriter) writeAll() {
+	// This can change the version, so it must be done before anything is written.
+	cw.checkV5Attributes(cw.globalAttrs)
 	writeBytes(cw.bf, []byte("CDF"))
 	write8(cw.bf, cw.version) // version 2 to handle big files
 	numRecs := int64(0)       // 0: not unlimited
@@ -909,7 +911,6 @@ func (cw *CDFWriter) writeAll() {
 		write32(cw.bf, 0)        // dimensions: absent
 		cw.writeNumber(int64(0)) // dimensions: absent
 	}
-	cw.checkV5Attributes(cw.globalAttrs)
 	cw.writeAttributes(cw.globalAttrs)
 	if len(cw.vars) > 0 {
 		write32(cw.bf, fieldVariable)
-- 
2.43.0


From 406cf0edc268599df68dd9c3031b240b4dfce4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 02/21] fix: CDF writer places record variables after the
 fixed-size ones, so that an empty one does not shift the data

---
 netcdf/cdf/cdfwriter.go | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 5afef49..d1d1cd0 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -30,7 +30,6 @@ type savedVar struct {
 	dimLengths []int64
 	dimNames   []string
 	attrs      api.AttributeMap
-	vsize      int64
 }
 
 type CDFWriter struct {
@@ -444,7 +443,7 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 		}
 	}
 	cw.vars = append(cw.vars, savedVar{name, vr.Values, ty, dimLengths,
-		vr.Dimensions, vr.Attributes, 0})
+		vr.Dimensions, vr.Attributes})
 	return nil
 }
 
@@ -615,6 +614,32 @@ func (cw *CDFWriter) writeVar(which int) {
 	cw.writeAttributes(saved.attrs)
 
 	write32(cw.bf, int32(saved.ty))
+	vsize := saved.paddedSize()
+	cw.writeNumber(int64(vsize))
+
+	// The record variables are stored after all the others.
+	calcOffset := cw.begin
+	for i := range cw.vars {
+		other := &cw.vars[i]
+		if other.isRecord() == saved.isRecord() {
+			if i < which {
+				calcOffset += other.paddedSize()
+			}
+		} else if saved.isRecord() {
+			calcOffset += other.paddedSize()
+		}
+	}
+	write64(cw.bf, calcOffset)
+}
+
+// isRecord returns true if the variable has the unlimited dimension.
+func (saved *savedVar) isRecord() bool {
+	return len(saved.dimLengths) > 0 && saved.dimLengths[0] == 0
+}
+
+// paddedSize returns the size of the variable (or of one of its records),
+// padded to a multiple of 4.
+func (saved *savedVar) paddedSize() int64 {
 	vsize := int64(0)
 	switch saved.ty {
 	case typeDouble, typeInt64, typeUInt64:
@@ -639,16 +664,7 @@ func (cw *CDFWriter) writeVar(which int) {
 			thrower.Throw(ErrUnlimitedMustBeFirst)
 		}
 	}
-	// pad vsize
-	vsize = 4 * ((vsize + 3) / 4)
-	cw.writeNumber(int64(vsize))
-	saved.vsize = vsize
-
-	calcOffset := cw.begin
-	for i := range which {
-		calcOffset += cw.vars[i].vsize
-	}
-	write64(cw.bf, calcOffset)
+	return 4 * ((vsize + 3) / 4)
 }
 
 func (cw *CDFWriter) computeAttributeSize(attrs api.AttributeMap) int64 {
-- 
2.43.0


From 5b8defcb6cb6295718cad282fc250182401637ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 03/21] fix: CDF writer refuses ragged, duplicate and
 unsupported variables when they are added, and without side effects

---
 netcdf/cdf/cdfwriter.go | 112 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 104 insertions(+), 8 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index d1d1cd0..843b56f 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -11,6 +11,7 @@ import (
 	"math"
 	"os"
 	"reflect"
+	"slices"
 
 	"github.com/batchatco/go-native-netcdf/internal"
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
@@ -51,6 +52,7 @@ var (
 	ErrInvalidName          = errors.New("invalid name")
 	ErrAttribute            = errors.New("invalid attribute")
 	ErrEmptySlice           = errors.New("empty slice encountered")
+	ErrTooManyUnlimited     = errors.New("only one unlimited dimension is supported")
 )
 
 func (c *countedWriter) Count() int64 {
@@ -280,6 +282,12 @@ func (cw *CDFWriter) getDimLengthsHelper(
 	default:
 		return dims, kind
 	}
+	switch t.Kind() {
+	case reflect.Array, reflect.Slice, reflect.String:
+	default:
+		logger.Info("Unknown type", t.Kind())
+		thrower.Throw(ErrUnknownType)
+	}
 	vLen := int64(rv.Len())
 	dims = append(dims, vLen)
 	switch t.Kind() {
@@ -320,6 +328,9 @@ func (cw *CDFWriter) getDimLengthsHelper(
 
 func (cw *CDFWriter) getDimLengths(val any, dimNames []string) ([]int64, int) {
 	v := reflect.ValueOf(val)
+	if !v.IsValid() {
+		thrower.Throw(ErrUnknownType)
+	}
 	dims := make([]int64, 0)
 	return cw.getDimLengthsHelper(v, dims, dimNames)
 }
@@ -398,9 +409,66 @@ func (cw *CDFWriter) CreateGroup(name string) (api.Writer, error) {
 	return nil, api.ErrUnsupported
 }
 
+// checkShape makes sure that all the parts of the value have the given lengths, and
+// that the elements are of a type that can be stored.
+func checkShape(rv reflect.Value, dimLengths []int64, ty int) {
+	if ty == typeChar {
+		// strings may be shorter than the dimension: they are padded.
+		if len(dimLengths) <= 1 {
+			if rv.Kind() != reflect.String {
+				thrower.Throw(ErrUnknownType)
+			}
+			if rv.Type() != reflect.TypeFor[string]() && len(dimLengths) == 1 {
+				thrower.Throw(ErrUnknownType)
+			}
+			return
+		}
+	} else if len(dimLengths) == 0 {
+		return
+	}
+	if int64(rv.Len()) != dimLengths[0] {
+		thrower.Throw(ErrDimensionSize)
+	}
+	if ty != typeChar && len(dimLengths) == 1 {
+		// the innermost slices are written as a whole
+		t := rv.Type()
+		if t.Kind() != reflect.Slice || t.Elem().PkgPath() != "" || t.Name() != "" {
+			thrower.Throw(ErrUnknownType)
+		}
+		return
+	}
+	for i := range rv.Len() {
+		checkShape(rv.Index(i), dimLengths[1:], ty)
+	}
+}
+
+// countUnlimited returns the number of unlimited dimensions there would be with the
+// given ones added.
+func (cw *CDFWriter) countUnlimited(newDims map[string]int64) int {
+	count := 0
+	for _, length := range cw.dimLengths {
+		if length == 0 {
+			count++
+		}
+	}
+	for _, length := range newDims {
+		if length == 0 {
+			count++
+		}
+	}
+	return count
+}
+
 // AddVar adds a variable to be written out.
 // Use util.NewOrderedMap to create attribute maps for the variable.
 func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
+	version := cw.version
+	defer func() {
+		if err != nil {
+			// a refused variable must not have any effect
+			cw.version = version
+		}
+	}()
 	defer thrower.RecoverError(&err)
 
 	if !internal.IsValidNetCDFName(name) {
@@ -409,13 +477,29 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	if !hasValidNames(vr.Attributes) {
 		return ErrInvalidName
 	}
+	for i := range cw.vars {
+		if cw.vars[i].name == name {
+			return ErrDuplicateVariable
+		}
+	}
 	cw.checkV5Attributes(vr.Attributes)
 	dimLengths, ty := cw.getDimLengths(vr.Values, vr.Dimensions)
+	checkShape(reflect.ValueOf(vr.Values), dimLengths, ty)
 	switch ty {
 	case typeUByte, typeUShort, typeUInt, typeUInt64, typeInt64:
 		cw.version = 5
 	}
+	if len(vr.Dimensions) > len(dimLengths) {
+		return ErrDimensionSize
+	}
+	// The caller's slice is not modified.
+	vr.Dimensions = slices.Clone(vr.Dimensions)
+	newDims := make(map[string]int64)
+	var newNames []string
 	for i := range dimLengths {
+		if i > 0 && dimLengths[i] == 0 {
+			return ErrUnlimitedMustBeFirst
+		}
 		var dimName string
 		if i < len(vr.Dimensions) {
 			dimName = vr.Dimensions[i]
@@ -424,24 +508,37 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 			if ty == typeChar && i == len(dimLengths)-1 {
 				dimName = fmt.Sprintf("_stringlen_%s", name)
 			} else {
-				dimName = fmt.Sprintf("_dimid_%d", cw.nextID)
+				dimName = fmt.Sprintf("_dimid_%d", cw.nextID+int64(len(newNames)))
+			}
+			if i < len(vr.Dimensions) {
+				vr.Dimensions[i] = dimName
+			} else {
+				vr.Dimensions = append(vr.Dimensions, dimName)
 			}
-			vr.Dimensions = append(vr.Dimensions, dimName)
 		}
 
-		dimName = vr.Dimensions[i]
 		currentLength, has := cw.dimLengths[dimName]
+		if !has {
+			currentLength, has = newDims[dimName]
+		}
 		if has {
 			if dimLengths[i] != currentLength {
 				thrower.Throw(ErrDimensionSize)
 			}
 		} else {
-			cw.dimLengths[dimName] = dimLengths[i]
-			cw.dimIds[dimName] = cw.nextID
-			cw.dimNames = append(cw.dimNames, dimName)
-			cw.nextID++
+			newDims[dimName] = dimLengths[i]
+			newNames = append(newNames, dimName)
 		}
 	}
+	if cw.countUnlimited(newDims) > 1 {
+		return ErrTooManyUnlimited
+	}
+	for _, dimName := range newNames {
+		cw.dimLengths[dimName] = newDims[dimName]
+		cw.dimIds[dimName] = cw.nextID
+		cw.dimNames = append(cw.dimNames, dimName)
+		cw.nextID++
+	}
 	cw.vars = append(cw.vars, savedVar{name, vr.Values, ty, dimLengths,
 		vr.Dimensions, vr.Attributes})
 	return nil
@@ -593,7 +690,6 @@ func (cw *CDFWriter) checkV5Attributes(attrs api.AttributeMap) {
 
 		case []uint64, uint64, []int64, int64, []uint8, uint8, []uint16, uint16, []uint32, uint32:
 			cw.version = 5
-			return
 
 		default:
 			logger.Errorf("invalid attribute %#v", v)
-- 
2.43.0


From f4a3a6cba97572120b948de82bb2a7ac16c9a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 04/21] fix: CDF writer sizes string variables by the longest
 string of all rows

---
 netcdf/cdf/cdfwriter.go | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 843b56f..600b463 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -293,18 +293,8 @@ func (cw *CDFWriter) getDimLengthsHelper(
 	switch t.Kind() {
 	case reflect.Array, reflect.Slice:
 		if t.Elem().Kind() == reflect.String {
-			// special case to longest string
-			maxLen := int64(0)
-			for i := range int(vLen) {
-				if int64(rv.Index(i).Len()) > maxLen {
-					maxLen = int64(rv.Index(i).Len())
-				}
-			}
-			if maxLen == 0 {
-				thrower.Throw(ErrEmptySlice)
-			}
-			dims = append(dims, maxLen)
-			return dims, typeChar
+			// the last dimension is found by getDimLengths
+			return dims, typeStrings
 		}
 		if vLen == 0 {
 			// minimal support for unlimited, when it is the only dimension.
@@ -332,9 +322,33 @@ func (cw *CDFWriter) getDimLengths(val any, dimNames []string) ([]int64, int) {
 		thrower.Throw(ErrUnknownType)
 	}
 	dims := make([]int64, 0)
-	return cw.getDimLengthsHelper(v, dims, dimNames)
+	dims, ty := cw.getDimLengthsHelper(v, dims, dimNames)
+	if ty == typeStrings {
+		// special case to longest string
+		maxLen := longestString(v)
+		if maxLen == 0 {
+			thrower.Throw(ErrEmptySlice)
+		}
+		return append(dims, maxLen), typeChar
+	}
+	return dims, ty
 }
 
+// longestString returns the length of the longest string in nested slices of strings.
+func longestString(rv reflect.Value) int64 {
+	if rv.Kind() == reflect.String {
+		return int64(rv.Len())
+	}
+	maxLen := int64(0)
+	for i := range rv.Len() {
+		maxLen = max(maxLen, longestString(rv.Index(i)))
+	}
+	return maxLen
+}
+
+// typeStrings is a sentinel value, meaning that the value is nested slices of strings.
+const typeStrings = -1
+
 func (cw *CDFWriter) scalarKind(goKind reflect.Kind) int {
 	switch goKind {
 
-- 
2.43.0


From 89a1de5923654b0e257da4b3cfabeda460c4f0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 05/21] fix: CDF record variables: slices not starting at 0,
 and missing data is filled

---
 netcdf/cdf/cdf.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 8700213..7d0a6aa 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -905,19 +905,18 @@ func newSeekReader(file io.ReadSeeker, offset int64) io.Reader {
 }
 
 func (cdf *CDF) newRecordReader(v *variable, start int64, size int64) io.Reader {
-	readers := make([]io.Reader, cdf.numRecs)
-
-	for i := uint64(0); i < uint64(cdf.numRecs) && size > 0; i++ {
-		increment := int64(i) * int64(cdf.recSize)
-		if start > increment {
-			continue
-		}
-		offset := int64(v.begin) + increment
-		begin := offset + start
-		thisSize := v.vsize
-		readers[i] = io.LimitReader(newSeekReader(cdf.file, begin), thisSize)
+	// The data is numRecs pieces of v.vsize bytes each: find the ones which are needed.
+	var readers []io.Reader
+
+	for size > 0 {
+		record := start / v.vsize
+		skip := start % v.vsize
+		thisSize := min(size, v.vsize-skip)
+		offset := int64(v.begin) + record*int64(cdf.recSize) + skip
+		readers = append(readers, io.LimitReader(
+			makeFillValueReader(*v, newSeekReader(cdf.file, offset)), thisSize))
+		start += thisSize
 		size -= thisSize
-		start = 0
 	}
 	return io.MultiReader(readers...)
 }
-- 
2.43.0


From b3fe5c91c7b54d8a37a70b72559e38b3df7c3227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:26 +0000
Subject: [PATCH 06/21] fix: CDF slices are checked against the bounds of the
 variable

---
 netcdf/cdf/cdf.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 7d0a6aa..5032f9c 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -643,13 +643,14 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 		length = int64(dimLengths[0])
 	}
 	getSlice := func(begin, end int64) (any, error) {
-		if end < begin {
+		if end < begin || begin < 0 || end > length {
 			return nil, errors.New("invalid slice parameters")
 		}
 		var nChunks int64
 		switch {
 		case len(dimLengths) == 0:
 			// scalar
+			begin = 0
 			nChunks = 1
 		case dimLengths[0] == 0:
 			// unlimited
@@ -747,10 +748,13 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 			return nil, ErrTooManyDimensions
 		}
 		for i := range begin {
-			if end[i] < begin[i] {
+			if end[i] < begin[i] || begin[i] < 0 || end[i] > int64(dimLengths[i]) {
 				return nil, errors.New("invalid slice parameters")
 			}
 		}
+		if len(dimLengths) == 0 {
+			return getSlice(0, length)
+		}
 		// Optimize: only read the required range of the first dimension from disk
 		partialData, err := getSlice(begin[0], end[0])
 		if err != nil {
-- 
2.43.0


From 1f2af1119b1b2be50403771aa2a9d227e22e04ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 07/21] fix: CDF characters: scalars above 127, empty slices
 and multi-dimensional slices of strings

---
 internal/slicer.go |  4 ++++
 netcdf/cdf/cdf.go  | 17 +++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/internal/slicer.go b/internal/slicer.go
index 9939390..f1134f6 100644
--- a/internal/slicer.go
+++ b/internal/slicer.go
@@ -104,6 +104,10 @@ func sliceRecursive(v reflect.Value, dims []uint64, begin, end []int64) reflect.
 		}
 		return sliced
 	}
+	// The innermost dimension of characters is a string
+	if v.Kind() == reflect.String && len(dims) == 1 {
+		return v.Slice(int(begin[0]), int(end[0]))
+	}
 	// For scalars or base types at the end of recursion
 	return v
 }
diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 5032f9c..4d97a2c 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -925,11 +925,20 @@ func (cdf *CDF) newRecordReader(v *variable, start int64, size int64) io.Reader
 	return io.MultiReader(readers...)
 }
 
-func emptySlice(v any, dimLengths []uint64) any {
+func emptySlice(v any, dimLengths []uint64, vType uint32) any {
 	top := reflect.ValueOf(v)
 	elemType := top.Type().Elem()
+	nDims := len(dimLengths)
+	if vType == typeChar {
+		// the innermost dimension is in the strings
+		elemType = reflect.TypeFor[string]()
+		nDims--
+		if nDims == 0 {
+			return ""
+		}
+	}
 	var empty reflect.Value
-	for range len(dimLengths) {
+	for range nDims {
 		empty = reflect.MakeSlice(reflect.SliceOf(elemType), 0, 0)
 		elemType = empty.Type()
 	}
@@ -948,7 +957,7 @@ func (cdf *CDF) convert(data any, dimLengths []uint64, vType uint32) any {
 
 		case typeChar:
 			v := data.([]byte)
-			return string(v[0])
+			return string(v[:1])
 
 		case typeShort:
 			v := data.([]int16)
@@ -1106,7 +1115,7 @@ func (cdf *CDF) convert(data any, dimLengths []uint64, vType uint32) any {
 
 	v := reflect.ValueOf(data)
 	if v.Len() == 0 {
-		return emptySlice(data, dimLengths)
+		return emptySlice(data, dimLengths, vType)
 	}
 	if len(dimLengths) == 0 {
 		elem := v.Index(0)
-- 
2.43.0


From 78cfd3457e079e28abe0c4d05f0e26073ccd97ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 08/21] fix: CDF _FillValue of character variables and of the
 wrong type

---
 netcdf/cdf/cdf.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 4d97a2c..542832c 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -1192,6 +1192,21 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 			userFV = val.Index(0).Interface()
 		}
 	}
+	wantType := goType(v.vType)
+	if v.vType == typeChar {
+		// characters are stored as strings
+		if str, ok := userFV.(string); ok {
+			if len(str) != 1 {
+				thrower.Throw(ErrFillValue)
+			}
+			userFV = str[0]
+		}
+		wantType = "uint8"
+	}
+	if hasUserFV && fmt.Sprintf("%T", userFV) != wantType {
+		logger.Warn("ignoring _FillValue of the wrong type: ", v.name)
+		hasUserFV = false
+	}
 	var fillValue []byte
 	switch v.vType {
 	case typeFloat:
-- 
2.43.0


From 05ca8ab395f682ad27abdcbfb3a0227574e7f238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 09/21] fix: OrderedMap keeps each key once and does not share
 its storage with the caller

---
 netcdf/util/orderedmap.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/netcdf/util/orderedmap.go b/netcdf/util/orderedmap.go
index ff9fe1f..051489a 100644
--- a/netcdf/util/orderedmap.go
+++ b/netcdf/util/orderedmap.go
@@ -4,6 +4,7 @@ package util
 import (
 	"errors"
 	"fmt"
+	"maps"
 	"reflect"
 	"slices"
 	"strconv"
@@ -53,16 +54,18 @@ func NewOrderedMap(keys []string, values map[string]any) (*OrderedMap, error) {
 	visibleKeys := []string{}
 	visibleKeys = append(visibleKeys, keys...)
 
+	// The map must not share anything with its caller.
 	return &OrderedMap{
-		keys:        keys,
-		values:      values,
+		keys:        slices.Clone(keys),
+		values:      maps.Clone(values),
 		visibleKeys: visibleKeys,
 		hiddenKeys:  map[string]bool{}}, nil
 }
 
 // Add adds a key/value pair to an ordered map at the end.
 func (om *OrderedMap) Add(name string, val any) {
-	if !om.hiddenKeys[name] {
+	_, has := om.values[name]
+	if !om.hiddenKeys[name] && !has {
 		om.keys = append(om.keys, name)
 		om.visibleKeys = append(om.visibleKeys, name)
 	}
-- 
2.43.0


From 7179b574ce9549ddb7165a9048338ea3f7c36555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 10/21] fix: HDF5 writer writes the global heap first, in
 collections of at most 65535 objects

Dimension scales refer to it for their strings, and the objects themselves
refer to other objects. The reference of a dimension no longer shares its key
with a string, and the order of the objects does not change from run to run.
---
 netcdf/hdf5/hdf5writer.go   | 253 ++++++++++++++++++------------------
 netcdf/hdf5/writer_utils.go |  25 +---
 2 files changed, 135 insertions(+), 143 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index ddc9f2d..58bd81b 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"maps"
 	"os"
 	"reflect"
 	"slices"
@@ -26,8 +27,8 @@ type h5Var struct {
 	attributes      api.AttributeMap
 	addr            uint64
 	isDimScale      bool
-	vlenHeapIndices []uint32            // heap indices for vlen elements
-	attrVlenIndices map[string][]uint32 // per-attribute vlen heap indices
+	vlenHeapIndices []heapRef            // where the vlen elements are
+	attrVlenIndices map[string][]heapRef // per-attribute vlen heap indices
 }
 
 type h5Group struct {
@@ -36,15 +37,26 @@ type h5Group struct {
 	vars            map[string]*h5Var
 	attributes      api.AttributeMap
 	addr            uint64
-	attrVlenIndices map[string][]uint32 // per-attribute vlen heap indices
+	attrVlenIndices map[string][]heapRef // per-attribute vlen heap indices
+}
+
+// heapRef is where an object of the global heap is.
+type heapRef struct {
+	addr  uint64 // of the collection
+	index uint32 // in the collection
 }
 
 type h5GlobalHeap struct {
-	addr    uint64
-	objects [][]byte
-	indices map[string]uint32
+	addr    uint64             // of the open collection
+	count   int                // objects in the open collection
+	strings map[string]heapRef // strings already in the heap
+	dimRefs map[string]heapRef // dimension name → object with its reference
+	dimPos  map[string]int     // dimension name → position of that reference in the file
 }
 
+// maxHeapObjects is how many objects there can be in one collection.
+const maxHeapObjects = 65535
+
 type h5Message struct {
 	mType uint16
 	data  []byte
@@ -59,7 +71,7 @@ type HDF5Writer struct {
 	closed          bool
 	dimAddrs        map[string]uint64 // dimension name → dim scale variable OH address
 	byteOrder       binary.ByteOrder
-	vlenHeapIndices []uint32 // per-variable vlen heap indices during data write
+	vlenHeapIndices []heapRef // per-variable vlen heap indices during data write
 	vlenPos         int      // counter into vlenHeapIndices during data write
 }
 
@@ -78,18 +90,24 @@ func (hw *HDF5Writer) Close() (err error) {
 	// 1. Write Superblock V2 (48 bytes)
 	hw.writeSuperblockV2()
 
-	// 2. Write dimension scale variable data and OHs first,
-	//    so we know their addresses for DIMENSION_LIST references.
-	hw.writeDimScaleContents(hw.root)
-
-	// 3. Collect strings, vlen data, and dimension references, then write global heap
-	hw.heap = &h5GlobalHeap{indices: make(map[string]uint32)}
+	// 2. Write the strings, the vlen data, and room for the dimension references
+	//    to the global heap first, because everything else can refer to them.
+	hw.heap = &h5GlobalHeap{
+		strings: make(map[string]heapRef),
+		dimRefs: make(map[string]heapRef),
+		dimPos:  make(map[string]int),
+	}
 	hw.collectStrings(hw.root)
 	hw.collectVlenData(hw.root)
 	hw.collectAttrVlenData(hw.root)
 	hw.collectDimReferences(hw.root)
-	if len(hw.heap.objects) > 0 {
-		hw.writeGlobalHeap()
+	hw.closeHeapCollection()
+
+	// 3. Write dimension scale variable data and OHs, now that there are
+	//    addresses for the DIMENSION_LIST references.
+	hw.writeDimScaleContents(hw.root)
+	for dname, pos := range hw.heap.dimPos {
+		binary.LittleEndian.PutUint64(hw.buf.Bytes()[pos:], hw.dimAddrs[dname])
 	}
 
 	// 4. Write data variables and subgroups
@@ -249,10 +267,16 @@ func (hw *HDF5Writer) writeDimScaleContents(g *h5Group) {
 	}
 }
 
+// sortedNames returns the names in the map in a fixed order.
+func sortedNames[T any](m map[string]T) []string {
+	return slices.Sorted(maps.Keys(m))
+}
+
 // collectDimReferences adds global heap entries for dimension references
 // needed by DIMENSION_LIST attributes.
 func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
-	for _, v := range g.vars {
+	for _, name := range sortedNames(g.vars) {
+		v := g.vars[name]
 		if v.isDimScale {
 			continue
 		}
@@ -260,22 +284,18 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 			if dname == "" {
 				continue
 			}
-			if _, ok := hw.heap.indices["__dimref:"+dname]; ok {
-				continue
-			}
-			addr, ok := hw.dimAddrs[dname]
-			if !ok {
+			if _, ok := hw.heap.dimRefs[dname]; ok {
 				continue
 			}
-			// Store the 8-byte object reference in the global heap
-			ref := make([]byte, 8)
-			binary.LittleEndian.PutUint64(ref, addr)
-			hw.heap.objects = append(hw.heap.objects, ref)
-			hw.heap.indices["__dimref:"+dname] = uint32(len(hw.heap.objects))
+			// Store the 8-byte object reference in the global heap. The address
+			// is filled in when it is known.
+			ref, pos := hw.addHeapObject(make([]byte, 8))
+			hw.heap.dimRefs[dname] = ref
+			hw.heap.dimPos[dname] = pos
 		}
 	}
-	for _, sub := range g.groups {
-		hw.collectDimReferences(sub)
+	for _, name := range sortedNames(g.groups) {
+		hw.collectDimReferences(g.groups[name])
 	}
 }
 
@@ -533,10 +553,7 @@ func (hw *HDF5Writer) writeDataRecursive(rv reflect.Value, fixedLen int, dimRema
 	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
 		// When dimRemaining == 0, this slice is vlen data: write descriptor
 		if dimRemaining <= 0 {
-			idx := hw.vlenHeapIndices[hw.vlenPos]
-			util.MustWriteLE(hw.buf, uint32(rv.Len()))
-			util.MustWriteLE(hw.buf, hw.heap.addr)
-			util.MustWriteLE(hw.buf, idx)
+			hw.writeVlenDescriptor(hw.buf, rv.Len(), hw.vlenHeapIndices[hw.vlenPos])
 			hw.vlenPos++
 			return
 		}
@@ -556,10 +573,7 @@ func (hw *HDF5Writer) writeDataRecursive(rv reflect.Value, fixedLen int, dimRema
 		} else {
 			// VLen string
 			str := rv.String()
-			idx := hw.heap.indices[str]
-			util.MustWriteLE(hw.buf, uint32(len(str)))
-			util.MustWriteLE(hw.buf, hw.heap.addr)
-			util.MustWriteLE(hw.buf, idx)
+			hw.writeVlenDescriptor(hw.buf, len(str), hw.heap.strings[str])
 		}
 		return
 	}
@@ -592,7 +606,8 @@ func (hw *HDF5Writer) shouldUseVLen(rv reflect.Value) bool {
 }
 
 func (hw *HDF5Writer) collectStrings(g *h5Group) {
-	for _, v := range g.vars {
+	for _, name := range sortedNames(g.vars) {
+		v := g.vars[name]
 		hw.collectStringsRecursive(reflect.ValueOf(v.val))
 		if v.attributes != nil {
 			for _, k := range v.attributes.Keys() {
@@ -607,8 +622,8 @@ func (hw *HDF5Writer) collectStrings(g *h5Group) {
 			hw.collectStringsRecursive(reflect.ValueOf(val))
 		}
 	}
-	for _, sub := range g.groups {
-		hw.collectStrings(sub)
+	for _, name := range sortedNames(g.groups) {
+		hw.collectStrings(g.groups[name])
 	}
 }
 
@@ -674,15 +689,15 @@ func (hw *HDF5Writer) collectStringsActual(rv reflect.Value) {
 }
 
 func (hw *HDF5Writer) addStringToHeap(s string) {
-	if _, ok := hw.heap.indices[s]; !ok {
-		hw.heap.objects = append(hw.heap.objects, []byte(s))
-		hw.heap.indices[s] = uint32(len(hw.heap.objects))
+	if _, ok := hw.heap.strings[s]; !ok {
+		hw.heap.strings[s], _ = hw.addHeapObject([]byte(s))
 	}
 }
 
 // collectVlenData walks all variables and serializes vlen elements into the global heap.
 func (hw *HDF5Writer) collectVlenData(g *h5Group) {
-	for _, v := range g.vars {
+	for _, name := range sortedNames(g.vars) {
+		v := g.vars[name]
 		nDims := len(v.dimensions)
 		rv := reflect.ValueOf(v.val)
 		for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
@@ -693,8 +708,8 @@ func (hw *HDF5Writer) collectVlenData(g *h5Group) {
 			hw.collectVlenElements(rv, nDims, v)
 		}
 	}
-	for _, sub := range g.groups {
-		hw.collectVlenData(sub)
+	for _, name := range sortedNames(g.groups) {
+		hw.collectVlenData(g.groups[name])
 	}
 }
 
@@ -724,23 +739,21 @@ func (hw *HDF5Writer) hasVlenData(rv reflect.Value, nDims int) bool {
 	if rv.Kind() == reflect.Slice && rv.Type() != reflect.TypeOf(compound{}) && rv.Type() != reflect.TypeOf(opaque{}) {
 		return true
 	}
-	// Also check within compound fields
-	if c, ok := rv.Interface().(compound); ok {
-		for _, f := range c {
-			frv := reflect.ValueOf(f.Val)
-			if frv.Kind() == reflect.Slice && frv.Type() != reflect.TypeOf(compound{}) && frv.Type() != reflect.TypeOf(opaque{}) {
-				return true
-			}
-		}
-	}
-	return false
+	// There can be some within compound fields, too
+	return rv.Type() == reflect.TypeOf(compound{})
 }
 
 // collectVlenElements walks through the array dimensions and serializes
 // each vlen element into the global heap.
 func (hw *HDF5Writer) collectVlenElements(rv reflect.Value, dimsLeft int, v *h5Var) {
-	if e, ok := rv.Interface().(enumerated); ok {
-		hw.collectVlenElements(reflect.ValueOf(e.values), dimsLeft, v)
+	switch val := rv.Interface().(type) {
+	case compound:
+		hw.collectVlenFromValue(rv, &v.vlenHeapIndices)
+		return
+	case opaque:
+		return
+	case enumerated:
+		hw.collectVlenElements(reflect.ValueOf(val.values), dimsLeft, v)
 		return
 	}
 	if dimsLeft > 0 && (rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array) {
@@ -751,32 +764,23 @@ func (hw *HDF5Writer) collectVlenElements(rv reflect.Value, dimsLeft int, v *h5V
 	}
 	// At the vlen level: serialize this element's data
 	if rv.Kind() == reflect.Slice {
-		hw.serializeVlenElement(rv, v)
-		return
-	}
-	// Check compound fields for vlen
-	if c, ok := rv.Interface().(compound); ok {
-		for _, f := range c {
-			frv := reflect.ValueOf(f.Val)
-			if frv.Kind() == reflect.Slice && frv.Type() != reflect.TypeOf(compound{}) && frv.Type() != reflect.TypeOf(opaque{}) {
-				hw.serializeVlenElement(frv, v)
-			}
-		}
+		hw.serializeVlenToHeap(rv, &v.vlenHeapIndices)
 	}
 }
 
 // collectAttrVlenData walks all attributes (on variables and groups) and
 // serializes vlen elements into the global heap.
 func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
-	for _, v := range g.vars {
+	for _, name := range sortedNames(g.vars) {
+		v := g.vars[name]
 		if v.attributes != nil {
 			for _, k := range v.attributes.Keys() {
 				val, _ := v.attributes.Get(k)
-				var indices []uint32
+				var indices []heapRef
 				hw.collectVlenFromValue(reflect.ValueOf(val), &indices)
 				if len(indices) > 0 {
 					if v.attrVlenIndices == nil {
-						v.attrVlenIndices = make(map[string][]uint32)
+						v.attrVlenIndices = make(map[string][]heapRef)
 					}
 					v.attrVlenIndices[k] = indices
 				}
@@ -786,24 +790,24 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 	if g.attributes != nil {
 		for _, k := range g.attributes.Keys() {
 			val, _ := g.attributes.Get(k)
-			var indices []uint32
+			var indices []heapRef
 			hw.collectVlenFromValue(reflect.ValueOf(val), &indices)
 			if len(indices) > 0 {
 				if g.attrVlenIndices == nil {
-					g.attrVlenIndices = make(map[string][]uint32)
+					g.attrVlenIndices = make(map[string][]heapRef)
 				}
 				g.attrVlenIndices[k] = indices
 			}
 		}
 	}
-	for _, sub := range g.groups {
-		hw.collectAttrVlenData(sub)
+	for _, name := range sortedNames(g.groups) {
+		hw.collectAttrVlenData(g.groups[name])
 	}
 }
 
 // collectVlenFromValue recursively walks a value and serializes any vlen
 // elements (varying-length slices) to the global heap.
-func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, indices *[]uint32) {
+func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, indices *[]heapRef) {
 	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
 		rv = rv.Elem()
 	}
@@ -860,12 +864,17 @@ func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, indices *[]uint32)
 }
 
 // serializeVlenToHeap serializes a single vlen slice and adds it to the heap.
-func (hw *HDF5Writer) serializeVlenToHeap(rv reflect.Value, indices *[]uint32) {
+func (hw *HDF5Writer) serializeVlenToHeap(rv reflect.Value, indices *[]heapRef) {
 	buf := new(bytes.Buffer)
 	for i := range rv.Len() {
 		elem := rv.Index(i)
 		switch val := elem.Interface().(type) {
 		case compound:
+			// The variable-length fields of the element go first
+			var nested []heapRef
+			hw.collectVlenFromValue(elem, &nested)
+			hw.vlenHeapIndices = nested
+			hw.vlenPos = 0
 			hw.writeCompoundValue(buf, val)
 		case opaque:
 			util.MustWriteRaw(buf, []byte(val))
@@ -875,9 +884,8 @@ func (hw *HDF5Writer) serializeVlenToHeap(rv reflect.Value, indices *[]uint32) {
 			util.MustWrite(buf, hw.byteOrder, val)
 		}
 	}
-	data := buf.Bytes()
-	hw.heap.objects = append(hw.heap.objects, data)
-	*indices = append(*indices, uint32(len(hw.heap.objects)))
+	ref, _ := hw.addHeapObject(buf.Bytes())
+	*indices = append(*indices, ref)
 }
 
 // getAttributeDimensions returns the array dimensions and effective nDims
@@ -920,55 +928,53 @@ func (hw *HDF5Writer) getAttributeDimensions(val any) ([]uint64, int) {
 	return dims, nDims
 }
 
-// serializeVlenElement serializes a single vlen element and adds it to the heap.
-func (hw *HDF5Writer) serializeVlenElement(rv reflect.Value, v *h5Var) {
-	buf := new(bytes.Buffer)
-	for i := range rv.Len() {
-		elem := rv.Index(i)
-		switch val := elem.Interface().(type) {
-		case compound:
-			hw.writeCompoundValue(buf, val)
-		case opaque:
-			util.MustWriteRaw(buf, []byte(val))
-		case enumerated:
-			util.MustWrite(buf, hw.byteOrder, val.values)
-		default:
-			util.MustWrite(buf, hw.byteOrder, val)
-		}
-	}
-	data := buf.Bytes()
-	hw.heap.objects = append(hw.heap.objects, data)
-	v.vlenHeapIndices = append(v.vlenHeapIndices, uint32(len(hw.heap.objects)))
+// writeVlenDescriptor writes the length and the place of variable-length data.
+func (hw *HDF5Writer) writeVlenDescriptor(buf *bytes.Buffer, length int, ref heapRef) {
+	util.MustWriteLE(buf, uint32(length))
+	util.MustWriteLE(buf, ref.addr)
+	util.MustWriteLE(buf, ref.index)
 }
 
-func (hw *HDF5Writer) writeGlobalHeap() {
+// addHeapObject writes an object to the global heap, and returns where it is
+// in the heap, and where its data is in the file.
+func (hw *HDF5Writer) addHeapObject(obj []byte) (heapRef, int) {
 	gh := hw.heap
-
-	// Align to 8 bytes so that objects within the collection are
-	// properly aligned when using absolute buffer position for padding.
-	for (hw.buf.Len() % 8) != 0 {
-		util.MustWriteByte(hw.buf, 0)
+	if gh.count == maxHeapObjects {
+		hw.closeHeapCollection()
 	}
-	gh.addr = uint64(hw.buf.Len())
-
-	// Collection Header
-	util.MustWriteRaw(hw.buf, []byte("GCOL"))
-	util.MustWriteByte(hw.buf, 1)              // version
-	util.MustWriteRaw(hw.buf, []byte{0, 0, 0}) // reserved
-
-	sizeAddr := hw.buf.Len()
-	util.MustWriteLE(hw.buf, uint64(0)) // placeholder for size
-
-	for i, obj := range gh.objects {
-		util.MustWriteLE(hw.buf, uint16(i+1)) // index
-		util.MustWriteLE(hw.buf, uint16(0))   // ref count
-		util.MustWriteLE(hw.buf, uint32(0))   // reserved
-		util.MustWriteLE(hw.buf, uint64(len(obj)))
-		util.MustWriteRaw(hw.buf, obj)
-		// Pad object to 8 bytes
+	if gh.count == 0 {
+		// Align to 8 bytes so that objects within the collection are
+		// properly aligned when using absolute buffer position for padding.
 		for (hw.buf.Len() % 8) != 0 {
 			util.MustWriteByte(hw.buf, 0)
 		}
+		gh.addr = uint64(hw.buf.Len())
+
+		// Collection Header
+		util.MustWriteRaw(hw.buf, []byte("GCOL"))
+		util.MustWriteByte(hw.buf, 1)              // version
+		util.MustWriteRaw(hw.buf, []byte{0, 0, 0}) // reserved
+		util.MustWriteLE(hw.buf, uint64(0))        // placeholder for size
+	}
+	gh.count++
+	util.MustWriteLE(hw.buf, uint16(gh.count)) // index
+	util.MustWriteLE(hw.buf, uint16(0))        // ref count
+	util.MustWriteLE(hw.buf, uint32(0))        // reserved
+	util.MustWriteLE(hw.buf, uint64(len(obj)))
+	pos := hw.buf.Len()
+	util.MustWriteRaw(hw.buf, obj)
+	// Pad object to 8 bytes
+	for (hw.buf.Len() % 8) != 0 {
+		util.MustWriteByte(hw.buf, 0)
+	}
+	return heapRef{gh.addr, uint32(gh.count)}, pos
+}
+
+// closeHeapCollection completes the open collection of the global heap, if any.
+func (hw *HDF5Writer) closeHeapCollection() {
+	gh := hw.heap
+	if gh.count == 0 {
+		return
 	}
 
 	// The HDF5 library requires global heap collections to be at least
@@ -994,7 +1000,8 @@ func (hw *HDF5Writer) writeGlobalHeap() {
 	// Final size
 	finalSize := uint64(hw.buf.Len()) - gh.addr
 	data := hw.buf.Bytes()
-	binary.LittleEndian.PutUint64(data[sizeAddr:], finalSize)
+	binary.LittleEndian.PutUint64(data[gh.addr+8:], finalSize)
+	gh.count = 0
 }
 
 func (hw *HDF5Writer) getDimensions(val any) []uint64 {
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index f67ac72..efc40a0 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -371,10 +371,7 @@ func (hw *HDF5Writer) writeAttributeDataRecursive(buf *bytes.Buffer, rv reflect.
 	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
 		// When dimRemaining == 0, this slice is vlen: write descriptor
 		if dimRemaining <= 0 {
-			idx := hw.vlenHeapIndices[hw.vlenPos]
-			util.MustWriteLE(buf, uint32(rv.Len()))
-			util.MustWriteLE(buf, hw.heap.addr)
-			util.MustWriteLE(buf, idx)
+			hw.writeVlenDescriptor(buf, rv.Len(), hw.vlenHeapIndices[hw.vlenPos])
 			hw.vlenPos++
 			return
 		}
@@ -394,10 +391,7 @@ func (hw *HDF5Writer) writeAttributeDataRecursive(buf *bytes.Buffer, rv reflect.
 		} else {
 			// VLen string
 			str := rv.String()
-			idx := hw.heap.indices[str]
-			util.MustWriteLE(buf, uint32(len(str)))
-			util.MustWriteLE(buf, hw.heap.addr)
-			util.MustWriteLE(buf, idx)
+			hw.writeVlenDescriptor(buf, len(str), hw.heap.strings[str])
 		}
 		return
 	}
@@ -421,10 +415,7 @@ func (hw *HDF5Writer) writeCompoundValue(buf *bytes.Buffer, val compound) {
 			util.MustWrite(buf, hw.byteOrder, v)
 		case string:
 			// Vlen string descriptor
-			idx := hw.heap.indices[v]
-			util.MustWriteLE(buf, uint32(len(v)))
-			util.MustWriteLE(buf, hw.heap.addr)
-			util.MustWriteLE(buf, idx)
+			hw.writeVlenDescriptor(buf, len(v), hw.heap.strings[v])
 		case compound:
 			hw.writeCompoundValue(buf, v)
 		case opaque:
@@ -435,10 +426,7 @@ func (hw *HDF5Writer) writeCompoundValue(buf *bytes.Buffer, val compound) {
 			// Vlen sequence descriptor
 			rv := reflect.ValueOf(v)
 			if rv.Kind() == reflect.Slice {
-				idx := hw.vlenHeapIndices[hw.vlenPos]
-				util.MustWriteLE(buf, uint32(rv.Len()))
-				util.MustWriteLE(buf, hw.heap.addr)
-				util.MustWriteLE(buf, idx)
+				hw.writeVlenDescriptor(buf, rv.Len(), hw.vlenHeapIndices[hw.vlenPos])
 				hw.vlenPos++
 			} else {
 				thrower.Throw(ErrUnsupportedType)
@@ -601,10 +589,7 @@ func (hw *HDF5Writer) buildDimensionListAttribute(dimNames []string) *h5Message
 
 	// Write VLEN descriptors: for each dimension, one reference
 	for _, dname := range dimNames {
-		heapIdx := hw.heap.indices["__dimref:"+dname]
-		util.MustWriteLE(buf, uint32(1))       // length: 1 reference
-		util.MustWriteLE(buf, hw.heap.addr)    // global heap address
-		util.MustWriteLE(buf, heapIdx)         // global heap object index
+		hw.writeVlenDescriptor(buf, 1, hw.heap.dimRefs[dname]) // 1 reference
 	}
 
 	msg := h5Message{mType: 12, data: buf.Bytes()}
-- 
2.43.0


From 5c188393b9e4198a2a45c72c7326ffe25a791f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 11/21] fix: HDF5 writer refuses what the file can't represent,
 when it is added and without side effects

Variables of groups and of the root are checked alike: duplicate names, names
clashing with dimensions, reserved attributes, ragged values, dimensions reused
with another length, and messages too long for an object header. Lengths that
follow a length of 0 are those of the dimensions. Variable-length strings,
nested variable-length values of attributes and long names are written.
---
 netcdf/hdf5/errors.go        |   3 +
 netcdf/hdf5/hdf5writer.go    | 279 ++++++++++-------------------------
 netcdf/hdf5/writer_checks.go | 251 +++++++++++++++++++++++++++++++
 netcdf/hdf5/writer_utils.go  |  45 +++++-
 4 files changed, 374 insertions(+), 204 deletions(-)
 create mode 100644 netcdf/hdf5/writer_checks.go

diff --git a/netcdf/hdf5/errors.go b/netcdf/hdf5/errors.go
index 3a20a32..243ede4 100644
--- a/netcdf/hdf5/errors.go
+++ b/netcdf/hdf5/errors.go
@@ -85,4 +85,7 @@ var (
 	// ErrUnsupportedType is returned when a Go type not supported by NetCDF4
 	// is passed to the writer (e.g. bool, complex64, int).
 	ErrUnsupportedType = errors.New("unsupported type")
+
+	// ErrTooLarge is returned for values that don't fit into their place in the file
+	ErrTooLarge = errors.New("too large for the file format")
 )
diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 58bd81b..12b7ed4 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -6,11 +6,11 @@ import (
 	"errors"
 	"fmt"
 	"maps"
+	"math"
 	"os"
 	"reflect"
 	"slices"
 
-	"github.com/batchatco/go-native-netcdf/internal"
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
 	"github.com/batchatco/go-native-netcdf/netcdf/util"
 	"github.com/batchatco/go-thrower"
@@ -57,6 +57,14 @@ type h5GlobalHeap struct {
 // maxHeapObjects is how many objects there can be in one collection.
 const maxHeapObjects = 65535
 
+func newHeap() *h5GlobalHeap {
+	return &h5GlobalHeap{
+		strings: make(map[string]heapRef),
+		dimRefs: make(map[string]heapRef),
+		dimPos:  make(map[string]int),
+	}
+}
+
 type h5Message struct {
 	mType uint16
 	data  []byte
@@ -69,6 +77,8 @@ type HDF5Writer struct {
 	root            *h5Group
 	heap            *h5GlobalHeap
 	closed          bool
+	dimSizes        map[string]uint64 // dimension name → length
+	dimUnknown      map[string]bool   // dimensions without a known length so far
 	dimAddrs        map[string]uint64 // dimension name → dim scale variable OH address
 	byteOrder       binary.ByteOrder
 	vlenHeapIndices []heapRef // per-variable vlen heap indices during data write
@@ -81,6 +91,11 @@ func (hw *HDF5Writer) Close() (err error) {
 		return nil
 	}
 	hw.closed = true
+	defer func() {
+		if cerr := hw.file.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	// 0. Add NetCDF4 metadata
 	hw.addNCProperties()
@@ -92,11 +107,7 @@ func (hw *HDF5Writer) Close() (err error) {
 
 	// 2. Write the strings, the vlen data, and room for the dimension references
 	//    to the global heap first, because everything else can refer to them.
-	hw.heap = &h5GlobalHeap{
-		strings: make(map[string]heapRef),
-		dimRefs: make(map[string]heapRef),
-		dimPos:  make(map[string]int),
-	}
+	hw.heap = newHeap()
 	hw.collectStrings(hw.root)
 	hw.collectVlenData(hw.root)
 	hw.collectAttrVlenData(hw.root)
@@ -128,23 +139,22 @@ func (hw *HDF5Writer) Close() (err error) {
 	binary.LittleEndian.PutUint32(data[44:], sbChecksum)
 
 	_, err = hw.file.Write(data)
-	if err != nil {
-		return err
-	}
-	err = hw.file.Close()
 	return err
 }
 
 // addNCProperties adds the _NCProperties hidden attribute to the root group.
 func (hw *HDF5Writer) addNCProperties() {
 	const ncpValue = "version=2,github.com/batchatco/go-native-netcdf=1.0"
-	keys := hw.root.attributes.Keys()
-	keys = append(keys, ncpKey)
+	var keys []string
 	vals := make(map[string]any)
-	for _, k := range hw.root.attributes.Keys() {
+	if hw.root.attributes != nil {
+		keys = slices.Clone(hw.root.attributes.Keys())
+	}
+	for _, k := range keys {
 		v, _ := hw.root.attributes.Get(k)
 		vals[k] = v
 	}
+	keys = append(keys, ncpKey)
 	vals[ncpKey] = ncpValue
 	hw.root.attributes, _ = util.NewOrderedMap(keys, vals)
 }
@@ -172,17 +182,12 @@ func (hw *HDF5Writer) createDimensionScales(g *h5Group) {
 			if v.isDimScale {
 				continue
 			}
-			shape := hw.getDimensions(v.val)
-			for i, dname := range v.dimensions {
+			for _, dname := range v.dimensions {
 				if dname == "" || seen[dname] {
 					continue
 				}
 				seen[dname] = true
-				var size uint64
-				if i < len(shape) {
-					size = shape[i]
-				}
-				dims = append(dims, dimInfo{dname, size})
+				dims = append(dims, dimInfo{dname, hw.dimSizes[dname]})
 			}
 		}
 		var groupNames []string
@@ -401,11 +406,11 @@ func (hw *HDF5Writer) writeSuperblockV2() {
 func (hw *HDF5Writer) writeVarObjectHeaderV2(v *h5Var, dataAddr uint64, dataSize uint64) {
 	nDims := len(v.dimensions)
 	dtMsg := hw.buildDatatypeMessage(v.val, nDims)
-	rv := reflect.ValueOf(v.val)
-	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
-		rv = rv.Elem()
+	dims := make([]uint64, nDims)
+	for i, dname := range v.dimensions {
+		dims[i] = hw.dimSizes[dname]
 	}
-	dsMsg := buildDataspaceMessage(getDimensionsLimited(rv, nDims))
+	dsMsg := buildDataspaceMessage(dims)
 	layoutMsg := hw.buildLayoutMessageV2(dataAddr, dataSize)
 
 	messages := []h5Message{
@@ -450,8 +455,13 @@ func (hw *HDF5Writer) buildLinkInfoMessage() h5Message {
 func (hw *HDF5Writer) buildLinkMessage(name string, addr uint64) h5Message {
 	buf := new(bytes.Buffer)
 	util.MustWriteByte(buf, 1) // version
-	util.MustWriteByte(buf, 0) // flags
-	util.MustWriteByte(buf, byte(len(name)))
+	if len(name) <= math.MaxUint8 {
+		util.MustWriteByte(buf, 0) // flags: 1-byte size of the name
+		util.MustWriteByte(buf, byte(len(name)))
+	} else {
+		util.MustWriteByte(buf, 1) // flags: 2-byte size of the name
+		util.MustWriteLE(buf, uint16(len(name)))
+	}
 	util.MustWriteRaw(buf, []byte(name))
 	util.MustWriteLE(buf, addr)
 
@@ -705,7 +715,7 @@ func (hw *HDF5Writer) collectVlenData(g *h5Group) {
 		}
 		// Check if this variable has vlen data (more nesting than declared dims)
 		if hw.hasVlenData(rv, nDims) {
-			hw.collectVlenElements(rv, nDims, v)
+			hw.collectVlenElements(rv, nDims, &v.vlenHeapIndices)
 		}
 	}
 	for _, name := range sortedNames(g.groups) {
@@ -745,26 +755,26 @@ func (hw *HDF5Writer) hasVlenData(rv reflect.Value, nDims int) bool {
 
 // collectVlenElements walks through the array dimensions and serializes
 // each vlen element into the global heap.
-func (hw *HDF5Writer) collectVlenElements(rv reflect.Value, dimsLeft int, v *h5Var) {
+func (hw *HDF5Writer) collectVlenElements(rv reflect.Value, dimsLeft int, indices *[]heapRef) {
 	switch val := rv.Interface().(type) {
 	case compound:
-		hw.collectVlenFromValue(rv, &v.vlenHeapIndices)
+		hw.collectVlenFromValue(rv, indices)
 		return
 	case opaque:
 		return
 	case enumerated:
-		hw.collectVlenElements(reflect.ValueOf(val.values), dimsLeft, v)
+		hw.collectVlenElements(reflect.ValueOf(val.values), dimsLeft, indices)
 		return
 	}
 	if dimsLeft > 0 && (rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array) {
 		for i := range rv.Len() {
-			hw.collectVlenElements(rv.Index(i), dimsLeft-1, v)
+			hw.collectVlenElements(rv.Index(i), dimsLeft-1, indices)
 		}
 		return
 	}
 	// At the vlen level: serialize this element's data
 	if rv.Kind() == reflect.Slice {
-		hw.serializeVlenToHeap(rv, &v.vlenHeapIndices)
+		hw.serializeVlenToHeap(rv, indices)
 	}
 }
 
@@ -777,7 +787,8 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 			for _, k := range v.attributes.Keys() {
 				val, _ := v.attributes.Get(k)
 				var indices []heapRef
-				hw.collectVlenFromValue(reflect.ValueOf(val), &indices)
+				_, nDims := hw.getAttributeDimensions(val)
+				hw.collectVlenElements(reflect.ValueOf(val), nDims, &indices)
 				if len(indices) > 0 {
 					if v.attrVlenIndices == nil {
 						v.attrVlenIndices = make(map[string][]heapRef)
@@ -791,7 +802,8 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 		for _, k := range g.attributes.Keys() {
 			val, _ := g.attributes.Get(k)
 			var indices []heapRef
-			hw.collectVlenFromValue(reflect.ValueOf(val), &indices)
+			_, nDims := hw.getAttributeDimensions(val)
+				hw.collectVlenElements(reflect.ValueOf(val), nDims, &indices)
 			if len(indices) > 0 {
 				if g.attrVlenIndices == nil {
 					g.attrVlenIndices = make(map[string][]heapRef)
@@ -832,35 +844,6 @@ func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, indices *[]heapRef)
 		hw.collectVlenFromValue(reflect.ValueOf(v.values), indices)
 		return
 	}
-
-	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
-		if rv.Type() == reflect.TypeOf(compound{}) || rv.Type() == reflect.TypeOf(opaque{}) {
-			return
-		}
-		// Check if elements are slices with varying lengths (vlen)
-		if rv.Len() > 0 && rv.Index(0).Kind() == reflect.Slice {
-			isVlen := false
-			if rv.Len() > 1 {
-				firstLen := rv.Index(0).Len()
-				for i := 1; i < rv.Len(); i++ {
-					if rv.Index(i).Len() != firstLen {
-						isVlen = true
-						break
-					}
-				}
-			}
-			if isVlen {
-				for i := range rv.Len() {
-					hw.serializeVlenToHeap(rv.Index(i), indices)
-				}
-				return
-			}
-		}
-		// Regular array: recurse into elements
-		for i := range rv.Len() {
-			hw.collectVlenFromValue(rv.Index(i), indices)
-		}
-	}
 }
 
 // serializeVlenToHeap serializes a single vlen slice and adds it to the heap.
@@ -881,6 +864,14 @@ func (hw *HDF5Writer) serializeVlenToHeap(rv reflect.Value, indices *[]heapRef)
 		case enumerated:
 			util.MustWrite(buf, hw.byteOrder, val.values)
 		default:
+			if elem.Kind() == reflect.String {
+				hw.addStringToHeap(elem.String())
+				hw.writeVlenDescriptor(buf, elem.Len(), hw.heap.strings[elem.String()])
+				break
+			}
+			if !isNumber(elem.Type()) {
+				thrower.Throw(fmt.Errorf("%w: variable-length %T", ErrUnsupportedType, val))
+			}
 			util.MustWrite(buf, hw.byteOrder, val)
 		}
 	}
@@ -906,9 +897,6 @@ func (hw *HDF5Writer) getAttributeDimensions(val any) ([]uint64, int) {
 		}
 		dims = append(dims, uint64(rv.Len()))
 		nDims++
-		if rv.Len() == 0 {
-			break
-		}
 		// Check if inner elements have varying lengths (= vlen boundary)
 		if rv.Len() > 1 && rv.Index(0).Kind() == reflect.Slice {
 			firstLen := rv.Index(0).Len()
@@ -923,7 +911,7 @@ func (hw *HDF5Writer) getAttributeDimensions(val any) ([]uint64, int) {
 				break
 			}
 		}
-		rv = rv.Index(0)
+		rv = firstElement(rv)
 	}
 	return dims, nDims
 }
@@ -1004,17 +992,12 @@ func (hw *HDF5Writer) closeHeapCollection() {
 	gh.count = 0
 }
 
-func (hw *HDF5Writer) getDimensions(val any) []uint64 {
-	rv := reflect.ValueOf(val)
-	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
-		rv = rv.Elem()
-	}
-	return getDimensionsRecursive(rv)
-}
-
 func getDimensionsRecursive(rv reflect.Value) []uint64 {
 	// Unwrap enumerated to its inner values
 	if e, ok := rv.Interface().(enumerated); ok {
+		if e.values == nil {
+			return nil
+		}
 		return getDimensionsRecursive(reflect.ValueOf(e.values))
 	}
 	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
@@ -1023,21 +1006,29 @@ func getDimensionsRecursive(rv reflect.Value) []uint64 {
 			return nil
 		}
 		dims := []uint64{uint64(rv.Len())}
-		if rv.Len() > 0 {
-			inner := getDimensionsRecursive(rv.Index(0))
-			dims = append(dims, inner...)
-		}
-		return dims
+		inner := getDimensionsRecursive(firstElement(rv))
+		return append(dims, inner...)
 	}
 	return nil
 }
 
+// firstElement returns the first element of the slice, or a zero value if it is empty.
+func firstElement(rv reflect.Value) reflect.Value {
+	if rv.Len() == 0 {
+		return reflect.Zero(rv.Type().Elem())
+	}
+	return rv.Index(0)
+}
+
 // getDimensionsLimited returns dimensions up to maxDepth levels deep.
 // For vlen variables, the array nesting exceeds the declared dimensions;
 // this function stops after maxDepth levels so the excess nesting can be
 // identified as vlen data.
 func getDimensionsLimited(rv reflect.Value, maxDepth int) []uint64 {
 	if e, ok := rv.Interface().(enumerated); ok {
+		if e.values == nil {
+			return nil
+		}
 		return getDimensionsLimited(reflect.ValueOf(e.values), maxDepth)
 	}
 	if maxDepth <= 0 {
@@ -1048,72 +1039,22 @@ func getDimensionsLimited(rv reflect.Value, maxDepth int) []uint64 {
 			return nil
 		}
 		dims := []uint64{uint64(rv.Len())}
-		if rv.Len() > 0 {
-			inner := getDimensionsLimited(rv.Index(0), maxDepth-1)
-			dims = append(dims, inner...)
-		}
-		return dims
+		inner := getDimensionsLimited(firstElement(rv), maxDepth-1)
+		return append(dims, inner...)
 	}
 	return nil
 }
 
 func (hw *HDF5Writer) AddAttributes(attrs api.AttributeMap) error {
-	if !hasValidNames(attrs) {
-		return ErrInvalidName
-	}
-	if attrs != nil {
-		for _, k := range attrs.Keys() {
-			v, _ := attrs.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
-			}
-		}
-	}
-	hw.root.attributes = attrs
-	return nil
+	return hw.addAttributes(hw.root, attrs)
 }
 
 func (hw *HDF5Writer) AddVar(name string, vr api.Variable) error {
-	if !internal.IsValidNetCDFName(name) {
-		return ErrInvalidName
-	}
-	if !hasValidNames(vr.Attributes) {
-		return ErrInvalidName
-	}
-	if !isSupportedType(vr.Values) {
-		return fmt.Errorf("%w: %T", ErrUnsupportedType, vr.Values)
-	}
-	if vr.Attributes != nil {
-		for _, k := range vr.Attributes.Keys() {
-			v, _ := vr.Attributes.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
-			}
-		}
-	}
-	hw.root.vars[name] = &h5Var{
-		name:       name,
-		val:        vr.Values,
-		dimensions: vr.Dimensions,
-		attributes: vr.Attributes,
-	}
-	return nil
+	return hw.addVar(hw.root, name, vr)
 }
 
 func (hw *HDF5Writer) CreateGroup(name string) (api.Writer, error) {
-	if !internal.IsValidNetCDFName(name) {
-		return nil, ErrInvalidName
-	}
-	if g, ok := hw.root.groups[name]; ok {
-		return &groupWriter{hw: hw, group: g}, nil
-	}
-	g := &h5Group{
-		name:   name,
-		groups: make(map[string]*h5Group),
-		vars:   make(map[string]*h5Var),
-	}
-	hw.root.groups[name] = g
-	return &groupWriter{hw: hw, group: g}, nil
+	return hw.createGroup(hw.root, name)
 }
 
 type groupWriter struct {
@@ -1126,62 +1067,15 @@ func (gw *groupWriter) Close() error {
 }
 
 func (gw *groupWriter) AddAttributes(attrs api.AttributeMap) error {
-	if !hasValidNames(attrs) {
-		return ErrInvalidName
-	}
-	if attrs != nil {
-		for _, k := range attrs.Keys() {
-			v, _ := attrs.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
-			}
-		}
-	}
-	gw.group.attributes = attrs
-	return nil
+	return gw.hw.addAttributes(gw.group, attrs)
 }
 
 func (gw *groupWriter) AddVar(name string, vr api.Variable) error {
-	if !internal.IsValidNetCDFName(name) {
-		return ErrInvalidName
-	}
-	if !hasValidNames(vr.Attributes) {
-		return ErrInvalidName
-	}
-	if !isSupportedType(vr.Values) {
-		return fmt.Errorf("%w: %T", ErrUnsupportedType, vr.Values)
-	}
-	if vr.Attributes != nil {
-		for _, k := range vr.Attributes.Keys() {
-			v, _ := vr.Attributes.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
-			}
-		}
-	}
-	gw.group.vars[name] = &h5Var{
-		name:       name,
-		val:        vr.Values,
-		dimensions: vr.Dimensions,
-		attributes: vr.Attributes,
-	}
-	return nil
+	return gw.hw.addVar(gw.group, name, vr)
 }
 
 func (gw *groupWriter) CreateGroup(name string) (api.Writer, error) {
-	if !internal.IsValidNetCDFName(name) {
-		return nil, ErrInvalidName
-	}
-	if g, ok := gw.group.groups[name]; ok {
-		return &groupWriter{hw: gw.hw, group: g}, nil
-	}
-	g := &h5Group{
-		name:   name,
-		groups: make(map[string]*h5Group),
-		vars:   make(map[string]*h5Var),
-	}
-	gw.group.groups[name] = g
-	return &groupWriter{hw: gw.hw, group: g}, nil
+	return gw.hw.createGroup(gw.group, name)
 }
 
 // isSupportedType checks whether val is a type the HDF5/NetCDF4 writer can
@@ -1261,18 +1155,6 @@ func isSupportedElemType(t reflect.Type) bool {
 	return false
 }
 
-func hasValidNames(am api.AttributeMap) bool {
-	if am == nil {
-		return true
-	}
-	for _, key := range am.Keys() {
-		if !internal.IsValidNetCDFName(key) {
-			return false
-		}
-	}
-	return true
-}
-
 func OpenWriter(fileName string) (api.Writer, error) {
 	file, err := os.Create(fileName)
 	if err != nil {
@@ -1283,6 +1165,9 @@ func OpenWriter(fileName string) (api.Writer, error) {
 		file:      file,
 		buf:       new(bytes.Buffer),
 		byteOrder: util.NativeByteOrder,
+		dimSizes:  make(map[string]uint64),
+
+		dimUnknown: make(map[string]bool),
 		root: &h5Group{
 			name:       "/",
 			groups:     make(map[string]*h5Group),
diff --git a/netcdf/hdf5/writer_checks.go b/netcdf/hdf5/writer_checks.go
new file mode 100644
index 0000000..0152132
--- /dev/null
+++ b/netcdf/hdf5/writer_checks.go
@@ -0,0 +1,251 @@
+package hdf5
+
+import (
+	"bytes"
+	"fmt"
+	"math"
+	"os"
+	"reflect"
+	"slices"
+	"strings"
+
+	"github.com/batchatco/go-native-netcdf/internal"
+	"github.com/batchatco/go-native-netcdf/netcdf/api"
+	"github.com/batchatco/go-thrower"
+)
+
+// isReservedAttribute returns whether the attribute has a meaning in the file format.
+func isReservedAttribute(name string) bool {
+	switch name {
+	case "CLASS", "NAME", "DIMENSION_LIST", "REFERENCE_LIST":
+		return true
+	}
+	return false
+}
+
+// maxNameLength is for names that fit into a message of an object header.
+const maxNameLength = math.MaxUint16 - 1024
+
+func isValidName(name string) bool {
+	return internal.IsValidNetCDFName(name) && len(name) <= maxNameLength
+}
+
+// addVar adds the variable to the group, or returns an error without any effect
+// when the file can't represent it.
+func (hw *HDF5Writer) addVar(g *h5Group, name string, vr api.Variable) (err error) {
+	defer thrower.RecoverError(&err)
+	if hw.closed {
+		return os.ErrClosed
+	}
+	if !isValidName(name) {
+		return ErrInvalidName
+	}
+	if g.vars[name] != nil || g.groups[name] != nil {
+		return fmt.Errorf("%w: %q is already there", ErrInvalidName, name)
+	}
+	if !isSupportedType(vr.Values) {
+		return fmt.Errorf("%w: %T", ErrUnsupportedType, vr.Values)
+	}
+	hw.checkAttributes(vr.Attributes)
+	rv := reflect.ValueOf(vr.Values)
+	shape := getDimensionsLimited(rv, len(vr.Dimensions))
+	if len(shape) != len(vr.Dimensions) {
+		return fmt.Errorf("%w: %T has fewer than %d dimensions", ErrDimensionality,
+			vr.Values, len(vr.Dimensions))
+	}
+	dt := hw.buildDatatypeMessage(vr.Values, len(shape))
+	if len(dt) > math.MaxUint16 {
+		return ErrTooLarge
+	}
+	hw.checkElements(rv, shape, dt)
+	// The value doesn't tell the lengths that follow a length of 0
+	if i := slices.Index(shape, 0); i >= 0 {
+		shape = shape[:i+1]
+	}
+	hw.checkDimensions(g, name, vr.Dimensions, shape)
+
+	for i, size := range shape {
+		hw.dimSizes[vr.Dimensions[i]] = size
+	}
+	for _, dname := range vr.Dimensions {
+		if _, has := hw.dimSizes[dname]; !has {
+			hw.dimUnknown[dname] = true
+		}
+	}
+	g.vars[name] = &h5Var{
+		name:       name,
+		val:        vr.Values,
+		dimensions: slices.Clone(vr.Dimensions),
+		attributes: vr.Attributes,
+	}
+	return nil
+}
+
+// addAttributes sets the attributes of the group, or returns an error without any
+// effect when the file can't represent them.
+func (hw *HDF5Writer) addAttributes(g *h5Group, attrs api.AttributeMap) (err error) {
+	defer thrower.RecoverError(&err)
+	if hw.closed {
+		return os.ErrClosed
+	}
+	hw.checkAttributes(attrs)
+	g.attributes = attrs
+	return nil
+}
+
+// createGroup returns a writer for the subgroup, which is added if it isn't there yet.
+func (hw *HDF5Writer) createGroup(g *h5Group, name string) (api.Writer, error) {
+	if hw.closed {
+		return nil, os.ErrClosed
+	}
+	if !isValidName(name) {
+		return nil, ErrInvalidName
+	}
+	if sub, ok := g.groups[name]; ok {
+		return &groupWriter{hw: hw, group: sub}, nil
+	}
+	// The dimensions are in the root group
+	isDim := hw.isDimension(name)
+	if g.vars[name] != nil || g == hw.root && isDim {
+		return nil, fmt.Errorf("%w: %q is already there", ErrInvalidName, name)
+	}
+	sub := &h5Group{
+		name:   name,
+		groups: make(map[string]*h5Group),
+		vars:   make(map[string]*h5Var),
+	}
+	g.groups[name] = sub
+	return &groupWriter{hw: hw, group: sub}, nil
+}
+
+// checkDimensions throws an error if the dimensions don't have the lengths they have
+// elsewhere, or if they clash with a variable or a group.
+func (hw *HDF5Writer) checkDimensions(g *h5Group, name string, dimensions []string, shape []uint64) {
+	isCoordinate := len(dimensions) == 1 && dimensions[0] == name
+	sizes := make(map[string]uint64)
+	for i, dname := range dimensions {
+		if !isValidName(dname) {
+			thrower.Throw(fmt.Errorf("%w: dimension %q", ErrInvalidName, dname))
+		}
+		if i < len(shape) {
+			size, has := hw.dimSizes[dname]
+			if !has {
+				size, has = sizes[dname]
+			}
+			if has && size != shape[i] {
+				thrower.Throw(fmt.Errorf("%w: dimension %q has length %d, not %d",
+					ErrDimensionality, dname, size, shape[i]))
+			}
+			sizes[dname] = shape[i]
+		}
+		// The dimensions are in the root group
+		other := hw.root.vars[dname]
+		if other != nil && !(len(other.dimensions) == 1 && other.dimensions[0] == dname) ||
+			hw.root.groups[dname] != nil {
+			thrower.Throw(fmt.Errorf("%w: dimension %q is something else already",
+				ErrInvalidName, dname))
+		}
+	}
+	if g == hw.root && (hw.isDimension(name) || slices.Contains(dimensions, name)) && !isCoordinate {
+		thrower.Throw(fmt.Errorf("%w: %q is a dimension", ErrInvalidName, name))
+	}
+}
+
+// isDimension returns whether there is a dimension with that name.
+func (hw *HDF5Writer) isDimension(name string) bool {
+	_, has := hw.dimSizes[name]
+	return has || hw.dimUnknown[name]
+}
+
+// checkAttributes throws an error if the file can't represent the attributes.
+func (hw *HDF5Writer) checkAttributes(attrs api.AttributeMap) {
+	if attrs == nil {
+		return
+	}
+	for _, k := range attrs.Keys() {
+		if !isValidName(k) || isReservedAttribute(k) {
+			thrower.Throw(ErrInvalidName)
+		}
+		v, _ := attrs.Get(k)
+		if !isSupportedType(v) {
+			thrower.Throw(fmt.Errorf("%w: %T", ErrUnsupportedType, v))
+		}
+		shape, nDims := hw.getAttributeDimensions(v)
+		hw.checkElements(reflect.ValueOf(v), shape, hw.buildDatatypeMessage(v, nDims))
+		// Build the attribute in a file of its own, to see how long it gets
+		scratch := &HDF5Writer{buf: new(bytes.Buffer), byteOrder: hw.byteOrder, heap: newHeap()}
+		scratch.collectStringsRecursive(reflect.ValueOf(v))
+		scratch.collectVlenElements(reflect.ValueOf(v), nDims, &scratch.vlenHeapIndices)
+		scratch.vlenPos = 0
+		if len(scratch.buildAttributeMessage(k, v).data) > math.MaxUint16 {
+			thrower.Throw(fmt.Errorf("%w: attribute %q", ErrTooLarge, k))
+		}
+	}
+}
+
+// checkElements throws an error if the parts of the value don't all have the given
+// shape and datatype.
+func (hw *HDF5Writer) checkElements(rv reflect.Value, shape []uint64, dt []byte) {
+	if e, ok := rv.Interface().(enumerated); ok {
+		if !bytes.Equal(hw.buildEnumDatatype(e), dt) {
+			thrower.Throw(fmt.Errorf("%w: different enums", ErrUnsupportedType))
+		}
+		if len(getDimensionsRecursive(rv)) != len(shape) {
+			thrower.Throw(fmt.Errorf("%w: enum array", ErrDimensionality))
+		}
+		hw.checkElements(reflect.ValueOf(e.values), shape, dt)
+		return
+	}
+	if len(shape) > 0 {
+		if uint64(rv.Len()) != shape[0] {
+			thrower.Throw(fmt.Errorf("%w: ragged array", ErrDimensionality))
+		}
+		if len(shape) == 1 && isNumber(rv.Type().Elem()) {
+			return
+		}
+		for i := range rv.Len() {
+			hw.checkElements(rv.Index(i), shape[1:], dt)
+		}
+		return
+	}
+	switch {
+	case rv.Kind() == reflect.String:
+		// A NUL is the end of a string
+		if strings.Contains(rv.String(), "\x00") {
+			thrower.Throw(fmt.Errorf("%w: string with a NUL", ErrUnsupportedType))
+		}
+	case rv.Type() == reflect.TypeFor[compound](), rv.Type() == reflect.TypeFor[opaque]():
+		if !bytes.Equal(hw.buildDatatypeMessage(rv.Interface(), 0), dt) {
+			thrower.Throw(fmt.Errorf("%w: different compounds or opaques", ErrUnsupportedType))
+		}
+		if c, ok := rv.Interface().(compound); ok {
+			for _, f := range c {
+				hw.checkElements(reflect.ValueOf(f.Val), nil, hw.buildDatatypeMessage(f.Val, 0))
+			}
+		}
+	case rv.Kind() == reflect.Slice && !isNumber(rv.Type().Elem()):
+		switch t := rv.Type().Elem(); {
+		case t == reflect.TypeFor[compound](), t == reflect.TypeFor[opaque](),
+			t == reflect.TypeFor[enumerated](), t.Kind() == reflect.String:
+			// The datatype of the elements follows that of the variable-length type
+			for i := range rv.Len() {
+				hw.checkElements(rv.Index(i), nil, dt[8:])
+			}
+		default:
+			thrower.Throw(fmt.Errorf("%w: variable-length %s", ErrUnsupportedType, rv.Type()))
+		}
+	}
+}
+
+// isNumber returns whether values of the type are written as they are.
+func isNumber(t reflect.Type) bool {
+	switch t.Kind() {
+	case reflect.Int8, reflect.Uint8,
+		reflect.Int16, reflect.Uint16,
+		reflect.Int32, reflect.Uint32,
+		reflect.Int64, reflect.Uint64,
+		reflect.Float32, reflect.Float64:
+		return true
+	}
+	return false
+}
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index efc40a0..143370f 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -3,6 +3,7 @@ package hdf5
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
 	"reflect"
 
 	"github.com/batchatco/go-native-netcdf/netcdf/util"
@@ -147,13 +148,16 @@ func calcFieldSize(val any) int {
 	return 0
 }
 
-// writeEnc writes a 1, 2, or 4 byte encoded integer for compound byte offsets.
+// writeEnc writes a 1, 2, 3, or 4 byte encoded integer for compound byte offsets.
 func writeEnc(buf *bytes.Buffer, val uint32, totalSize uint32) {
 	switch {
 	case totalSize < 256:
 		util.MustWriteByte(buf, byte(val))
 	case totalSize < 65536:
 		util.MustWriteLE(buf, uint16(val))
+	case totalSize < 16777216:
+		util.MustWriteLE(buf, uint16(val))
+		util.MustWriteByte(buf, byte(val>>16))
 	default:
 		util.MustWriteLE(buf, val)
 	}
@@ -169,15 +173,30 @@ func navigateToFirst(rv reflect.Value, depth int) reflect.Value {
 		if rv.Kind() != reflect.Slice && rv.Kind() != reflect.Array {
 			break
 		}
-		if rv.Len() == 0 {
-			return reflect.Zero(rv.Type().Elem())
-		}
-		rv = rv.Index(0)
+		rv = firstElement(rv)
 	}
 	return rv
 }
 
+// firstNonEmpty returns the first slice at the given depth that isn't empty. If
+// there isn't any, it returns an empty one.
+func firstNonEmpty(rv reflect.Value, depth int) reflect.Value {
+	if depth == 0 {
+		return rv
+	}
+	for i := range rv.Len() {
+		elem := firstNonEmpty(rv.Index(i), depth-1)
+		if elem.Len() > 0 {
+			return elem
+		}
+	}
+	return navigateToFirst(rv, depth)
+}
+
 func buildOpaqueDatatype(size int) []byte {
+	if size == 0 {
+		thrower.Throw(fmt.Errorf("%w: opaque of unknown size", ErrUnsupportedType))
+	}
 	buf := new(bytes.Buffer)
 	util.MustWriteByte(buf, 0x15) // version 1, class 5 (opaque)
 	util.MustWriteByte(buf, 0x00) // tag length = 0
@@ -190,6 +209,10 @@ func buildOpaqueDatatype(size int) []byte {
 func (hw *HDF5Writer) buildCompoundDatatype(val compound) []byte {
 	buf := new(bytes.Buffer)
 
+	if len(val) == 0 {
+		thrower.Throw(fmt.Errorf("%w: compound of unknown type", ErrUnsupportedType))
+	}
+
 	// Compute total compound size
 	totalSize := 0
 	for _, f := range val {
@@ -230,6 +253,10 @@ func (hw *HDF5Writer) buildCompoundDatatype(val compound) []byte {
 func (hw *HDF5Writer) buildEnumDatatype(e enumerated) []byte {
 	buf := new(bytes.Buffer)
 
+	if e.values == nil {
+		thrower.Throw(fmt.Errorf("%w: enum of unknown type", ErrUnsupportedType))
+	}
+
 	// Determine base integer type from the inner values
 	rv := reflect.ValueOf(e.values)
 	for rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
@@ -259,6 +286,8 @@ func (hw *HDF5Writer) buildEnumDatatype(e enumerated) []byte {
 		baseSize, signed = 8, true
 	case uint64:
 		baseSize, signed = 8, false
+	default:
+		thrower.Throw(fmt.Errorf("%w: enum of unknown type", ErrUnsupportedType))
 	}
 
 	nMembers := len(e.names)
@@ -308,6 +337,9 @@ func (hw *HDF5Writer) buildVlenSequenceDatatype(rv reflect.Value) []byte {
 	}
 	allDims := getDimensionsRecursive(elemRv)
 	elemDt := hw.buildDatatypeMessage(elemVal, len(allDims))
+	if elemRv.Kind() == reflect.String {
+		elemDt = hw.buildVLenStringDatatype()
+	}
 	util.MustWriteRaw(buf, elemDt)
 	return buf.Bytes()
 }
@@ -475,8 +507,7 @@ func (hw *HDF5Writer) buildDatatypeMessage(val any, nDims int) []byte {
 
 	// If still a slice after consuming declared dims, it's vlen
 	if t.Kind() == reflect.Slice {
-		elem := navigateToFirst(rv, dimsStripped)
-		return hw.buildVlenSequenceDatatype(elem)
+		return hw.buildVlenSequenceDatatype(firstNonEmpty(rv, dimsStripped))
 	}
 
 	// Scalar types
-- 
2.43.0


From 9eed26788ecddd0a89973d555a4d8c5ff5ebaaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:02 +0000
Subject: [PATCH 12/21] fix: HDF5 types: many members, opaque tags, arrays,
 character arrays and empty sequences are read exactly

---
 netcdf/hdf5/array.go         | 10 +++++++---
 netcdf/hdf5/compound.go      |  3 ++-
 netcdf/hdf5/enum.go          |  5 ++---
 netcdf/hdf5/floatingPoint.go |  5 +++--
 netcdf/hdf5/hdf5.go          | 29 ++++++++++-------------------
 netcdf/hdf5/opaque.go        |  7 ++-----
 netcdf/hdf5/string.go        | 19 +++++++++++++++----
 netcdf/hdf5/types.go         |  1 +
 netcdf/hdf5/vlen.go          | 35 ++++++++---------------------------
 9 files changed, 50 insertions(+), 64 deletions(-)

diff --git a/netcdf/hdf5/array.go b/netcdf/hdf5/array.go
index db710d0..3e4aac2 100644
--- a/netcdf/hdf5/array.go
+++ b/netcdf/hdf5/array.go
@@ -51,13 +51,17 @@ func (arrayManagerType) alloc(hr heapReader, c caster, bf io.Reader, attr *attri
 	arrayAttr := attr.children[0]
 	logger.Info("child dimensions=", arrayAttr.dimensions)
 	logger.Info("childlength=", arrayAttr.length)
-	newDimensions := append(dimensions, arrayAttr.dimensions...)
-	arrayAttr.dimensions = newDimensions
+	// The type is shared by all the reads, so don't change it here.
+	newDimensions := make([]uint64, 0, len(dimensions)+len(arrayAttr.dimensions))
+	newDimensions = append(newDimensions, dimensions...)
+	newDimensions = append(newDimensions, arrayAttr.dimensions...)
+	elemAttr := *arrayAttr
+	elemAttr.dimensions = newDimensions
 	logger.Info("new dimensions=", newDimensions)
 	cbf := bf.(remReader)
 	logger.Info(cbf.Count(), "child length", arrayAttr.length)
 	logger.Info(cbf.Count(), "array", "class", arrayAttr.class)
-	return getDataAttr(hr, c, cbf, *arrayAttr)
+	return getDataAttr(hr, c, cbf, elemAttr)
 }
 
 func (arrayManagerType) defaultFillValue(obj *object, objFillValue []byte, undefinedFillValue bool) []byte {
diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index 02ac2a4..84727b5 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -68,7 +68,7 @@ func (compoundManagerType) parse(hr heapReader, c caster, attr *attribute, bitFi
 	logger.Info("attr.dtversion", attr.dtversion)
 	assert(attr.dtversion >= 1 && attr.dtversion <= maxDTVersion,
 		fmt.Sprintln("compound datatype version", attr.dtversion, "not supported"))
-	nmembers := bitFields & 0b11111111
+	nmembers := bitFields & 0xffff
 	logger.Info("* number of members:", nmembers)
 
 	padding := 7
@@ -125,6 +125,7 @@ func (compoundManagerType) parse(hr heapReader, c caster, attr *attribute, bitFi
 				logger.Info("dimension", i, "size", dsize)
 				compoundAttribute.dimensions[i] = uint64(dsize)
 			}
+			assert(dimensionality <= 4, "compound members have at most 4 dimensions")
 			compoundAttribute.dimensions = compoundAttribute.dimensions[:dimensionality]
 		}
 
diff --git a/netcdf/hdf5/enum.go b/netcdf/hdf5/enum.go
index 029142d..d46266f 100644
--- a/netcdf/hdf5/enum.go
+++ b/netcdf/hdf5/enum.go
@@ -114,13 +114,12 @@ func (enumManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields
 	var enumAttr attribute
 	printDatatype(hr, c, bf, nil, 0, &enumAttr)
 	logger.Info("blen now", bf.Count())
-	numberOfMembers := bitFields & 0b11111111
+	numberOfMembers := bitFields & 0xffff
 	logger.Info("number of members=", numberOfMembers)
 	names := make([]string, numberOfMembers)
 	padding := 7
 	switch attr.dtversion {
-	case dtversionStandard:
-	case dtversionArray:
+	case dtversionStandard, dtversionArray:
 		break
 	default:
 		padding = 0
diff --git a/netcdf/hdf5/floatingPoint.go b/netcdf/hdf5/floatingPoint.go
index 1951315..a1b3931 100644
--- a/netcdf/hdf5/floatingPoint.go
+++ b/netcdf/hdf5/floatingPoint.go
@@ -147,8 +147,9 @@ func (floatingPointManagerType) parse(hr heapReader, c caster, attr *attribute,
 		return
 	}
 	logger.Info("data len", df.Rem())
-	assert(df.Rem() >= int64(attr.length), "floating-point data short")
-	attr.df = newResetReaderSave(df, df.Rem())
+	if df.Rem() >= int64(attr.length) {
+		attr.df = newResetReaderSave(df, df.Rem())
+	}
 }
 
 func allocFloats(bf io.Reader, dimLengths []uint64, endian binary.ByteOrder) any {
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 69bcdca..25f1d38 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -326,6 +326,9 @@ func readEnc(r io.Reader, e uint8) uint64 {
 		return uint64(read8(r))
 	case 2:
 		return uint64(read16(r))
+	case 3:
+		low := read16(r)
+		return uint64(low) | uint64(read8(r))<<16
 	case 4:
 		return uint64(read32(r))
 	case 8:
@@ -1554,7 +1557,8 @@ func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64) {
 		logger.Infof("simple dataspace")
 	case 2:
 		logger.Infof("null dataspace")
-		// let it go
+		// It has no elements, not even the one that a scalar has.
+		return []uint64{0}, 0
 	default:
 		fail(fmt.Sprintf("unknown dstype %d", dstype))
 	}
@@ -1584,9 +1588,6 @@ func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64) {
 		}
 		fail("permutation indices not supported")
 	}
-	if version == 2 && dstype == 2 && bf.Rem() > 0 {
-		logger.Info("Null v2 flags=", flags, "d=", d, "rem=", bf.Rem())
-	}
 	return ret, count
 }
 
@@ -3150,6 +3151,10 @@ func undoScalarAttribute(value any) any {
 	}
 	// All other slices are undone
 	v := reflect.ValueOf(value)
+	if _, has = value.(compound); has {
+		// A compound with one member isn't an array.
+		return value
+	}
 	if v.Kind() == reflect.Slice && v.Len() == 1 {
 		v = v.Index(0)
 	}
@@ -3428,21 +3433,7 @@ func (h5 *HDF5) ListVariables() []string {
 }
 
 func emptySlice(v any) reflect.Value {
-	top := reflect.ValueOf(v)
-	elemType := top.Type().Elem()
-	slices := 0
-	// count how many slices we need to make
-	for elemType.Kind() == reflect.Slice {
-		elemType = elemType.Elem()
-		slices++
-	}
-	// here's one slice
-	empty := reflect.MakeSlice(reflect.SliceOf(elemType), 0, 0)
-	// here are the rest
-	for i := 1; i < slices; i++ {
-		empty = reflect.MakeSlice(reflect.SliceOf(empty.Type()), 0, 0)
-	}
-	return empty
+	return reflect.MakeSlice(reflect.TypeOf(v), 0, 0)
 }
 
 func undoInterfaces(v any) reflect.Value {
diff --git a/netcdf/hdf5/opaque.go b/netcdf/hdf5/opaque.go
index 50b9cfb..15a297a 100644
--- a/netcdf/hdf5/opaque.go
+++ b/netcdf/hdf5/opaque.go
@@ -44,11 +44,8 @@ func (opaqueManagerType) defaultFillValue(obj *object, objFillValue []byte, unde
 }
 
 func (opaqueManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader, df remReader) {
-	if bf.Rem() == 0 {
-		logger.Info("No properties for opaque")
-		return
-	}
-	plen := int(bf.Rem())
+	// The length of the tag is in the bit field, there may be other properties after it.
+	plen := int(bitFields & 0xff)
 	tag := make([]byte, plen)
 	// The tag is a user-defined ASCII string describing the opaque data (per the HDF5 spec).
 	read(bf, tag)
diff --git a/netcdf/hdf5/string.go b/netcdf/hdf5/string.go
index 4721ee1..ac5a3a3 100644
--- a/netcdf/hdf5/string.go
+++ b/netcdf/hdf5/string.go
@@ -40,10 +40,16 @@ func (stringManagerType) parse(hr heapReader, c caster, attr *attribute, bitFiel
 		logger.Infof("no data")
 		return
 	}
-	b := make([]byte, df.Rem())
+	logger.Infof("* string padding=%d set=%d %s", padding, set, attr.name)
+	if len(attr.dimensions) > 0 {
+		// More than one string, or an array of characters.
+		if df.Rem() >= int64(attr.length) {
+			attr.df = newResetReaderSave(df, df.Rem())
+		}
+		return
+	}
+	b := make([]byte, min(df.Rem(), int64(attr.length)))
 	read(df, b)
-	logger.Infof("* string padding=%d set=%d b[%s]=%s", padding, set,
-		attr.name, getString(b))
 	attr.value = getString(b)
 }
 
@@ -74,7 +80,12 @@ func allocRegularStrings(bf io.Reader, dimLengths []uint64, dtlen uint32) any {
 		return values
 	}
 	ty := reflect.TypeOf("")
-	vals := makeSlices(ty, dimLengths)
+	sliceDims := dimLengths
+	if dtlen == 1 {
+		// The innermost dimension of a character array becomes the string.
+		sliceDims = dimLengths[:len(dimLengths)-1]
+	}
+	vals := makeSlices(ty, sliceDims)
 	for i := uint64(0); i < thisDim; i++ {
 		vals.Index(int(i)).Set(reflect.ValueOf(allocRegularStrings(bf, dimLengths[1:], dtlen)))
 	}
diff --git a/netcdf/hdf5/types.go b/netcdf/hdf5/types.go
index e1e8734..4648d4d 100644
--- a/netcdf/hdf5/types.go
+++ b/netcdf/hdf5/types.go
@@ -125,6 +125,7 @@ func printDatatype(hr heapReader, c caster, bf remReader, df remReader, objCount
 	dtversion := (b0 >> 4) & 0b1111
 	dtclass := b0 & 0b1111
 	dtlength := read32(bf)
+	assert(int(dtclass) < len(dispatch), fmt.Sprint("Unknown class: ", dtclass))
 	logger.Infof("* length=%d dtlength=%d dtversion=%d class=%s flags=%s",
 		bf.Rem(), dtlength,
 		dtversion, typeNames[dtclass], binaryToString(uint64(bitFields)))
diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index bbf8091..8781575 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -212,34 +212,15 @@ func allocVariable(hr heapReader, c caster, bf io.Reader, dimLengths []uint64, a
 		}
 		return sl.Interface()
 	}
+	// An empty sequence gives the type of the elements, even if there aren't any.
+	empty := newResetReaderFromBytes(make([]byte, 16))
+	t := reflect.TypeOf(allocVariable(hr, c, empty, nil, attr, cast))
 	thisDim := dimLengths[0]
-	if len(dimLengths) == 1 {
-		// For scalars, this can be faster using binary.Read
-		vals := make([]any, thisDim)
-		for i := range thisDim {
-			logger.Info("Alloc inner", i, "of", thisDim)
-			vals[i] = allocVariable(hr, c, bf, dimLengths[1:], attr, cast)
-		}
-		assert(vals[0] != nil, "we never return nil")
-		t := reflect.ValueOf(vals[0]).Type()
-		vals2 := reflect.MakeSlice(reflect.SliceOf(t), int(thisDim), int(thisDim))
-		for i := range int(thisDim) {
-			vals2.Index(i).Set(reflect.ValueOf(vals[i]))
-		}
-		return vals2.Interface()
-	}
-
-	// TODO: we sometimes know the type (float32) and can do something smarter here
-
-	vals := make([]any, thisDim)
-	for i := range thisDim {
-		logger.Info("Alloc outer", i, "of", thisDim)
-		vals[i] = allocVariable(hr, c, bf, dimLengths[1:], attr, cast)
-	}
-	t := reflect.ValueOf(vals[0]).Type()
-	vals2 := reflect.MakeSlice(reflect.SliceOf(t), int(thisDim), int(thisDim))
+	vals := makeSlices(t, dimLengths)
 	for i := range int(thisDim) {
-		vals2.Index(i).Set(reflect.ValueOf(vals[i]))
+		logger.Info("Alloc", i, "of", thisDim)
+		val := allocVariable(hr, c, bf, dimLengths[1:], attr, cast)
+		vals.Index(i).Set(reflect.ValueOf(val))
 	}
-	return vals2.Interface()
+	return vals.Interface()
 }
-- 
2.43.0


From 836599c75caccc3bf7e379f26fd5423dde067322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:44 +0000
Subject: [PATCH 13/21] fix: HDF5 storage: blocks, chunks, filters and fill
 values are assembled by coordinates, and slices are checked

---
 netcdf/hdf5/hdf5.go    | 437 ++++++++++++++---------------------------
 netcdf/hdf5/readers.go | 255 ++++++++----------------
 netcdf/hdf5/segment.go |  49 -----
 netcdf/hdf5/string.go  |  25 ++-
 4 files changed, 245 insertions(+), 521 deletions(-)
 delete mode 100644 netcdf/hdf5/segment.go

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 25f1d38..7a565e8 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2,6 +2,7 @@
 package hdf5
 
 import (
+	"bytes"
 	"compress/zlib"
 	"encoding/binary"
 	"errors"
@@ -180,9 +181,6 @@ type attribute struct {
 	isSlice       bool
 	firstDim      int64 // first dimension if getting slice (fake objects only)
 	lastDim       int64 // last dimension if getting slice (fake objects only)
-	isSliceMD     bool
-	firstDims     []int64 // for MD slicing
-	lastDims      []int64 // for MD slicing
 	endian        binary.ByteOrder
 	dtversion     uint8
 	creationOrder uint64
@@ -933,29 +931,17 @@ func (h5 *HDF5) readBTreeLeaf(parent *object, bta uint64, numRec uint64, recordS
 	h5.checkChecksum(bta, nbytes)
 }
 
-func calculateFlatOffsetFromKeys(offsets []uint64, dimensions []uint64, dtSize uint64) uint64 {
-	dso := uint64(0)
-	sizes := dtSize
-	rank := len(dimensions)
-	if len(offsets) < rank {
-		rank = len(offsets)
-	}
-	for d := rank - 1; d >= 0; d-- {
-		dso += offsets[d] * sizes
-		sizes *= dimensions[d]
-	}
-	return dso
-}
-
+// readBTreeNode reads the B-tree of a chunked variable, and adds the chunks that have any of the
+// rows in [firstRow, lastRow) to the data blocks.
 func (h5 *HDF5) readBTreeNode(parent *object, bta uint64, dtSize uint64,
-	numberOfElements uint64, dimensionality uint8, firstOffset, lastOffset uint64) {
+	numberOfElements uint64, dimensionality uint8, firstRow, lastRow uint64) {
 	h5.readBTreeNodeAny(parent, bta, true /*isTop*/, dtSize, numberOfElements,
-		dimensionality, firstOffset, lastOffset)
+		dimensionality, firstRow, lastRow)
 }
 
 func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, isTop bool,
 	dtSize uint64, numberOfElements uint64, dimensionality uint8,
-	firstOffset, lastOffset uint64) {
+	firstRow, lastRow uint64) {
 	bf := h5.newSeek(bta, 24) // adjust later
 	checkMagic(bf, 4, "TREE")
 	nodeType := read8(bf)
@@ -967,59 +953,50 @@ func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, isTop bool,
 	if leftAddress != invalidAddress || rightAddress != invalidAddress {
 		assert(!isTop, "Siblings unexpected")
 	}
-	dimDataSize := 0
-	if dimensionality > 0 {
-		dimDataSize = 8 * int(dimensionality-1)
-	}
+	dimDataSize := 8 * int(dimensionality-1)
 
 	type btreeEntry struct {
 		sizeChunk  uint32
 		filterMask uint32
 		offsets    []uint64
 		addr       uint64
-		flatOffset uint64
 	}
 
-	entries := make([]btreeEntry, entriesUsed+1)
+	entries := make([]btreeEntry, int(entriesUsed)+1)
 	bf = h5.newSeek(bta+uint64(bf.Count()),
 		int64((int(entriesUsed)*(24+dimDataSize))+16+dimDataSize))
 
-	for i := uint16(0); i <= entriesUsed; i++ {
+	for i := range entries {
 		entries[i].sizeChunk = read32(bf)
 		entries[i].filterMask = read32(bf)
 		entries[i].offsets = make([]uint64, dimensionality-1)
-		for d := uint8(0); d < dimensionality-1; d++ {
+		for d := range entries[i].offsets {
 			entries[i].offsets[d] = read64(bf)
 		}
 		read64(bf) // last offset must be zero
-		if i < entriesUsed {
+		if i < int(entriesUsed) {
 			entries[i].addr = read64(bf)
 		}
-		if parent.objAttr.dimensions != nil {
-			entries[i].flatOffset = calculateFlatOffsetFromKeys(entries[i].offsets,
-				parent.objAttr.dimensions, dtSize)
-		}
 	}
 
-	for i := uint16(0); i < entriesUsed; i++ {
-		low := entries[i].flatOffset
-		high := entries[i+1].flatOffset
-		if nodeLevel == 0 {
-			high = low + numberOfElements*dtSize
-		}
-
-		// Prune if the requested range [firstOffset, lastOffset) does not overlap
-		// with the range covered by this entry [low, high).
-		if low >= lastOffset || (high > 0 && high <= firstOffset) {
+	chunkRows := parent.objAttr.layout[0]
+	for i := range int(entriesUsed) {
+		// The keys are in row-major order, so the first dimension never decreases.
+		if entries[i].offsets[0] >= lastRow {
 			continue
 		}
-
 		if nodeLevel > 0 {
+			// The chunks of this child come before the next key.
+			if i+1 < int(entriesUsed) && entries[i+1].offsets[0]+chunkRows <= firstRow {
+				continue
+			}
 			h5.readBTreeNodeAny(parent, entries[i].addr, false /*not top*/, dtSize,
-				numberOfElements, dimensionality, firstOffset, lastOffset)
+				numberOfElements, dimensionality, firstRow, lastRow)
+			continue
+		}
+		if entries[i].offsets[0]+chunkRows <= firstRow {
 			continue
 		}
-
 		pending := dataBlock{offset: entries[i].addr, length: uint64(entries[i].sizeChunk), filterMask: entries[i].filterMask}
 		pending.dsLength = numberOfElements * dtSize
 		pending.offsets = entries[i].offsets
@@ -1619,7 +1596,9 @@ func (h5 *HDF5) readFilterPipeline(obj *object, obf io.Reader) {
 			b := make([]byte, nameLength)
 			read(bf, b)
 			logger.Infof("filter name=%s", getString(b))
-			padBytes(bf, 7)
+			if version == 1 {
+				padBytes(bf, 7)
+			}
 		}
 		cdv := make([]uint32, nCDV)
 		for i := range int(nCDV) {
@@ -1696,6 +1675,7 @@ func (h5 *HDF5) readDataLayout(parent *object, obf io.Reader) {
 			layout := make([]uint64, int(dimensionality)-1)
 			for i := range int(dimensionality) - 1 {
 				size := read32(bf)
+				assertError(size > 0, ErrLayout, "chunks can't be empty")
 				numberOfElements *= uint64(size)
 				layout[i] = uint64(size)
 				logger.Info("layout", i, "size", size)
@@ -1844,12 +1824,20 @@ func (h5 *HDF5) readFillValue(bf io.Reader) []byte {
 
 	logger.Info("fill value defined=", fillValueDefined)
 
-	if version > 1 && fillValueDefined == 0 {
+	if version == 2 && fillValueDefined == 0 {
+		logger.Infof("undefined fill value")
+		return fillValueUndefinedConstant // only the pointer is used
+	}
+	if version == 3 && fillValueDefined == 0 {
 		logger.Infof("default fill value")
 		return nil // default is zero
 	}
 	// Read the fill value
 	len := read32(bf)
+	if version < 3 && int32(len) < 0 {
+		logger.Infof("undefined fill value")
+		return fillValueUndefinedConstant // only the pointer is used
+	}
 	if len == 0 {
 		logger.Infof("zero length fill value")
 		return nil // zero-length, maybe they meant zero
@@ -1972,13 +1960,14 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 		case typeDatatype:
 			obj.isGroup = false
 			logger.Info("Datatype")
-			// Preserve dimensions and noDf from the existing objAttr across the datatype re-read.
-			save := obj.objAttr.dimensions
-			noDf := obj.objAttr.noDf
+			// Preserve what the other messages set in the existing objAttr, as the messages
+			// can be in any order.
+			save := obj.objAttr
 			obj.objAttr = h5.readDatatype(f)
 			logger.Info("dimensions are", obj.objAttr.dimensions)
-			obj.objAttr.dimensions = save
-			obj.objAttr.noDf = noDf
+			obj.objAttr.dimensions = save.dimensions
+			obj.objAttr.layout = save.layout
+			obj.objAttr.noDf = save.noDf
 
 		case typeDataStorageFillValueOld:
 			obj.isGroup = false
@@ -2454,207 +2443,103 @@ func makeSlices(ty reflect.Type, dimLengths []uint64) reflect.Value {
 	return reflect.MakeSlice(sliceType, int(dimLengths[0]), int(dimLengths[0]))
 }
 
-func readAll(bf io.Reader, b []byte) (uint64, error) {
-	tot := uint64(0)
-	for {
-		n, err := bf.Read(b)
-		if n == 0 {
-			break
-		}
-		tot += uint64(n)
-		b = b[n:]
-		if err == io.EOF {
-			return tot, err
-		}
-		if err != nil {
-			logger.Error("Some other error", err)
-			return tot, err
-		}
+// getRows returns the rows (indices of the first dimension) to read, and the size of each in bytes.
+// A scalar has one row.
+func getRows(attr *attribute) (firstRow, lastRow, rowSize uint64) {
+	rowSize = uint64(attr.length)
+	if len(attr.dimensions) == 0 {
+		return 0, 1, rowSize
+	}
+	for _, d := range attr.dimensions[1:] {
+		rowSize *= d
 	}
-	return tot, nil
+	if attr.isSlice {
+		return uint64(attr.firstDim), uint64(attr.lastDim), rowSize
+	}
+	return 0, attr.dimensions[0], rowSize
 }
 
+// newRecordReader returns a reader for the data of the object, or the slice of it that was asked
+// for. Data that isn't stored is filled in.
 func (h5 *HDF5) newRecordReader(obj *object) remReader {
-	nBlocks := len(obj.dataBlocks)
-	size := uint64(calcAttrSize(obj.objAttr))
+	attr := obj.objAttr
+	firstRow, lastRow, rowSize := getRows(attr)
+	size := (lastRow - firstRow) * rowSize
+	logger.Info("size=", size, "dtlength=", attr.length, "dims=", attr.dimensions)
 	if size == 0 {
 		return newResetReaderFromBytes([]byte{})
 	}
-	logger.Info("size=", size, "dtlength=", obj.objAttr.length, "dims=", obj.objAttr.dimensions)
-	firstOffset := uint64(0)
-	lastOffset := uint64(size)
-	segments := newSegments()
-	if obj.objAttr.isSlice && !needsLayoutReader(obj.objAttr) {
-		if len(obj.objAttr.dimensions) > 0 && obj.objAttr.dimensions[0] > 0 {
-			dimSize := size / obj.objAttr.dimensions[0]
-			firstOffset = uint64(obj.objAttr.firstDim) * dimSize
-			lastOffset = uint64(obj.objAttr.lastDim) * dimSize
-			size = lastOffset - firstOffset
+	if len(attr.layout) > 0 {
+		assert(len(attr.layout) == len(attr.dimensions), "rank of chunks is the rank of the data")
+		if len(obj.dataBlocks) == 0 && obj.btreeAddr != 0 {
+			h5.readBTreeNode(obj, obj.btreeAddr, obj.chunkSize, obj.numberOfElements,
+				obj.dimensionality, firstRow, lastRow)
 		}
+		return newResetReader(newLayoutReader(h5, obj), int64(size))
 	}
-	if nBlocks == 0 && obj.btreeAddr != 0 {
-		h5.readBTreeNode(obj, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality, firstOffset, lastOffset)
-		nBlocks = len(obj.dataBlocks)
-	}
-	if nBlocks == 0 {
-		logger.Info("No blocks, filling only", size, obj.objAttr.dimensions)
-		return makeFillValueReader(obj, nil, int64(size))
-	}
-	offset := uint64(0)
+	firstOffset := firstRow * rowSize
+	lastOffset := lastRow * rowSize
+	readers := make([]io.Reader, 0)
+	offset := uint64(0) // of the block
 	for _, val := range obj.dataBlocks {
-		dsLength := val.dsLength
-		skipBegin := uint64(0)
-		skipEnd := uint64(0)
-		valOffset := val.offset
-
-		if len(obj.objAttr.layout) > 0 {
-			offset = calculateFlatOffset(val.offsets, obj.objAttr.dimensions, obj.objAttr.layout, uint64(obj.objAttr.length))
-		}
-
-		if offset+dsLength <= firstOffset {
-			if len(obj.objAttr.layout) == 0 {
-				offset += dsLength
-			}
-			continue
-		}
-		if offset >= lastOffset {
-			break
-		}
-		if firstOffset >= offset && firstOffset < offset+dsLength {
-			skipBegin = (firstOffset - offset)
-		}
-		if offset+dsLength > lastOffset {
-			skipEnd = offset + dsLength - lastOffset
-		}
-
-		var bf io.Reader
-		canSeek := false
-		if val.rawData != nil {
-			thisSize := int64(dsLength - skipEnd)
-			bf = newResetReaderFromBytes(val.rawData[:thisSize])
-		} else {
-			logger.Infof("offset=0x%x length=%d offset+length=0x%x filesize=0x%x",
-				valOffset, val.length,
-				valOffset+val.length, h5.fileSize)
-			bf = h5.newSeek(valOffset, int64(val.length))
-			canSeek = true
-		}
-
-		// Filters must be applied in the reverse order of their definition.
-		// We pre-calculate the expected data size at each stage of the pipeline
-		// to ensure filters like Fletcher32 and Shuffle receive the correct input/output sizes.
-		targetSize := make([]uint64, len(obj.filters))
-		curr := dsLength
-		for j := range obj.filters {
-			targetSize[j] = curr
-			if (1<<uint(j))&val.filterMask == 0 {
-				if obj.filters[j].kind == filterFletcher32 {
-					curr += 4
-				}
-			}
-		}
-
-		inputSize := val.length
-		for j := len(obj.filters) - 1; j >= 0; j-- {
-			f := obj.filters[j]
-			if (1<<uint(j))&val.filterMask != 0 {
-				continue
-			}
-			switch f.kind {
-			case filterFletcher32:
-				bf = fletcher32Reader(bf, inputSize)
-				inputSize -= 4
-			case filterDeflate:
-				zbf, err := zlib.NewReader(bf)
-				if err != nil {
-					failError(ErrUnknownCompression, fmt.Sprintf("unknown compression: %v", err))
-				}
-				// If there are more filters, we don't know the size yet.
-				// But shuffle usually needs it.
-				bf = newResetReader(zbf, int64(targetSize[j]))
-				inputSize = targetSize[j]
-				canSeek = false
-			case filterShuffle:
-				shuffleParam := uint32(0)
-				if len(f.cdv) > 0 {
-					shuffleParam = f.cdv[0]
-				}
-				bf = newUnshuffleReader(bf, targetSize[j], shuffleParam)
-				inputSize = targetSize[j]
-				canSeek = false
-			}
-		}
-		if skipBegin > 0 {
-			if canSeek {
-				thisSize := int64(dsLength - (skipBegin + skipEnd))
-				bf = h5.newSeek(valOffset+skipBegin, thisSize)
+		begin := max(offset, firstOffset)
+		end := min(offset+val.length, lastOffset)
+		if begin < end {
+			skipBegin := begin - offset
+			length := end - begin
+			if val.rawData != nil {
+				readers = append(readers, bytes.NewReader(val.rawData[skipBegin:skipBegin+length]))
 			} else {
-				skip(bf, int64(skipBegin))
+				readers = append(readers, h5.newSeek(val.offset+skipBegin, int64(length)))
 			}
+			firstOffset = end
 		}
-		thisSeg := &segment{
-			offset: offset + skipBegin,
-			length: dsLength - (skipBegin + skipEnd),
-			r:      bf,
-		}
-		segments.append(thisSeg)
-		if len(obj.objAttr.layout) == 0 {
-			offset += dsLength
-		}
+		offset += val.length
 	}
-	segments.sort()
-	readers := make([]io.Reader, 0)
-	off := firstOffset
-	logger.Info("firstoffset=", firstOffset, "lastOffset=", lastOffset)
-	for i := range segments.Len() {
-		seg := segments.get(i)
-		r := seg.r
-		if seg.offset > off {
-			// Hole
-			holeSize := seg.offset - off
-			readers = append(readers, makeFillValueReader(obj, nil, int64(holeSize)))
-			off = seg.offset
-		}
-		assert(seg.offset <= off, "discontiguous data")
-		logger.Infof("Reader at offset 0x%x length %d", seg.offset, seg.length)
-		readers = append(readers, newResetReader(r, int64(seg.length)))
-		off += seg.length
-	}
-	if size > off {
-		extra := size - off
-		logger.Infof("Fill value reader at end offset 0x%x length %d",
-			off, extra)
-		readers = append(readers, makeFillValueReader(obj, nil, int64(extra)))
-		off += extra
-	}
-	assertError(off <= lastOffset, ErrCorrupted,
-		fmt.Sprintf("this only happens in corrupted files (2) %d %d", off, lastOffset))
-	return newResetReader(io.MultiReader(readers...), int64(size))
-}
-
-func (h5 *HDF5) newMaybeLayoutRecordReader(obj *object) io.Reader {
-	r := h5.newRecordReader(obj)
-	if needsLayoutReader(obj.objAttr) {
-		return newLayoutReader(r, obj)
+	if firstOffset < lastOffset {
+		// What isn't there is filled.
+		readers = append(readers, makeFillValueReader(obj, nil, int64(lastOffset-firstOffset)))
 	}
-	return r
+	return newResetReader(io.MultiReader(readers...), int64(size))
 }
 
-func needsLayoutReader(attr *attribute) bool {
-	if len(attr.layout) == 0 {
-		return false
+// readChunk reads one chunk and undoes the filters. They are undone in the reverse order of their
+// definition, because they were applied in the order of their definition.
+func (h5 *HDF5) readChunk(obj *object, val dataBlock) []byte {
+	data := make([]byte, val.length)
+	if val.length > 0 {
+		read(h5.newSeek(val.offset, int64(val.length)), data)
 	}
-	for i := range attr.dimensions {
-		if attr.dimensions[i]%attr.layout[i] != 0 {
-			return true
+	for j := len(obj.filters) - 1; j >= 0; j-- {
+		if (1<<uint(j))&val.filterMask != 0 {
+			continue
 		}
-	}
-	for i := range len(attr.layout) - 1 {
-		if attr.layout[i] != 1 {
-			return true
+		f := obj.filters[j]
+		var r io.Reader
+		switch f.kind {
+		case filterFletcher32:
+			r = fletcher32Reader(bytes.NewReader(data), uint64(len(data)))
+		case filterDeflate:
+			zbf, err := zlib.NewReader(bytes.NewReader(data))
+			if err != nil {
+				failError(ErrUnknownCompression, fmt.Sprintf("unknown compression: %v", err))
+			}
+			r = zbf
+		case filterShuffle:
+			shuffleParam := uint32(0)
+			if len(f.cdv) > 0 {
+				shuffleParam = f.cdv[0]
+			}
+			r = newUnshuffleReader(bytes.NewReader(data), uint64(len(data)), shuffleParam)
+		default:
+			fail(fmt.Sprint("unknown filter ", f.kind))
 		}
+		var err error
+		data, err = io.ReadAll(r)
+		thrower.ThrowIfError(err)
 	}
-	return false
+	assertError(uint64(len(data)) >= val.dsLength, ErrCorrupted, "chunk is too short")
+	return data[:val.dsLength]
 }
 
 func makeFillValueReader(obj *object, bf io.Reader, length int64) remReader {
@@ -2663,7 +2548,7 @@ func makeFillValueReader(obj *object, bf io.Reader, length int64) remReader {
 	if obj.fillValue == nil {
 		objFillValue = obj.fillValueOld
 	}
-	if objFillValue != nil {
+	if len(objFillValue) > 0 {
 		if &objFillValue[0] == &fillValueUndefinedConstant[0] {
 			logger.Info("Using the undefined fill value")
 			undefinedFillValue = true
@@ -2692,38 +2577,7 @@ func makeFillValueReader(obj *object, bf io.Reader, length int64) remReader {
 }
 
 func (h5 *HDF5) getData(obj *object) any {
-	attr := obj.objAttr
-	sz := calcAttrSize(obj.objAttr)
-	bf := h5.newMaybeLayoutRecordReader(obj)
-	logger.Info("about to getdataattr rem=", bf.(remReader).Rem(), "size=", sz)
-	if int64(sz) > bf.(remReader).Rem() {
-		length := int64(sz) - bf.(remReader).Rem()
-		logger.Info("Add fill value reader", length)
-		bf = makeFillValueReader(obj, bf, int64(sz))
-	}
-	var bff io.Reader
-	if attr.isSlice {
-		assert(attr.lastDim >= attr.firstDim, "bad slice params")
-		var chunkSize int64
-		switch {
-		case len(attr.dimensions) == 0:
-			chunkSize = 1
-		case attr.dimensions[0] == 0:
-			chunkSize = 0
-		default:
-			chunkSize = int64(sz) / int64(attr.dimensions[0])
-			if needsLayoutReader(attr) {
-				// The above calculation could be wrong due to layout chunks.
-				// The calculation is not simple and is a TODO.
-				logger.Info("var slices with chunked layout not fully implemented")
-			}
-		}
-		sliceSize := chunkSize * (attr.lastDim - attr.firstDim)
-		bff = newResetReader(bf, sliceSize)
-	} else {
-		bff = newResetReader(bf, int64(sz))
-	}
-	return getDataAttr(h5, h5, bff, *attr)
+	return getDataAttr(h5, h5, h5.newRecordReader(obj), *obj.objAttr)
 }
 
 func getDataAttr(hr heapReader, c caster, bf io.Reader, attr attribute) any {
@@ -2740,12 +2594,6 @@ func getDataAttr(hr heapReader, c caster, bf io.Reader, attr attribute) any {
 			nd[0] = uint64(attr.lastDim - attr.firstDim)
 		}
 		dimensions = nd
-	} else if attr.isSliceMD {
-		nd := make([]uint64, len(dimensions))
-		for i := range dimensions {
-			nd[i] = uint64(attr.lastDims[i] - attr.firstDims[i])
-		}
-		dimensions = nd
 	}
 	return alloc(attr.class, hr, c, bf, &attr, dimensions)
 }
@@ -3285,33 +3133,24 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		return nil, ErrNotFound
 	}
 	h5.sortAttrList(found)
-	d := int64(0)
-	fakeEnd := false
-	switch {
-	case found.objAttr.dimensions == nil:
-		d = 1
-		fakeEnd = true
-	case len(found.objAttr.dimensions) == 0:
-		d = 1
-		fakeEnd = true
-	default:
+	d := int64(1)
+	isScalar := len(found.objAttr.dimensions) == 0
+	if !isScalar {
 		d = int64(found.objAttr.dimensions[0])
 	}
 	getSlice := func(begin, end int64) (any, error) {
-		if begin == 0 && end == 1 && fakeEnd {
-			data := h5.getData(found)
-			if data == nil {
-				return nil, ErrNotFound
-			}
-			return data, nil
-		}
-		if end < begin {
+		if end < begin || begin < 0 || end > d {
 			return nil, errors.New("invalid slice parameters")
 		}
+		// The getters share the object, so the slice goes into a copy.
 		fakeObj := *found
-		fakeObj.objAttr.isSlice = true
-		fakeObj.objAttr.firstDim = begin
-		fakeObj.objAttr.lastDim = end
+		fakeAttr := *found.objAttr
+		fakeObj.objAttr = &fakeAttr
+		if !isScalar {
+			fakeAttr.isSlice = true
+			fakeAttr.firstDim = begin
+			fakeAttr.lastDim = end
+		}
 		data := h5.getData(&fakeObj)
 		if data == nil {
 			return nil, ErrNotFound
@@ -3323,10 +3162,13 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 			return nil, ErrDimensionality
 		}
 		for i := range begin {
-			if end[i] < begin[i] {
+			if end[i] < begin[i] || begin[i] < 0 || end[i] > int64(found.objAttr.dimensions[i]) {
 				return nil, errors.New("invalid slice parameters")
 			}
 		}
+		if isScalar {
+			return getSlice(0, d)
+		}
 		// Optimize: only read the required range of the first dimension from disk
 		partialData, err := getSlice(begin[0], end[0])
 		if err != nil {
@@ -3344,6 +3186,13 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		copy(newEnd, end)
 		newEnd[0] = end[0] - begin[0]
 
+		if e, ok := partialData.(enumerated); ok {
+			e.values, err = internal.SliceMD(e.values, newDims, newBegin, newEnd)
+			return e, err
+		}
+		if found.objAttr.class == typeString && found.objAttr.length == 1 {
+			return trimStrings(partialData, newDims, newBegin, newEnd), nil
+		}
 		return internal.SliceMD(partialData, newDims, newBegin, newEnd)
 	}
 	dims := h5.getDimensions(found)
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 28f222b..087f909 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -93,6 +93,9 @@ func (fl *fletcher) Count() int64 {
 }
 
 func (fl *fletcher) Read(b []byte) (int, error) {
+	if fl.readChecksum {
+		return 0, io.EOF
+	}
 	thisLen := uint64(len(b))
 	if thisLen+fl.count > fl.size-4 {
 		thisLen = (fl.size - 4) - fl.count
@@ -101,9 +104,13 @@ func (fl *fletcher) Read(b []byte) (int, error) {
 	if err != nil && err != io.EOF {
 		return 0, err
 	}
+	// The carry goes around, so a sum is zero only if everything added is zero.
+	fold := func(sum uint32) uint32 {
+		return (sum & 0xffff) + (sum >> 16)
+	}
 	addToSums := func(val uint16) {
-		fl.sum1 = (fl.sum1 + uint32(val)) % 65535
-		fl.sum2 = (fl.sum1 + fl.sum2) % 65535
+		fl.sum1 = fold(fl.sum1 + uint32(val))
+		fl.sum2 = fold(fl.sum1 + fl.sum2)
 	}
 	for i := 0; i < n; i++ {
 		var val uint16
@@ -293,7 +300,7 @@ func newUnshuffleReader(r io.Reader, size uint64, shuffleParam uint32) remReader
 }
 
 func unshuffle(val []byte, n uint32) {
-	if n == 1 {
+	if n <= 1 {
 		return // avoids allocation
 	}
 	// shuffle params are never very large in practice, so this isn't wasteful
@@ -305,7 +312,8 @@ func unshuffle(val []byte, n uint32) {
 			tmp[j*int(n)+i] = val[i*nelems+j]
 		}
 	}
-	copy(val, tmp)
+	// What is left over isn't shuffled.
+	copy(val, tmp[:nelems*int(n)])
 }
 
 func (r *unshuffleReader) Read(p []byte) (int, error) {
@@ -316,14 +324,10 @@ func (r *unshuffleReader) Read(p []byte) (int, error) {
 	if thisLen > r.size {
 		thisLen = r.size
 	}
-	var err error
 	if r.b == nil {
 		r.b = make([]byte, r.size)
-		tot, err := readAll(r.r, r.b)
-		unshuffle(r.b[:tot], r.shuffleParam)
-		if err != nil {
-			assert(err == io.EOF, err.Error())
-		}
+		read(r.r, r.b)
+		unshuffle(r.b, r.shuffleParam)
 	}
 	copy(p, r.b[:thisLen])
 	r.b = r.b[thisLen:]
@@ -331,45 +335,25 @@ func (r *unshuffleReader) Read(p []byte) (int, error) {
 	if r.size == 0 {
 		return int(thisLen), io.EOF
 	}
-	return int(thisLen), err
+	return int(thisLen), nil
 }
 
+// layoutReader puts the chunks together, one row of chunks at a time.
 type layoutReader struct {
-	r           remReader
-	obj         *object
-	buf         []byte
-	size        int64
-	count       uint64 // number bytes produced
-	stripeIndex int
-}
-
-// calcChunkSize calculates the size of a chunk
-// Returns 0 if not chunked
-func calcChunkSize(attr *attribute) uint64 {
-	chunkSize := uint64(1)
-	for _, v := range attr.layout {
-		chunkSize *= v
-	}
-	return chunkSize
+	h5      *HDF5
+	obj     *object
+	chunks  map[uint64][]dataBlock // by the number of the row of chunks
+	row     uint64                 // the next row to read
+	lastRow uint64
+	buf     []byte
 }
 
 // calcAttrSize computes the total size of an object in bytes.
-// If it is chunked, it may be larger than the data size.
 func calcAttrSize(attr *attribute) uint64 {
-	dtLength := uint64(attr.length)
-	if len(attr.layout) == 0 {
-		return calcDataSize(attr) * dtLength // not chunked
-	}
-	totalChunks := uint64(1)
-	for i := range attr.dimensions {
-		gi := (attr.dimensions[i] + attr.layout[i] - 1) / attr.layout[i]
-		totalChunks *= gi
-	}
-	chunkSize := calcChunkSize(attr)
-	return totalChunks * chunkSize * dtLength
+	return calcDataSize(attr) * uint64(attr.length)
 }
 
-// calcDataSize computes the size of the data, not counting chunks.
+// calcDataSize computes the number of elements of the data.
 func calcDataSize(attr *attribute) uint64 {
 	dataSize := uint64(1)
 	for _, v := range attr.dimensions {
@@ -378,139 +362,61 @@ func calcDataSize(attr *attribute) uint64 {
 	return dataSize
 }
 
-func calculateFlatOffset(offsets []uint64, dims []uint64, layout []uint64, dtLength uint64) uint64 {
-	rank := len(dims)
-	flatChunkIndex := uint64(0)
-	for i := range rank {
-		gi := offsets[i] / layout[i]
-		gridStride := uint64(1)
-		for k := i + 1; k < rank; k++ {
-			gridStride *= (dims[k] + layout[k] - 1) / layout[k]
-		}
-		flatChunkIndex += gi * gridStride
-	}
-
-	chunkSize := uint64(1)
-	for _, v := range layout {
-		chunkSize *= v
+// product multiplies the dimensions by the size.
+func product(dims []uint64, size uint64) uint64 {
+	for _, d := range dims {
+		size *= d
 	}
-
-	return flatChunkIndex * chunkSize * dtLength
+	return size
 }
 
-func (lr *layoutReader) fillrow() error {
-	attr := lr.obj.objAttr
-	dims := attr.dimensions
-	layout := attr.layout
-	dtLength := uint64(attr.length)
-	rank := len(dims)
-
-	// Grid dimensions
-	g := make([]int, rank)
-	totalStripes := 1
-	for i := range rank {
-		g[i] = int((dims[i] + layout[i] - 1) / layout[i])
-		if i < rank-1 {
-			totalStripes *= g[i]
-		}
+// copyChunk copies a chunk with the given layout to where it belongs in the data. The parts of
+// it that are outside the dimensions of the data are not copied.
+func copyChunk(data, chunk []byte, offsets, dims, layout []uint64, size uint64) {
+	if len(dims) == 0 {
+		copy(data[:size], chunk[:size])
+		return
 	}
-
-	if lr.stripeIndex >= totalStripes {
-		return io.EOF
+	if offsets[0] >= dims[0] {
+		return
 	}
-
-	// Current stripe grid coordinates
-	stripeCoords := make([]int, rank-1)
-	tempIndex := lr.stripeIndex
-	for i := rank - 2; i >= 0; i-- {
-		stripeCoords[i] = tempIndex % g[i]
-		tempIndex /= g[i]
+	n := min(layout[0], dims[0]-offsets[0])
+	dataSize := product(dims[1:], size)
+	chunkSize := product(layout[1:], size)
+	if len(dims) == 1 {
+		copy(data[offsets[0]*size:(offsets[0]+n)*size], chunk[:n*size])
+		return
 	}
-
-	// Calculate number of valid rows in this stripe
-	// A "row" here is the last dimension.
-	numRowsInStripe := 1
-	validCounts := make([]int, rank-1)
-	for i := range rank - 1 {
-		start := uint64(stripeCoords[i]) * layout[i]
-		end := start + layout[i]
-		if end > dims[i] {
-			end = dims[i]
-		}
-		validCounts[i] = int(end - start)
-		numRowsInStripe *= validCounts[i]
+	for i := range n {
+		copyChunk(data[(offsets[0]+i)*dataSize:(offsets[0]+i+1)*dataSize],
+			chunk[i*chunkSize:(i+1)*chunkSize], offsets[1:], dims[1:], layout[1:], size)
 	}
+}
 
-	// Stripe buffer size
-	lineLen := dims[rank-1]
-	lr.buf = make([]byte, uint64(numRowsInStripe)*lineLen*dtLength)
-
-	// Read one stripe of chunks
-	numChunksInStripe := g[rank-1]
-	chunkSize := calcChunkSize(attr)
-	readBuf := make([]byte, chunkSize*dtLength)
-
-	for gc := range numChunksInStripe {
-		// Read one chunk
-		_, err := io.ReadFull(lr.r, readBuf)
-		if err != nil {
-			return err
-		}
-
-		// Interleave this chunk's rows into lr.buf
-		numRowsInChunk := 1
-		for i := range rank - 1 {
-			numRowsInChunk *= int(layout[i])
-		}
-
-		chunkLineLen := layout[rank-1]
-		delta := make([]int, rank-1)
-
-		for rc := range numRowsInChunk {
-			// Decode rc into local relative coordinates
-			tempRC := rc
-			for i := rank - 2; i >= 0; i-- {
-				delta[i] = tempRC % int(layout[i])
-				tempRC /= int(layout[i])
-			}
-
-			// Check if this row is valid in the dataset
-			isValid := true
-			for i := range rank - 1 {
-				if uint64(stripeCoords[i])*layout[i]+uint64(delta[i]) >= dims[i] {
-					isValid = false
-					break
-				}
-			}
-
-			if !isValid {
-				continue
-			}
-
-			destRowIndex := 0
-			stride := 1
-			for i := rank - 2; i >= 0; i-- {
-				destRowIndex += delta[i] * stride
-				stride *= validCounts[i]
-			}
-
-			srcOffset := uint64(rc) * chunkLineLen * dtLength
-			destColOffset := uint64(gc) * layout[rank-1]
-			if destColOffset >= lineLen {
-				continue
-			}
-
-			destOffset := (uint64(destRowIndex)*lineLen + destColOffset) * dtLength
-			copyLen := chunkLineLen
-			if destColOffset+copyLen > lineLen {
-				copyLen = lineLen - destColOffset
-			}
-
-			copy(lr.buf[destOffset:destOffset+copyLen*dtLength], readBuf[srcOffset:srcOffset+copyLen*dtLength])
-		}
+// fillrow reads the chunks that have the next row, and gets all the rows they have.
+func (lr *layoutReader) fillrow() error {
+	if lr.row >= lr.lastRow {
+		return io.EOF
 	}
-
-	lr.stripeIndex++
+	attr := lr.obj.objAttr
+	size := uint64(attr.length)
+	layout := attr.layout
+	gridRow := lr.row / layout[0]
+	begin := gridRow * layout[0]
+	end := min(begin+layout[0], attr.dimensions[0])
+	dims := append([]uint64{end - begin}, attr.dimensions[1:]...)
+	buf := make([]byte, product(dims, size))
+	read(makeFillValueReader(lr.obj, nil, int64(len(buf))), buf)
+	for _, val := range lr.chunks[gridRow] {
+		chunk := lr.h5.readChunk(lr.obj, val)
+		assertError(uint64(len(chunk)) == product(layout, size), ErrCorrupted, "size of chunk")
+		offsets := append([]uint64{val.offsets[0] - begin}, val.offsets[1:]...)
+		copyChunk(buf, chunk, offsets, dims, layout, size)
+	}
+	rowSize := product(dims[1:], size)
+	lastRow := min(end, lr.lastRow)
+	lr.buf = buf[(lr.row-begin)*rowSize : (lastRow-begin)*rowSize]
+	lr.row = lastRow
 	return nil
 }
 
@@ -521,22 +427,17 @@ func (lr *layoutReader) Read(b []byte) (int, error) {
 			return 0, err
 		}
 	}
-
 	n := copy(b, lr.buf)
 	lr.buf = lr.buf[n:]
-	lr.count += uint64(n)
 	return n, nil
 }
 
-func (lr *layoutReader) Rem() int64 {
-	return lr.size - int64(lr.count)
-}
-
-func (lr *layoutReader) Count() int64 {
-	return int64(lr.count)
-}
-
-func newLayoutReader(r remReader, obj *object) io.Reader {
-	size := calcDataSize(obj.objAttr) * uint64(obj.objAttr.length)
-	return &layoutReader{r, obj, nil, int64(size), 0, 0}
+func newLayoutReader(h5 *HDF5, obj *object) io.Reader {
+	firstRow, lastRow, _ := getRows(obj.objAttr)
+	chunks := make(map[uint64][]dataBlock)
+	for _, val := range obj.dataBlocks {
+		gridRow := val.offsets[0] / obj.objAttr.layout[0]
+		chunks[gridRow] = append(chunks[gridRow], val)
+	}
+	return &layoutReader{h5, obj, chunks, firstRow, lastRow, nil}
 }
diff --git a/netcdf/hdf5/segment.go b/netcdf/hdf5/segment.go
deleted file mode 100644
index 1909fe1..0000000
--- a/netcdf/hdf5/segment.go
+++ /dev/null
@@ -1,49 +0,0 @@
-package hdf5
-
-import (
-	"io"
-	"sort"
-)
-
-// segments are a bunch of discontiguous locations and lengths in
-// file to read data for an object.
-type segment struct {
-	offset uint64
-	length uint64
-	r      io.Reader // reader to use for this segment
-}
-
-// object representing all the segments
-type segments struct {
-	segs []*segment
-}
-
-func newSegments() *segments {
-	return &segments{make([]*segment, 0)}
-}
-
-// Standard sorting functions
-func (s *segments) Len() int {
-	return len(s.segs)
-}
-
-func (s *segments) Swap(i, j int) {
-	s.segs[i], s.segs[j] = s.segs[j], s.segs[i]
-}
-
-func (s *segments) Less(i, j int) bool {
-	return s.segs[i].offset <= s.segs[j].offset
-}
-
-// other methods
-func (s *segments) get(i int) *segment {
-	return s.segs[i]
-}
-
-func (s *segments) sort() {
-	sort.Sort(s)
-}
-
-func (s *segments) append(thisSeg *segment) {
-	s.segs = append(s.segs, thisSeg)
-}
diff --git a/netcdf/hdf5/string.go b/netcdf/hdf5/string.go
index ac5a3a3..9303f51 100644
--- a/netcdf/hdf5/string.go
+++ b/netcdf/hdf5/string.go
@@ -1,6 +1,7 @@
 package hdf5
 
 import (
+	"bytes"
 	"io"
 	"reflect"
 )
@@ -69,7 +70,7 @@ func allocRegularStrings(bf io.Reader, dimLengths []uint64, dtlen uint32) any {
 		if dtlen == 1 {
 			b := make([]byte, thisDim)
 			read(bf, b)
-			return getString(b)
+			return getChars(b)
 		}
 		values := make([]string, thisDim)
 		for i := uint64(0); i < thisDim; i++ {
@@ -91,3 +92,25 @@ func allocRegularStrings(bf io.Reader, dimLengths []uint64, dtlen uint32) any {
 	}
 	return vals.Interface()
 }
+
+// getChars gets the string of an array of characters, which doesn't have the NULs at its end.
+func getChars(b []byte) string {
+	return string(bytes.TrimRight(b, "\x00"))
+}
+
+// trimStrings gets a slice of an array of characters, which has strings for the last dimension.
+func trimStrings(data any, dims []uint64, begin, end []int64) any {
+	if s, ok := data.(string); ok {
+		b := make([]byte, dims[0])
+		copy(b, s)
+		return getChars(b[begin[0]:end[0]])
+	}
+	v := reflect.ValueOf(data)
+	n := int(end[0] - begin[0])
+	ret := reflect.MakeSlice(v.Type(), n, n)
+	for i := range n {
+		elem := v.Index(int(begin[0]) + i).Interface()
+		ret.Index(i).Set(reflect.ValueOf(trimStrings(elem, dims[1:], begin[1:], end[1:])))
+	}
+	return ret.Interface()
+}
-- 
2.43.0


From d10897396e993abc19b0e3f7a85791ee3f16a9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:32 +0000
Subject: [PATCH 14/21] fix: HDF5 committed datatypes are followed, wherever a
 message refers to them

---
 netcdf/hdf5/hdf5.go | 59 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 7a565e8..9aab49c 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -216,6 +216,7 @@ type HDF5 struct {
 	addrs         map[uint64]bool
 	heapCache     map[uint64]map[uint32][]byte // cache for global heap object lookups
 	addrToName    map[uint64]string            // lazy cache: object address → name
+	sharedTypes   map[uint64][]byte            // committed datatype messages, by address
 }
 
 type linkInfo struct {
@@ -243,6 +244,7 @@ type object struct {
 	dimensionality   uint8
 	filters          []filter
 	objAttr          *attribute
+	datatype         []byte // the message
 	fillValue        []byte // takes precedence over old fill value
 	fillValueOld     []byte
 	isGroup          bool
@@ -578,9 +580,7 @@ func (h5 *HDF5) readAttribute(obj *object, obf io.Reader, creationOrder uint64)
 	case 1:
 		checkVal(0, flags, "reserved field must be zero")
 	case 2, 3:
-		if hasFlag8(flags, 0) || hasFlag8(flags, 1) {
-			assertError(false, ErrUnsupportedDataTypeVersion, "shared attribute types/dataspaces not supported")
-		}
+		assertError(!hasFlag8(flags, 1), ErrUnsupportedDataTypeVersion, "shared attribute dataspaces not supported")
 		logger.Infof("* attr flags=0x%x (%s)", flags, binaryToString(uint64(flags)))
 	}
 	nameSize := read16(bf)
@@ -625,6 +625,9 @@ func (h5 *HDF5) readAttribute(obj *object, obf io.Reader, creationOrder uint64)
 	logger.Info("count objects=", count)
 	attr.dimensions = dims
 	logger.Info("sizeRem=", bf.Rem())
+	if version > 1 && hasFlag8(flags, 0) {
+		dtb = h5.readShared(newResetReaderFromBytes(dtb))
+	}
 	pf := newResetReaderFromBytes(dtb)
 	printDatatype(h5, h5, pf, bf, count, attr)
 	obj.attrlist = append(obj.attrlist, attr)
@@ -1858,6 +1861,34 @@ func (h5 *HDF5) readDatatype(bf io.Reader) *attribute {
 	return &objAttr
 }
 
+// readShared reads the location of a shared datatype, which is the committed datatype at that
+// address, and gets its message.
+func (h5 *HDF5) readShared(bf io.Reader) []byte {
+	version := read8(bf)
+	ty := read8(bf)
+	switch version {
+	case 1:
+		checkZeroes(bf, 6)
+	case 2, 3:
+		assertError(ty != 1 /* heap */, ErrUnsupportedDataTypeVersion,
+			"shared messages in the shared message heap not supported")
+	default:
+		fail(fmt.Sprint("Invalid shared message version: ", version))
+	}
+	addr := read64(bf)
+	logger.Infof("shared datatype at 0x%x", addr)
+	b, has := h5.sharedTypes[addr]
+	if !has {
+		h5.sharedTypes[addr] = nil // a datatype can't be in terms of itself
+		obj := newObject()
+		h5.readDataObjectHeader(obj, addr)
+		b = obj.datatype
+		h5.sharedTypes[addr] = b
+	}
+	assertError(b != nil, ErrCorrupted, "no datatype at the address of the shared one")
+	return b
+}
+
 func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags byte, origAddr uint64, chunkSize uint64) {
 	logger.Infof("readCommon origAddr=0x%x", origAddr)
 	bf := newResetReader(obf, int64(chunkSize))
@@ -1874,11 +1905,6 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 
 		size := read16(bf)
 		logger.Info("size of header message data=", size)
-		if size == 0 && version == 1 {
-			logger.Info("--- zero sized ---")
-			logger.Info("zs chunksize", chunkSize, "nRead", bf.Count(), "rem", bf.Rem())
-			continue
-		}
 		if bf.Count() == int64(chunkSize) {
 			logger.Info("no chunks left for flags")
 			break
@@ -1920,11 +1946,15 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 			co := read16(bf)
 			logger.Infof("creation order = %d", co)
 		}
-		if size == 0 && version > 1 {
+		if size == 0 {
 			logger.Info("--- zero sized ---")
-			logger.Info("zs2 chunksize", chunkSize, "nRead", bf.Count(), "rem", bf.Rem())
+			logger.Info("zs chunksize", chunkSize, "nRead", bf.Count(), "rem", bf.Rem())
 			continue
 		}
+		isShared := hasFlag8(hFlags, 1)
+		if isShared && headerType != typeDatatype {
+			failError(ErrUnsupportedDataTypeVersion, "shared messages in the shared message heap not supported")
+		}
 		if version == 1 {
 			logger.Infof("rem=%v size=%v", bf.Rem(), size)
 			used := bf.Count() - nReadSave
@@ -1963,7 +1993,13 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 			// Preserve what the other messages set in the existing objAttr, as the messages
 			// can be in any order.
 			save := obj.objAttr
-			obj.objAttr = h5.readDatatype(f)
+			b := make([]byte, f.Rem())
+			read(f, b)
+			if isShared {
+				b = h5.readShared(newResetReaderFromBytes(b))
+			}
+			obj.datatype = b
+			obj.objAttr = h5.readDatatype(newResetReaderFromBytes(b))
 			logger.Info("dimensions are", obj.objAttr.dimensions)
 			obj.objAttr.dimensions = save.dimensions
 			obj.objAttr.layout = save.layout
@@ -2406,6 +2442,7 @@ func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
 		registrations: make(map[string]any),
 		addrs:         make(map[uint64]bool),
 		heapCache:     make(map[uint64]map[uint32][]byte),
+		sharedTypes:   make(map[uint64][]byte),
 	}
 	h5.readSuperblock()
 	assert(h5.rootAddr != invalidAddress, "No root address")
-- 
2.43.0


From 30733d543759d17542f12fc39f4dc52e355cb144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:33 +0000
Subject: [PATCH 15/21] fix: HDF5 reader lists in a fixed order, follows every
 link, B-tree and heap, and keeps handles apart

---
 netcdf/hdf5/amap.go    |  19 +-
 netcdf/hdf5/assert.go  |   8 +-
 netcdf/hdf5/hdf5.go    | 554 ++++++++++++++++++++---------------------
 netcdf/hdf5/readers.go |  28 ++-
 4 files changed, 300 insertions(+), 309 deletions(-)

diff --git a/netcdf/hdf5/amap.go b/netcdf/hdf5/amap.go
index b4ec65c..624c148 100644
--- a/netcdf/hdf5/amap.go
+++ b/netcdf/hdf5/amap.go
@@ -7,26 +7,35 @@ import (
 // Adds callbacks to the standard OrderedMap so we can print
 // out more complex types than the default (structs, enums, etc.)
 type callback struct {
-	h5 *HDF5
-	om *util.OrderedMap
+	h5       *HDF5
+	attrlist []*attribute
 }
 
 // CDL callback (regular)
 func (c *callback) regCallback(key string) (string, bool) {
-	ret := c.h5.findGlobalAttrType(key)
+	ret := c.h5.findAttrType(c.attrlist, key)
 	return ret, ret != ""
 }
 
 func (c *callback) goCallback(key string) (string, bool) {
-	ret := c.h5.findGlobalAttrGoType(key)
+	ret := c.h5.findAttrGoType(c.attrlist, key)
 	return ret, ret != ""
 }
 
 func newTypedAttributeMap(h5 *HDF5, keys []string, values map[string]any) (*util.OrderedMap, error) {
+	var attrlist []*attribute
+	if h5 != nil {
+		attrlist = h5.rootObject.attrlist
+	}
+	return newTypedAttributeMapOf(h5, attrlist, keys, values)
+}
+
+// newTypedAttributeMapOf makes the map for the given attributes, which have the types.
+func newTypedAttributeMapOf(h5 *HDF5, attrlist []*attribute, keys []string, values map[string]any) (*util.OrderedMap, error) {
 	om, err := util.NewOrderedMap(keys, values)
 	assertError(err == nil, err, "creating ordered map")
 	if h5 != nil {
-		c := callback{h5, om}
+		c := callback{h5, attrlist}
 		om.SetTypeCallbacks(c.regCallback, c.goCallback)
 	}
 	return om, nil
diff --git a/netcdf/hdf5/assert.go b/netcdf/hdf5/assert.go
index ad19e48..cc1db66 100644
--- a/netcdf/hdf5/assert.go
+++ b/netcdf/hdf5/assert.go
@@ -16,8 +16,8 @@ const (
 )
 
 var (
-	logFunc   = logger.Fatal // logging function for padBytesCheck()
-	maybeFail = fail         // fail function, can be disabled for testing
+	logFunc   = failPad // logging function for padBytesCheck()
+	maybeFail = fail    // fail function, can be disabled for testing
 )
 
 // Panics if condition isn't met
@@ -57,6 +57,10 @@ func fail(msg string) {
 	failError(ErrInternal, msg)
 }
 
+func failPad(v ...any) {
+	fail(fmt.Sprint(v...))
+}
+
 // Panics with specified error and message
 func failError(err error, msg string) {
 	logger.Error(msg)
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 9aab49c..e49ba7e 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -8,9 +8,11 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"maps"
 	"math"
 	"os"
 	"reflect"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -45,8 +47,6 @@ const (
 // Constants for some specific things that don't seem to happen, and we don't need to unit test.
 // Kept around just in case.
 const (
-	// The same with the creation order for indexed groups; it never appears in files.
-	parseCreationOrder = false
 	// Enums only ever seem to be ints, though the spec hints they don't have to be.
 	floatEnums = false
 )
@@ -213,10 +213,11 @@ type HDF5 struct {
 	rootObject    *object
 	groupObject   *object
 	registrations map[string]any
-	addrs         map[uint64]bool
+	objects       map[uint64]*object           // by address, with the first name they were found under
 	heapCache     map[uint64]map[uint32][]byte // cache for global heap object lookups
 	addrToName    map[uint64]string            // lazy cache: object address → name
 	sharedTypes   map[uint64][]byte            // committed datatype messages, by address
+	checkedBlocks map[uint64]bool              // fractal heap direct blocks that were verified
 }
 
 type linkInfo struct {
@@ -228,6 +229,9 @@ type linkInfo struct {
 	blockSize        uint64
 	tableWidth       uint16
 	maximumBlockSize uint64
+	checksummed      bool                 // direct blocks have checksums
+	hugeAddress      uint64               // of the B-tree of objects that are not in a block
+	huge             map[uint64]dataBlock // and those, when they have been read
 }
 
 type object struct {
@@ -250,6 +254,8 @@ type object struct {
 	isGroup          bool
 	creationOrder    uint64
 	attrListIsSorted bool
+	sortedChildren   []*object
+	isReading        bool // being read, which makes it an ancestor of what is read now
 }
 
 // Only the pointer is used here.  We don't actually use the value.
@@ -285,6 +291,7 @@ func SetLogLevel(level int) int {
 
 func (h5 *HDF5) newSeek(addr uint64, size int64) remReader {
 	logger.Infof("Seek to 0x%x", addr)
+	assertError(h5.file != nil, os.ErrClosed, "the group is closed")
 	assert(int64(addr)+size <= h5.fileSize,
 		fmt.Sprintf("bad seek addr=0x%x size=%d addr+size=0x%x fileSize=0x%x",
 			addr, size, int64(addr)+size, h5.fileSize))
@@ -428,7 +435,7 @@ func (h5 *HDF5) readSuperblock() {
 
 		s := read16(bf)
 		logger.Info("Group leaf node k", s)
-		assert(s == 4, "Group leaf node K assumed to be 4 always")
+		assert(s > 0, "must be greater than zero")
 		s = read16(bf)
 		logger.Info("Group internal node k", s)
 
@@ -561,7 +568,7 @@ func readNullTerminatedName(bf io.Reader, padding int) string {
 }
 
 // Assumes it is an attribute
-func (h5 *HDF5) readAttributeDirect(obj *object, addr uint64, offset uint64, length uint16,
+func (h5 *HDF5) readAttributeDirect(obj *object, addr uint64, offset uint64, length uint64,
 	creationOrder uint64) {
 	logger.Infof("* addr=0x%x offset=0x%x length=%d", addr, offset, length)
 	logger.Info("read Attributes at:", addr+offset)
@@ -633,11 +640,11 @@ func (h5 *HDF5) readAttribute(obj *object, obf io.Reader, creationOrder uint64)
 	obj.attrlist = append(obj.attrlist, attr)
 }
 
-type doublerCallback func(obj *object, bnum uint64, offset uint64, length uint16,
+type doublerCallback func(obj *object, bnum uint64, offset uint64, length uint64,
 	creationOrder uint64)
 
 // Handling doubling table.  Assume width of 4.
-func (h5 *HDF5) doDoubling(obj *object, link *linkInfo, offset uint64, length uint16, creationOrder uint64, callback doublerCallback) {
+func (h5 *HDF5) doDoubling(obj *object, link *linkInfo, offset uint64, length uint64, creationOrder uint64, callback doublerCallback) {
 	logger.Infof("doubling start: offset=0x%x length=%d blocksize=%d block=%x iblock=%x", offset, length, link.blockSize, link.block, link.iBlock)
 	blockSize := link.blockSize
 	blockToUse := invalidAddress
@@ -659,6 +666,8 @@ func (h5 *HDF5) doDoubling(obj *object, link *linkInfo, offset uint64, length ui
 		}
 	}
 	if offset < blockSize && blockToUse != invalidAddress {
+		assertError(length <= blockSize-offset, ErrCorrupted, "heap object does not fit in its block")
+		h5.checkDirectBlock(link, blockToUse, blockSize)
 		callback(obj, blockToUse, offset, length, creationOrder)
 		return
 	}
@@ -693,7 +702,57 @@ func (h5 *HDF5) doDoubling(obj *object, link *linkInfo, offset uint64, length ui
 	h5.readLinkData(obj, &nextLink, offset, length, creationOrder, callback)
 }
 
-func (h5 *HDF5) readLinkData(obj *object, link *linkInfo, offset uint64, length uint16,
+// readHeapObject finds an object in a fractal heap by its ID.
+func (h5 *HDF5) readHeapObject(obj *object, link *linkInfo, id []byte, creationOrder uint64, callback doublerCallback) {
+	bf := newResetReaderFromBytes(id)
+	versionAndType := read8(bf)
+	checkVal(0, versionAndType>>6, "heap ID version")
+	switch idType := (versionAndType >> 4) & 0b11; idType {
+	case 0: // managed
+		offset := readUint(bf, link.maxHeapSize/8)
+		length := uint64(read16(bf))
+		logger.Infof("offset=0x%x length=%d", offset, length)
+		h5.readLinkData(obj, link, offset, length, creationOrder, callback)
+	case 1: // huge, not in a block
+		if link.huge == nil {
+			link.huge = map[uint64]dataBlock{}
+			index := newObject()
+			index.link = link
+			h5.readBTree(index, link.hugeAddress)
+		}
+		block, has := link.huge[readUint(bf, len(id)-1)]
+		assertError(has, ErrCorrupted, "no such object in the heap")
+		callback(obj, block.offset, 0, block.length, creationOrder)
+	default:
+		fail(fmt.Sprintf("don't know how to handle heap ID type %d", idType))
+	}
+}
+
+// checkDirectBlock verifies a direct block of a fractal heap, once.
+func (h5 *HDF5) checkDirectBlock(link *linkInfo, addr uint64, blockSize uint64) {
+	if h5.checkedBlocks[addr] {
+		return
+	}
+	assert(blockSize <= uint64(h5.fileSize), "bad block size")
+	b := make([]byte, blockSize)
+	read(h5.newSeek(addr, int64(blockSize)), b)
+	bf := newResetReaderFromBytes(b)
+	checkMagic(bf, 4, "FHDB")
+	checkVal(0, read8(bf), "heap direct block version must be zero")
+	checkVal(link.heapAddress, read64(bf), "heap address of direct block")
+	skip(bf, int64(link.maxHeapSize/8)) // block offset
+	if link.checksummed {
+		// The checksum is of the whole block, without itself
+		checksumOffset := bf.Count()
+		expected := read32(bf)
+		clear(b[checksumOffset : checksumOffset+4])
+		sum := computeChecksumStream(bytes.NewReader(b), len(b))
+		assertError(sum == expected, ErrCorrupted, "checksum failure")
+	}
+	h5.checkedBlocks[addr] = true
+}
+
+func (h5 *HDF5) readLinkData(obj *object, link *linkInfo, offset uint64, length uint64,
 	creationOrder uint64, callback doublerCallback) {
 	logger.Infof("offset=0x%x length=%d", offset, length)
 	h5.doDoubling(obj, link, offset, length, creationOrder, callback)
@@ -704,14 +763,14 @@ func hasFlag8(flags byte, flag uint) bool {
 }
 
 // Assumes it is a link
-func (h5 *HDF5) readLinkDirect(parent *object, addr uint64, offset uint64, length uint16,
+func (h5 *HDF5) readLinkDirect(parent *object, addr uint64, offset uint64, length uint64,
 	creationOrder uint64) {
 	logger.Infof("* addr=0x%x offset=0x%x length=%d", addr, offset, length)
 	bf := h5.newSeek(addr+uint64(offset), int64(length))
 	h5.readLinkDirectFrom(parent, bf, length, creationOrder)
 }
 
-func (h5 *HDF5) readLinkDirectFrom(parent *object, obf io.Reader, length uint16, creationOrder uint64) {
+func (h5 *HDF5) readLinkDirectFrom(parent *object, obf io.Reader, length uint64, creationOrder uint64) {
 	bf := newResetReader(obf, int64(length))
 	version := read8(bf)
 	logger.Infof("* link version=%d", version)
@@ -743,85 +802,111 @@ func (h5 *HDF5) readLinkDirectFrom(parent *object, obf io.Reader, length uint16,
 	if lenlen > 0 {
 		read(bf, linkName)
 	}
+	// There is no object to read behind the other types
+	assertError(linkType == 0, ErrLinkType, "only hard links are supported")
 	hardAddr := read64(bf)
 	if bf.Rem() > 0 {
 		checkZeroes(bf, int(bf.Rem()))
 	}
 	logger.Infof("hard link=0x%x", hardAddr)
-	_, has := parent.children[string(linkName)]
+	h5.readLinkedObject(parent, string(linkName), hardAddr, co, false)
+}
+
+// readLinkedObject reads the object that a link refers to, and adds it to the children.
+func (h5 *HDF5) readLinkedObject(parent *object, linkName string, addr uint64, creationOrder uint64, isGroup bool) {
+	_, has := parent.children[linkName]
 	assert(!has, "duplicate object")
-	if h5.hasAddr(hardAddr) {
-		logger.Info("avoid link loop")
-		logger.Infof("done with name=%s", string(linkName))
+	obj := h5.objects[addr]
+	if obj != nil {
+		if obj.isReading {
+			logger.Info("avoid link loop")
+			return
+		}
+		// Another name of the same object
+		other := *obj
+		other.name = linkName
+		other.creationOrder = creationOrder
+		parent.children[linkName] = &other
 		return
 	}
-	obj := newObject()
-	obj.name = string(linkName)
+	obj = newObject()
+	obj.name = linkName
 	parent.children[obj.name] = obj
-	obj.creationOrder = co
-	obj.addr = hardAddr
-	h5.addrs[hardAddr] = true
-	h5.readDataObjectHeader(obj, hardAddr)
-	logger.Info("obj name", obj.name)
+	obj.creationOrder = creationOrder
+	obj.addr = addr
+	obj.isGroup = isGroup
+	h5.objects[addr] = obj
+	obj.isReading = true
+	h5.readDataObjectHeader(obj, addr)
 	logger.Infof("object (0x%x, %s) from parent (0x%x, %s)\n",
 		obj.addr, obj.name, parent.addr, parent.name)
 	h5.dumpObject(obj)
-	logger.Infof("done with name=%s", string(linkName))
+	obj.isReading = false
+	logger.Infof("done with name=%s", linkName)
 }
 
-func (h5 *HDF5) readBTreeInternal(parent *object, bta uint64, numRec uint64, recordSize uint16, depth uint16, nodeSize uint32) {
-	nr := uint64(numRec) // should work
-	len := 4 + 2 + nr*uint64(recordSize)
-	sub := 0
-	if depth > 1 {
-		sub = 2
+// bytesFor returns the number of bytes that numbers up to max are stored in.
+func bytesFor(max uint64) int {
+	return log2(max)/8 + 1
+}
+
+// btreePointerSizes returns the sizes of the two record counts in the child pointers of a node of
+// the given depth (> 0) of a version 2 B-tree: of the child itself, and of everything below.
+func btreePointerSizes(nodeSize uint32, recordSize uint16, depth uint16) (countSize, totalSize int) {
+	// 4-byte signature + 1 version + 1 type + 4 checksum
+	const overhead = 10
+	assert(recordSize > 0 && nodeSize > overhead, "bad B-tree sizes")
+	space := uint64(nodeSize - overhead)
+	maxRecords := space / uint64(recordSize) // of a node of this depth
+	maxTotal := maxRecords                   // of the nodes of this depth and those below
+	countSize = bytesFor(maxRecords)
+	for d := uint16(1); d < depth; d++ {
+		pointerSize := uint64(8 + countSize + totalSize)
+		assert(pointerSize < space, "bad B-tree node size")
+		maxRecords = (space - pointerSize) / (uint64(recordSize) + pointerSize)
+		assert(maxTotal < math.MaxUint64/(maxRecords+2), "bad B-tree depth")
+		maxTotal = (maxRecords+1)*maxTotal + maxRecords
+		totalSize = bytesFor(maxTotal)
 	}
-	bsize := int64(4+2) + int64(nr)*int64(recordSize) + (int64(nr)+1)*int64(8+1+sub)
+	return countSize, totalSize
+}
+
+func (h5 *HDF5) readBTreeInternal(parent *object, bta uint64, numRec uint64, recordSize uint16, depth uint16, nodeSize uint32) {
+	countSize, totalSize := btreePointerSizes(nodeSize, recordSize, depth)
+	bsize := int64(4+2) + int64(numRec)*int64(recordSize) + (int64(numRec)+1)*int64(8+countSize+totalSize)
+	assert(bsize <= int64(nodeSize), "too many records in a B-tree node")
+	h5.checkChecksum(bta, int(bsize))
 	bf := h5.newSeek(bta, bsize)
 	checkMagic(bf, 4, "BTIN")
 	version := read8(bf)
 	checkVal(0, version, "version")
 	logger.Info("btin version=", version)
 	ty := read8(bf)
-	logger.Info("btin type=", ty)
-	logger.Info("btin numrec=", numRec)
-	logger.Info("btin recordSize=", recordSize)
-	logger.Info("nr=", nr)
-	logger.Info("depth = ", depth)
-	logger.Info("count before=", bf.Count())
-	h5.readRecords(parent, bf, nr, ty)
-	logger.Info("count after=", bf.Count())
-
-	for i := uint64(0); i <= nr; i++ {
-		cnp := read64(bf) // child node pointer
-		len += 8
-		logger.Infof("cnp=0x%x", cnp)
-		// Fixed overhead: 4-byte signature + 1 version + 1 type + 4 node size = 10 bytes.
-		// Each child pointer triplet: 8-byte address + 4 numRecords + 4 totalRecords = 16 bytes.
-		fixedSizeOverhead := uint32(10)
-		onePointerTriplet := uint32(16)
-		maxNumberOfRecords := uint64(nodeSize-(fixedSizeOverhead+onePointerTriplet)) / (uint64(recordSize) + uint64(onePointerTriplet))
-		logger.Info("max number of records", maxNumberOfRecords)
-		assert(maxNumberOfRecords < 256, "can't handle this") // TODO: support bigger maxes
-		cnr := read8(bf)                                      // number of records for child node
-		len++
-		logger.Infof("cnr=0x%x", cnr)
-		logger.Info("depth=", depth)
+	logger.Infof("btin type=%d numrec=%d recordSize=%d depth=%d", ty, numRec, recordSize, depth)
+	h5.readRecords(parent, bf, numRec, ty)
+
+	for i := uint64(0); i <= numRec; i++ {
+		cnp := read64(bf)              // child node pointer
+		cnr := readUint(bf, countSize) // number of records for child node
+		tnr := readUint(bf, totalSize) // total number of records in child node
+		logger.Infof("cnp=0x%x cnr=%d tnr=%d", cnp, cnr, tnr)
 		if depth == 1 {
 			logger.Info("Descend into leaf")
-			h5.readBTreeLeaf(parent, cnp, uint64(cnr), recordSize)
+			h5.readBTreeLeaf(parent, cnp, cnr, recordSize)
 		} else {
 			logger.Info("Descend into node")
-			h5.readBTreeInternal(parent, cnp, uint64(cnr), recordSize, depth-1, nodeSize)
-		}
-		if depth > 1 {
-			tnr := read16(bf) // total number of records in child node
-			len += 2
-			logger.Infof("tnr=0x%x", tnr)
+			h5.readBTreeInternal(parent, cnp, cnr, recordSize, depth-1, nodeSize)
 		}
 	}
-	checkVal(int64(len), bsize, "accounting problem")
-	h5.checkChecksum(bta, int(len))
+}
+
+// readUint reads an unsigned number of the given number of bytes.
+func readUint(bf io.Reader, size int) uint64 {
+	val := uint64(0)
+	for i := range size {
+		val |= uint64(read8(bf)) << (8 * i)
+	}
+	return val
 }
 
 func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
@@ -829,92 +914,30 @@ func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
 	for i := range int(numRec) {
 		logger.Infof("reading record %d of %d", i, numRec)
 		switch ty {
+		case 1: // for indexing the huge objects of a heap
+			addr := read64(bf)
+			length := read64(bf)
+			obj.link.huge[read64(bf)] = dataBlock{offset: addr, length: length}
 		case 5: // for indexing the ‘name’ field for links in indexed groups.
 			logger.Info("Name field for links in indexed groups")
 			hash := read32(bf)
-			// heap ID
-			versionAndType := read8(bf)
-			logger.Infof("hash=0x%x versionAndType=%s", hash,
-				binaryToString(uint64(versionAndType)))
-			idType := (versionAndType >> 4) & 0b11
-			checkVal(0, idType, "don't know how to handle non-managed")
-			logger.Info("idtype=", idType)
+			logger.Infof("hash=0x%x", hash)
 			// heap IDs are always 7 bytes here
-			offset := uint64(read32(bf))
-			length := read16(bf)
-			// done reading heap id
-			logger.Infof("offset=0x%x length=%d", offset, length)
-			logger.Info("read link data -- indexed groups")
-			h5.readLinkData(obj, obj.link, offset, length, 0, h5.readLinkDirect)
-		case 6: // creation order for indexed group
-			if parseCreationOrder {
-				logger.Info("Creation order for indexed groups")
-				co := read64(bf)
-				versionAndType := read8(bf)
-				logger.Infof("co=0x%x versionAndType=0x%x", co, versionAndType)
-				idType := (versionAndType >> 4) & 0b11
-				checkVal(0, idType, "don't know how to handle non-managed")
-				// heap IDs are always 8 bytes here
-				offset := uint64(read32(bf))
-				length := read16(bf)
-				// done reading heap id
-				logger.Infof("offset=0x%x length=%d", offset, length)
-				h5.readLinkData(obj, obj.link, offset, length, co, h5.readLinkDirect)
-			} else {
-				logger.Fatal("creation order code has never been executed before")
-			}
-
+			id := make([]byte, 7)
+			read(bf, id)
+			h5.readHeapObject(obj, obj.link, id, 0, h5.readLinkDirect)
 		case 8: // for indexing the ‘name’ field for indexed attributes.
 			logger.Info("Name field for indexed attributes")
-			versionAndType := read8(bf)
-			logger.Infof("versionAndType=%s", binaryToString(uint64(versionAndType)))
-			idType := (versionAndType >> 4) & 0b11
-			logger.Info("idtype=", idType)
-			checkVal(0, idType, "don't know how to handle non-managed")
 			// heap IDs are always 8 bytes here
-			offset := uint64(read32(bf))
-			logger.Infof("offset=0x%x", offset)
-			more := read8(bf)
-			logger.Infof("more=0x%x", more)
-			offset = offset | uint64(more)<<32
-			length := read16(bf)
-			// done reading heap id
+			id := make([]byte, 8)
+			read(bf, id)
 			flags := read8(bf)
 			co := read32(bf)
 			hash := read32(bf)
 			logger.Infof("flags=%s co=0x%x hash=0x%x",
 				binaryToString(uint64(flags)), co, hash)
-			logger.Info("read link data -- indexed attributes")
-			h5.readLinkData(obj, obj.attr, offset, length, uint64(co), h5.readAttributeDirect)
-
-		case 9:
-			// uncomment the following to enable
-			if parseCreationOrder {
-				logger.Info("Creation order for indexed attributes")
-				// byte 1 of heap id
-				versionAndType := read8(bf)
-				logger.Infof("versionAndType=%s", binaryToString(uint64(versionAndType)))
-				idType := (versionAndType >> 4) & 0b11
-				logger.Info("idtype=", idType)
-				checkVal(0, idType, "don't know how to handle non-managed")
-				// heap IDs are always 8 bytes here
-				// bytes 2,3,4,5 of heap id
-				offset := uint64(read32(bf))
-				// byte 6 of heap ID
-				more := read8(bf)
-				offset = offset | uint64(more)<<32
-				// bytes 7 and 8 and heap ID
-				length := read16(bf)
-				// done reading heap id
-				mflags := read8(bf)
-				co := read32(bf)
-				logger.Infof("type 9 vat=0x%x offset=0x%x length=%d mflags=0x%x, co=%d",
-					versionAndType,
-					offset, length, mflags, co)
-				h5.readLinkData(obj, obj.attr, offset, length, 0, h5.readAttributeDirect)
-			} else {
-				logger.Fatal("creation order code has never been executed before")
-			}
+			assertError(!hasFlag8(flags, 1), ErrUnsupportedDataTypeVersion, "shared attributes not supported")
+			h5.readHeapObject(obj, obj.attr, id, uint64(co), h5.readAttributeDirect)
 		default:
 			fail(fmt.Sprintf("unhandled type: %d", ty))
 		}
@@ -923,6 +946,7 @@ func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
 
 func (h5 *HDF5) readBTreeLeaf(parent *object, bta uint64, numRec uint64, recordSize uint16) {
 	nbytes := 4 + 2 + int(numRec)*int(recordSize)
+	h5.checkChecksum(bta, nbytes)
 	bf := h5.newSeek(bta, int64(nbytes))
 	checkMagic(bf, 4, "BTLF")
 	version := read8(bf)
@@ -931,7 +955,6 @@ func (h5 *HDF5) readBTreeLeaf(parent *object, bta uint64, numRec uint64, recordS
 	logger.Info("bt type=", ty)
 	h5.readRecords(parent, bf, numRec, ty)
 	logger.Infof("leaf node size=%d", nbytes)
-	h5.checkChecksum(bta, nbytes)
 }
 
 // readBTreeNode reads the B-tree of a chunked variable, and adds the chunks that have any of the
@@ -1125,15 +1148,13 @@ func checkVal(expected, actual any, comment string) {
 func (h5 *HDF5) readGlobalHeap(heapAddress uint64, index uint32) (remReader, uint64) {
 	// Return from cache on subsequent calls to the same heap collection.
 	if cache, ok := h5.heapCache[heapAddress]; ok {
-		if data, ok := cache[index]; ok {
-			return newResetReaderFromBytes(data), uint64(len(data))
-		}
-		return nil, 0
+		data, ok := cache[index]
+		assertError(ok, ErrCorrupted, "no such object in the global heap")
+		return newResetReaderFromBytes(data), uint64(len(data))
 	}
 
 	// First visit: parse the entire collection and cache every object.
 	cache := make(map[uint32][]byte)
-	h5.heapCache[heapAddress] = cache
 
 	bf := h5.newSeek(heapAddress, 16) // header is 16 bytes
 	checkMagic(bf, 4, "GCOL")
@@ -1158,23 +1179,24 @@ func (h5 *HDF5) readGlobalHeap(heapAddress uint64, index uint32) (remReader, uin
 		osize := read64(bf) // object size
 		csize -= 16
 		assert(osize <= csize, "object size invalid")
+		b := make([]byte, osize)
+		cache[uint32(hoi)] = b
 		if osize > 0 {
 			asize := (osize + 7) & ^uint64(0x7) // round up to 8-byte boundary
 			assert(asize <= csize, "adjusted size too big")
 			csize -= asize
-			b := make([]byte, osize)
 			read(bf, b)
-			cache[uint32(hoi)] = b
 			if rem := asize - osize; rem > 0 {
 				skip(bf, int64(rem))
 			}
 		}
 	}
 
-	if data, ok := cache[index]; ok {
-		return newResetReaderFromBytes(data), uint64(len(data))
-	}
-	return nil, 0
+	h5.heapCache[heapAddress] = cache
+
+	data, ok := cache[index]
+	assertError(ok, ErrCorrupted, "no such object in the global heap")
+	return newResetReaderFromBytes(data), uint64(len(data))
 }
 
 func (h5 *HDF5) readHeap(link *linkInfo) {
@@ -1189,7 +1211,8 @@ func (h5 *HDF5) readHeap(link *linkInfo) {
 	checkVal(0, filterLen, "filterlen must be zero")
 	flags := read8(bf)
 	logger.Infof("flags=%s", binaryToString(uint64(flags)))
-	if !hasFlag8(flags, 1) {
+	link.checksummed = hasFlag8(flags, 1)
+	if !link.checksummed {
 		logger.Warn("not using checksums")
 	}
 	maxSizeObjects := read32(bf)
@@ -1198,6 +1221,7 @@ func (h5 *HDF5) readHeap(link *linkInfo) {
 	logger.Infof("nextHuge=0x%x", nextHuge)
 	btAddr := read64(bf)
 	logger.Infof("btree address=0x%x", btAddr)
+	link.hugeAddress = btAddr
 	amountFree := read64(bf)
 	logger.Infof("amount free=%d", amountFree)
 	freeSpaceAddr := read64(bf)
@@ -1309,62 +1333,50 @@ func (h5 *HDF5) readSymbolTableLeaf(parent *object, addr uint64, heapAddr uint64
 			logger.Info("Symbolic link offset", offset)
 			thrower.Throw(ErrLinkType)
 		}
-		_, has := parent.children[linkName]
-		assert(!has, "duplicate object")
-		if h5.hasAddr(objectHeaderAddress) {
-			logger.Info("avoid link loop")
-			logger.Infof("done with name=%s", string(linkName))
-			return
-		}
-		obj := newObject()
-		obj.addr = objectHeaderAddress
-		h5.addrs[objectHeaderAddress] = true
-
-		obj.name = linkName
-		logger.Infof("object (0x%x, %s) from symbol table, parent (0x%x, %s)\n",
-			obj.addr, obj.name, parent.addr, parent.name)
-		parent.children[obj.name] = obj
-		obj.isGroup = true
-		h5.readDataObjectHeader(obj, objectHeaderAddress)
-		logger.Info("STE rem=", bf.Rem())
-		h5.dumpObject(obj)
-		logger.Infof("done with name=%s", obj.name)
+		h5.readLinkedObject(parent, linkName, objectHeaderAddress, 0, true)
 	}
 }
 
 func (h5 *HDF5) readSymbolTable(parent *object, addr uint64, heapAddr uint64) {
-	bf := h5.newSeek(addr, 52) // adjust later
+	h5.readSymbolTableNode(parent, addr, heapAddr, -1)
+}
+
+// readSymbolTableNode reads a node of the B-tree of a group, which must be of the given level,
+// unless that's negative.
+func (h5 *HDF5) readSymbolTableNode(parent *object, addr uint64, heapAddr uint64, level int) {
+	bf := h5.newSeek(addr, 24)
 
 	checkMagic(bf, 4, "TREE") // "SNOD"
 	nodeType := read8(bf)
-	nodeLevel := read8(bf)
+	nodeLevel := int(read8(bf))
 	entriesUsed := read16(bf)
 	leftAddress := read64(bf)
 	rightAddress := read64(bf)
 	logger.Infof("type=%v level=%v entries=%v left=0x%x right=0x%x",
 		nodeType, nodeLevel, entriesUsed, leftAddress, rightAddress)
-	if nodeLevel > 0 {
-		logger.Infof("Start level %d", nodeLevel)
+	if level < 0 {
+		assert(leftAddress == invalidAddress && rightAddress == invalidAddress,
+			"Siblings unexpected")
+	} else {
+		checkVal(level, nodeLevel, "level of the node")
 	}
-	assert(leftAddress == invalidAddress && rightAddress == invalidAddress,
-		"Siblings unexpected")
 	assert(nodeType == 0, "what we expect")
-	type keyAddr struct {
-		key  uint64
-		addr uint64
-	}
-	keyAddrs := []keyAddr{}
+	childAddrs := []uint64{}
 	bf = h5.newSeek(addr+uint64(bf.Count()), 16*int64(entriesUsed)+8)
 	for i := uint16(0); i < entriesUsed; i++ {
 		key := read64(bf)
 		childAddr := read64(bf)
-		logger.Infof("%d: key=%d addr=0x%x", i, key, addr)
-		keyAddrs = append(keyAddrs, keyAddr{key, childAddr})
+		logger.Infof("%d: key=%d addr=0x%x", i, key, childAddr)
+		childAddrs = append(childAddrs, childAddr)
 	}
 	lastKey := read64(bf)
 	logger.Infof("last key=%d", lastKey)
-	for _, v := range keyAddrs {
-		h5.readSymbolTableLeaf(parent, v.addr, heapAddr)
+	for _, childAddr := range childAddrs {
+		if nodeLevel > 0 {
+			h5.readSymbolTableNode(parent, childAddr, heapAddr, nodeLevel-1)
+		} else {
+			h5.readSymbolTableLeaf(parent, childAddr, heapAddr)
+		}
 	}
 }
 
@@ -1394,11 +1406,13 @@ func (h5 *HDF5) readBTree(parent *object, addr uint64) {
 	logger.Info("numRec=", numRec)
 
 	h5.checkChecksum(addr, 34)
-	// TODO: indirect blocks for leaf
+	if numRec == 0 {
+		return
+	}
 	if depth > 0 {
 		h5.readBTreeInternal(parent, rootNodeAddress, uint64(numRecRootNode), recordSize, depth, nodeSize)
 	} else {
-		h5.readBTreeLeaf(parent, rootNodeAddress, uint64(numRec), recordSize)
+		h5.readBTreeLeaf(parent, rootNodeAddress, uint64(numRecRootNode), recordSize)
 	}
 }
 
@@ -1938,12 +1952,13 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 			logger.Info("header message flag: must fail to open if you don't understand type")
 		}
 
+		var co uint16
 		if hasFlag8(ohFlags, 2) {
 			if bf.Rem() < 2 {
 				logger.Info("no chunks to read creation order")
 				break
 			}
-			co := read16(bf)
+			co = read16(bf)
 			logger.Infof("creation order = %d", co)
 		}
 		if size == 0 {
@@ -2028,7 +2043,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 
 		case typeLink:
 			logger.Info("XXX: Link")
-			h5.readLinkDirectFrom(obj, f, size, 0)
+			h5.readLinkDirectFrom(obj, f, uint64(size), 0)
 
 		case typeExternalDataFiles:
 			logger.Error("We don't handle external data files")
@@ -2052,7 +2067,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 
 		case typeAttribute:
 			logger.Infof("Attribute, obj addr=0x%x", obj.addr)
-			h5.readAttribute(obj, f, 0)
+			h5.readAttribute(obj, f, uint64(co))
 
 		case typeObjectComment:
 			comment := readNullTerminatedName(f, 0)
@@ -2393,6 +2408,7 @@ func (h5 *HDF5) GetGroup(group string) (g api.Group, err error) {
 		return nil, ErrNotFound
 	}
 
+	assertError(h5.file != nil, os.ErrClosed, "the group is closed")
 	hg := *h5
 	hg.groupName = groupName
 	hg.groupObject = o
@@ -2440,17 +2456,21 @@ func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
 		rootObject:    nil,
 		groupObject:   nil,
 		registrations: make(map[string]any),
-		addrs:         make(map[uint64]bool),
+		objects:       make(map[uint64]*object),
 		heapCache:     make(map[uint64]map[uint32][]byte),
 		sharedTypes:   make(map[uint64][]byte),
+		checkedBlocks: make(map[uint64]bool),
 	}
 	h5.readSuperblock()
 	assert(h5.rootAddr != invalidAddress, "No root address")
 	h5.rootObject = newObject()
+	h5.objects[h5.rootAddr] = h5.rootObject
+	h5.rootObject.isReading = true
 	h5.readDataObjectHeader(h5.rootObject, h5.rootAddr)
 	h5.groupObject = h5.rootObject
 	h5.groupObject.isGroup = true
 	h5.dumpObject(h5.rootObject)
+	h5.rootObject.isReading = false
 	return api.Group(h5), nil
 }
 
@@ -2648,7 +2668,8 @@ func (h5 *HDF5) cast(attr attribute) reflect.Type {
 	logger.Info("trying to find cast for", ty, len(h5.registrations),
 		"class=", typeNames[attr.class])
 loop:
-	for _, p := range h5.registrations {
+	for _, name := range slices.Sorted(maps.Keys(h5.registrations)) {
+		p := h5.registrations[name]
 		v := reflect.TypeOf(p)
 		// Enums are always ints
 		found := false
@@ -2737,13 +2758,9 @@ func (h5 *HDF5) Attributes() api.AttributeMap {
 	return h5.getAttributes(h5.groupObject.attrlist)
 }
 
-func (h5 *HDF5) hasAddr(addr uint64) bool {
-	return h5.addrs[addr]
-}
-
 // objectKind holds the results of scanning an object's NetCDF4 metadata attributes.
 type objectKind struct {
-	hasClass       bool // CLASS attribute present
+	hasClass       bool // CLASS attribute of a dimension scale present
 	hasName        bool // NAME attribute present with a non-dimension-marker value
 	hasCoordinates bool // _Netcdf4Coordinates attribute present
 }
@@ -2757,7 +2774,10 @@ func classifyObject(attrlist []*attribute) objectKind {
 	for _, a := range attrlist {
 		switch a.name {
 		case "CLASS":
-			k.hasClass = true
+			// There are other classes, such as IMAGE.
+			if v, ok := a.value.(string); !ok || v == "DIMENSION_SCALE" {
+				k.hasClass = true
+			}
 		case "NAME":
 			if v, ok := a.value.(string); ok && !strings.HasPrefix(v, "This is a netCDF dimension") {
 				k.hasName = true
@@ -2775,6 +2795,12 @@ func (k objectKind) isDimensionScale() bool {
 	return k.hasClass && !k.hasCoordinates && !k.hasName
 }
 
+// isDimension returns true for dimension scales, whether or not they are variables, too.
+func (obj *object) isDimension() bool {
+	k := classifyObject(obj.attrlist)
+	return k.hasClass && (k.hasName || !k.hasCoordinates) && len(obj.objAttr.dimensions) > 0
+}
+
 func (h5 *HDF5) findVariable(varName string) *object {
 	obj, has := h5.groupObject.children[varName]
 	if !has {
@@ -2791,8 +2817,8 @@ func (h5 *HDF5) findVariable(varName string) *object {
 	return obj
 }
 
-func (h5 *HDF5) findGlobalAttrType(attrName string) string {
-	for _, attr := range h5.rootObject.attrlist {
+func (h5 *HDF5) findAttrType(attrlist []*attribute, attrName string) string {
+	for _, attr := range attrlist {
 		if attr.name != attrName {
 			continue
 		}
@@ -2807,12 +2833,11 @@ func (h5 *HDF5) findGlobalAttrType(attrName string) string {
 		}
 		return base + dims
 	}
-	fail("didn't find attribute type")
-	panic("silence warning")
+	return ""
 }
 
-func (h5 *HDF5) findGlobalAttrGoType(attrName string) string {
-	for _, attr := range h5.rootObject.attrlist {
+func (h5 *HDF5) findAttrGoType(attrlist []*attribute, attrName string) string {
+	for _, attr := range attrlist {
 		if attr.name != attrName {
 			continue
 		}
@@ -2827,8 +2852,7 @@ func (h5 *HDF5) findGlobalAttrGoType(attrName string) string {
 		}
 		return dims + base
 	}
-	fail("didn't find attribute type")
-	panic("silence warning")
+	return ""
 }
 
 func (h5 *HDF5) findType(varName string) string {
@@ -2854,7 +2878,6 @@ func (h5 *HDF5) getTypeObj(typeName string) (*object, bool) {
 		logger.Info("this is a group")
 		return nil, false
 	}
-	assert(len(obj.attrlist) == 0, "types don't have attributes")
 	return obj, true
 }
 
@@ -2876,10 +2899,6 @@ func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
 		return "", false
 	}
 	logger.Info("Found type", typeName, "group", h5.groupName, "child=", obj.name)
-	if len(obj.attrlist) != 0 {
-		logger.Info("types don't have attributes")
-		return "", false
-	}
 	if obj.objAttr.dimensions != nil {
 		logger.Info("this is a variable")
 		return "", false
@@ -2896,7 +2915,7 @@ func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
 // ListTypes returns the user-defined type names.
 func (h5 *HDF5) ListTypes() []string {
 	var ret []string
-	for typeName, obj := range h5.groupObject.children {
+	for _, obj := range h5.groupObject.sortChildren() {
 		if obj.isGroup {
 			continue
 		}
@@ -2907,7 +2926,7 @@ func (h5 *HDF5) ListTypes() []string {
 			// this is a variable
 			continue
 		}
-		ret = append(ret, typeName)
+		ret = append(ret, obj.name)
 	}
 	return ret
 }
@@ -2920,8 +2939,7 @@ func (h5 *HDF5) ListDimensions() []string {
 		if obj.isGroup {
 			continue
 		}
-		k := classifyObject(obj.attrlist)
-		if k.hasClass && (k.hasName || !k.hasCoordinates) {
+		if obj.isDimension() {
 			ret = append(ret, obj.name)
 		}
 	}
@@ -2931,23 +2949,19 @@ func (h5 *HDF5) ListDimensions() []string {
 // GetDimension returns the size of the given dimension and sets
 // the bool to true if found.
 func (h5 *HDF5) GetDimension(name string) (uint64, bool) {
-	for _, obj := range h5.groupObject.children {
-		if obj.isGroup {
-			continue
-		}
-		k := classifyObject(obj.attrlist)
-		if k.hasClass && (k.hasName || !k.hasCoordinates) && obj.name == name {
-			return obj.objAttr.dimensions[0], true
-		}
+	obj, has := h5.groupObject.children[name]
+	if !has || obj.isGroup || !obj.isDimension() {
+		return 0, false
 	}
-	return 0, false
+	return obj.objAttr.dimensions[0], true
 }
 
 func (h5 *HDF5) findSignature(signature string, name string, origNames map[string]bool, printer printerType) string {
 	if h5.groupObject == nil {
 		return ""
 	}
-	for varName, obj := range h5.groupObject.children {
+	for _, obj := range h5.groupObject.sortChildren() {
+		varName := obj.name
 		if obj.isGroup || origNames[varName] {
 			continue
 		}
@@ -2986,6 +3000,7 @@ func (h5 *HDF5) parseAttr(obj *object, a *attribute) {
 
 func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 	filtered := make(map[string]any)
+	keys := []string{}
 	for i := range unfiltered {
 		val := unfiltered[i]
 		logger.Infof("getting attribute %s %p", val.name, val)
@@ -3003,14 +3018,13 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 				val.value = getDataAttr(h5, h5, val.df, *val)
 			}
 			value := undoScalarAttribute(val.value)
+			if _, has := filtered[val.name]; !has {
+				keys = append(keys, val.name)
+			}
 			filtered[val.name] = value
 		}
 	}
-	keys := []string{}
-	for key := range filtered {
-		keys = append(keys, key)
-	}
-	om, err := newTypedAttributeMap(h5, keys, filtered)
+	om, err := newTypedAttributeMapOf(h5, unfiltered, keys, filtered)
 	thrower.ThrowIfError(err)
 	om.Hide(ncpKey)
 	return om
@@ -3056,8 +3070,11 @@ func (h5 *HDF5) addrIndex() map[uint64]string {
 	m := make(map[uint64]string)
 	var walk func(*object)
 	walk = func(obj *object) {
+		if _, has := m[obj.addr]; has {
+			return // another name of the object
+		}
 		m[obj.addr] = obj.name
-		for _, child := range obj.children {
+		for _, child := range obj.sortChildren() {
 			walk(child)
 		}
 	}
@@ -3093,34 +3110,6 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 		return dimNames
 	}
 
-	var f func(ob *object)
-	f = func(ob *object) {
-		logger.Infof("obj %s 0x%x", ob.name, ob.addr)
-		for i := range ob.attrlist {
-			h5.parseAttr(ob, ob.attrlist[i])
-			a := ob.attrlist[i]
-			if a.name != "REFERENCE_LIST" {
-				continue
-			}
-			logger.Infof("value is %T %v", a.value, a.value)
-			for k, v := range a.value.([]compound) {
-				vals2 := v
-				v0 := vals2[0].Val.(uint64)
-				v1, has := vals2[1].Val.(int32)
-				if !has {
-					// Recent versions of netcdf tools generate unsigned for the dimension.
-					logger.Info("Unsigned reference dimension")
-					uv1 := vals2[1].Val.(uint32)
-					v1 = int32(uv1)
-				}
-				logger.Infof("single ref %d 0x%x %d %s", k, v0, v1, ob.name)
-			}
-		}
-		for _, o := range ob.children {
-			f(o)
-		}
-	}
-	f(h5.rootObject)
 	for i := range obj.attrlist {
 		h5.parseAttr(obj, obj.attrlist[i])
 		a := obj.attrlist[i]
@@ -3250,25 +3239,11 @@ func (h5 *HDF5) ListSubgroups() []string {
 	// entry point
 	// Only go one level down
 	var ret []string
-	var sgDescend func(obj *object, group string)
-	sgDescend = func(obj *object, group string) {
-		if !obj.isGroup {
-			return
-		}
-		if group != h5.groupName && strings.HasPrefix(group, h5.groupName) {
-			// Is a subgroup.  Get the basename of this child.
-			tail := group[len(h5.groupName):]
-			tail = tail[:len(tail)-1] // trim trailing slash
-			assertError(!strings.Contains(tail, "/"), ErrInternal, "trailing slash")
-			ret = append(ret, tail)
-			return
-		}
-		obj.sortChildren()
-		for _, o := range obj.children {
-			sgDescend(o, group+o.name+"/")
+	for _, o := range h5.groupObject.sortChildren() {
+		if o.isGroup {
+			ret = append(ret, o.name)
 		}
 	}
-	sgDescend(h5.rootObject, "/")
 	return ret
 }
 
@@ -3279,20 +3254,28 @@ func (h5 *HDF5) sortAttrList(obj *object) {
 	for i := range obj.attrlist {
 		h5.parseAttr(obj, obj.attrlist[i])
 	}
-	sort.Slice(obj.attrlist, func(i, j int) bool {
+	sort.SliceStable(obj.attrlist, func(i, j int) bool {
 		return obj.attrlist[i].creationOrder < obj.attrlist[j].creationOrder
 	})
 	obj.attrListIsSorted = true
 }
 
+// sortChildren returns the children by creation order, or by name where it isn't tracked.
 func (obj *object) sortChildren() []*object {
+	if len(obj.sortedChildren) == len(obj.children) {
+		return obj.sortedChildren
+	}
 	var children []*object
 	for _, child := range obj.children {
 		children = append(children, child)
 	}
 	sort.Slice(children, func(i, j int) bool {
-		return children[i].creationOrder < children[j].creationOrder
+		if children[i].creationOrder != children[j].creationOrder {
+			return children[i].creationOrder < children[j].creationOrder
+		}
+		return children[i].name < children[j].name
 	})
+	obj.sortedChildren = children
 	return children
 }
 
@@ -3300,21 +3283,12 @@ func (obj *object) sortChildren() []*object {
 func (h5 *HDF5) ListVariables() []string {
 	// entry point, panic can bubble up
 	var ret []string
-	var descend func(obj *object, group string)
-	descend = func(obj *object, group string) {
-		children := obj.sortChildren()
-		for _, o := range children {
-			if group == h5.groupName && o.name != "" {
-				if h5.findVariable(o.name) != nil {
-					logger.Info("append", o.name)
-					ret = append(ret, o.name)
-				}
-				continue
-			}
-			descend(o, group+o.name+"/")
+	for _, o := range h5.groupObject.sortChildren() {
+		if h5.findVariable(o.name) != nil {
+			logger.Info("append", o.name)
+			ret = append(ret, o.name)
 		}
 	}
-	descend(h5.rootObject, "/")
 	return ret
 }
 
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 087f909..dca47a4 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -6,6 +6,7 @@ import (
 	"bufio"
 	"bytes"
 	"io"
+	"os"
 	"sync"
 
 	"github.com/batchatco/go-native-netcdf/netcdf/util"
@@ -230,16 +231,15 @@ func (f *raFile) Read(p []byte) (int, error) {
 
 func (f *raFile) readNoLock(p []byte) (int, error) {
 	thisLen := len(p)
+	if f.rcFile.file == nil {
+		return 0, os.ErrClosed
+	}
 	_, err := f.rcFile.file.Seek(f.seekPointer, io.SeekStart)
 	if err != nil {
 		logger.Error("Seek error in Read", err, io.SeekStart)
 		return 0, err
 	}
 	n, err := f.rcFile.file.Read(p[:thisLen])
-	if err != nil {
-		logger.Error("Read error in Read", err, io.SeekStart)
-		return 0, err
-	}
 	// Save position
 	f.seekPointer += int64(n)
 	// Return read results
@@ -250,15 +250,17 @@ func (f *raFile) ReadAt(b []byte, offset int64) (int, error) {
 	f.rcFile.Lock()
 	defer f.rcFile.Unlock()
 	save := f.seekPointer
-	_, err := f.rcFile.file.Seek(offset, io.SeekStart)
-	if err != nil {
-		logger.Error("Seek error in ReadAt", err, offset, io.SeekStart)
-		return 0, err
-	}
 	f.seekPointer = offset
-	n, retErr := f.readNoLock(b)
-	f.seekPointer = save
-	return n, retErr
+	defer func() { f.seekPointer = save }()
+	n := 0
+	for n < len(b) {
+		m, err := f.readNoLock(b[n:])
+		n += m
+		if err != nil && n < len(b) {
+			return n, err
+		}
+	}
+	return n, nil
 }
 
 func newRefCountedFile(file io.ReadSeeker) *refCountedFile {
@@ -266,6 +268,8 @@ func newRefCountedFile(file io.ReadSeeker) *refCountedFile {
 }
 
 func (rcf *refCountedFile) reference() {
+	rcf.lock.Lock()
+	defer rcf.lock.Unlock()
 	rcf.refCount++
 }
 
-- 
2.43.0


From 76775bf1a3d4a131ba0f7dd837c34400a43704ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 16/21] fix: CDF writer refuses invalid dimension names and
 attribute types when they are added

---
 netcdf/cdf/cdfwriter.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 600b463..c1945c5 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -410,10 +410,16 @@ func hasValidNames(am api.AttributeMap) bool {
 
 // AddAttributes adds attributes to be written out.
 // Use util.NewOrderedMap to create attribute maps.
-func (cw *CDFWriter) AddAttributes(attrs api.AttributeMap) error {
+func (cw *CDFWriter) AddAttributes(attrs api.AttributeMap) (err error) {
+	// The version is decided when the file is written.
+	version := cw.version
+	defer func() { cw.version = version }()
+	defer thrower.RecoverError(&err)
+
 	if !hasValidNames(attrs) {
 		return ErrInvalidName
 	}
+	cw.checkV5Attributes(attrs)
 	cw.globalAttrs = attrs
 	return nil
 }
@@ -491,6 +497,12 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	if !hasValidNames(vr.Attributes) {
 		return ErrInvalidName
 	}
+	for _, dimName := range vr.Dimensions {
+		// unnamed dimensions are given a name
+		if dimName != "" && !internal.IsValidNetCDFName(dimName) {
+			return ErrInvalidName
+		}
+	}
 	for i := range cw.vars {
 		if cw.vars[i].name == name {
 			return ErrDuplicateVariable
-- 
2.43.0


From e3290d310c315b634e334b25676e8c6221c72ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 17/21] fix: key, shape and dimension name lists handed out are
 copies, so that a caller can't change later answers

---
 internal/slicer.go        | 5 +++--
 netcdf/util/orderedmap.go | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/slicer.go b/internal/slicer.go
index f1134f6..8450013 100644
--- a/internal/slicer.go
+++ b/internal/slicer.go
@@ -2,6 +2,7 @@ package internal
 
 import (
 	"reflect"
+	"slices"
 
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
 	"github.com/batchatco/go-thrower"
@@ -41,7 +42,7 @@ func (sl *slice) Len() int64 {
 }
 
 func (sl *slice) Shape() []int64 {
-	return sl.shape
+	return slices.Clone(sl.shape)
 }
 
 func (sl *slice) Attributes() api.AttributeMap {
@@ -49,7 +50,7 @@ func (sl *slice) Attributes() api.AttributeMap {
 }
 
 func (sl *slice) Dimensions() []string {
-	return sl.dimNames
+	return slices.Clone(sl.dimNames)
 }
 
 func (sl *slice) Type() string {
diff --git a/netcdf/util/orderedmap.go b/netcdf/util/orderedmap.go
index 051489a..d1a4206 100644
--- a/netcdf/util/orderedmap.go
+++ b/netcdf/util/orderedmap.go
@@ -104,7 +104,7 @@ func (om *OrderedMap) Hide(hiddenKey string) {
 // Keys returns the keys in order for the map.
 // It does not return the hidden keys.
 func (om *OrderedMap) Keys() []string {
-	return om.visibleKeys
+	return slices.Clone(om.visibleKeys)
 }
 
 func (om *OrderedMap) pGoType(val any) (string, bool) {
-- 
2.43.0


From aae15e052c9d4f273c2d1287fbf4f8751b02b885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 18/21] fix: names that are not valid UTF-8 are refused

---
 internal/validname.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/validname.go b/internal/validname.go
index 783a858..00ca193 100644
--- a/internal/validname.go
+++ b/internal/validname.go
@@ -2,6 +2,7 @@ package internal
 
 import (
 	"regexp"
+	"unicode/utf8"
 )
 
 const (
@@ -32,5 +33,5 @@ func init() {
 
 // IsValidNetCDFName returns true if name is a valid NetCDF name.
 func IsValidNetCDFName(name string) bool {
-	return re.MatchString(name) && !antiRe.MatchString(name)
+	return utf8.ValidString(name) && re.MatchString(name) && !antiRe.MatchString(name)
 }
-- 
2.43.0


From 1f1cd0e223a35d3cbf12762ecd067fc1fda38f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 19/21] fix: the dimension of an HDF5 coordinate variable is
 named like the variable, whatever label the scale has

---
 netcdf/hdf5/hdf5.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index e49ba7e..5bbcee7 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3117,7 +3117,8 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 		case "NAME":
 			nameValue := a.value.(string)
 			if !strings.HasPrefix(nameValue, "This is a netCDF dimension") {
-				return append(dimNames, nameValue)
+				// a coordinate variable: its dimension is called like itself
+				return append(dimNames, obj.name)
 			}
 		}
 	}
-- 
2.43.0


From c45185784122f0825a0fb703fdcf75a775da3d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:50 +0000
Subject: [PATCH 20/21] fix: HDF5: types are named without printing all the
 other types each time

---
 netcdf/hdf5/array.go    |  4 ++--
 netcdf/hdf5/compound.go |  4 ++--
 netcdf/hdf5/enum.go     |  4 ++--
 netcdf/hdf5/hdf5.go     | 37 ++++++++++++++++++++++++++++++++++++-
 netcdf/hdf5/opaque.go   |  4 ++--
 netcdf/hdf5/types.go    |  2 +-
 netcdf/hdf5/vlen.go     |  4 ++--
 7 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/netcdf/hdf5/array.go b/netcdf/hdf5/array.go
index 3e4aac2..f9011e9 100644
--- a/netcdf/hdf5/array.go
+++ b/netcdf/hdf5/array.go
@@ -23,7 +23,7 @@ func (arrayManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute
 	}
 	dims := strings.Join(dStr, ",")
 	signature := fmt.Sprintf("%s(%s)", ty, dims)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, signature, name, origNames, cdlTypeString)
 	assert(namedType == "", "arrays are not named types")
 	return signature
 }
@@ -38,7 +38,7 @@ func (arrayManagerType) goTypeString(sh sigHelper, typeName string, attr *attrib
 	}
 	dims := strings.Join(dStr, "")
 	signature := fmt.Sprintf("%s%s", dims, ty)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, signature, typeName, origNames, goTypeString)
 	assert(namedType == "", "arrays are not named types")
 	return signature
 }
diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index 84727b5..933e023 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -30,7 +30,7 @@ func (compoundManagerType) cdlTypeString(sh sigHelper, name string, attr *attrib
 	}
 	interior := strings.Join(members, "")
 	signature := fmt.Sprintf("compound {\n%s}", interior)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, signature, name, origNames, cdlTypeString)
 	if namedType != "" {
 		return namedType
 	}
@@ -45,7 +45,7 @@ func (compoundManagerType) goTypeString(sh sigHelper, typeName string, attr *att
 	}
 	interior := strings.Join(members, "\n")
 	signature := fmt.Sprintf("struct {\n%s\n}\n", interior)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, signature, typeName, origNames, goTypeString)
 	if namedType != "" {
 		return namedType
 	}
diff --git a/netcdf/hdf5/enum.go b/netcdf/hdf5/enum.go
index d46266f..b7519ae 100644
--- a/netcdf/hdf5/enum.go
+++ b/netcdf/hdf5/enum.go
@@ -33,7 +33,7 @@ func (enumManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute,
 	}
 	interior := strings.Join(list, ",\n")
 	signature := fmt.Sprintf("%s enum {\n%s\n}", ty, interior)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, signature, name, origNames, cdlTypeString)
 	if namedType != "" {
 		return namedType
 	}
@@ -56,7 +56,7 @@ func (enumManagerType) goTypeString(sh sigHelper, typeName string, attr *attribu
 	}
 	interior := strings.Join(list, "\n")
 	signature := fmt.Sprintf("%s\nconst (\n%s\n)\n", ty, interior)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, signature, typeName, origNames, goTypeString)
 	if namedType != "" {
 		return namedType
 	}
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 5bbcee7..7f1a12e 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2956,7 +2956,39 @@ func (h5 *HDF5) GetDimension(name string) (uint64, bool) {
 	return obj.objAttr.dimensions[0], true
 }
 
-func (h5 *HDF5) findSignature(signature string, name string, origNames map[string]bool, printer printerType) string {
+// sameKind returns false if the types can't have the same signature.
+func sameKind(a, b *attribute) bool {
+	simple := func(c *attribute) bool {
+		switch c.class {
+		case typeOpaque, typeCompound, typeEnumerated:
+			return false
+		case typeVariableLength:
+			return c.vtType == 1 // a string
+		}
+		return c.class < typeVariableLength // else an array
+	}
+	if simple(a) || simple(b) {
+		return simple(a) && simple(b)
+	}
+	if a.class != b.class || len(a.children) != len(b.children) {
+		return false
+	}
+	if a.class == typeOpaque && a.length != b.length {
+		return false
+	}
+	for i := range a.children {
+		ac, bc := a.children[i], b.children[i]
+		if a.class == typeCompound && ac.name != bc.name || !slices.Equal(ac.enumNames, bc.enumNames) || !sameKind(ac, bc) {
+			return false
+		}
+	}
+	return true
+}
+
+// findSignature returns the name of the type that has the signature, which is that of attr.
+// Only types of the same kind are printed to compare them: printing each type looks for the names
+// of all the types in it, which is not to be done for all the types each time.
+func (h5 *HDF5) findSignature(attr *attribute, signature string, name string, origNames map[string]bool, printer printerType) string {
 	if h5.groupObject == nil {
 		return ""
 	}
@@ -2972,6 +3004,9 @@ func (h5 *HDF5) findSignature(signature string, name string, origNames map[strin
 			// this is a variable
 			continue
 		}
+		if !sameKind(attr, obj.objAttr) {
+			continue
+		}
 		origNames[varName] = true
 		sig := printer(obj.objAttr.class, h5, name, obj.objAttr, origNames)
 		origNames[varName] = false
diff --git a/netcdf/hdf5/opaque.go b/netcdf/hdf5/opaque.go
index 15a297a..24f34ad 100644
--- a/netcdf/hdf5/opaque.go
+++ b/netcdf/hdf5/opaque.go
@@ -17,7 +17,7 @@ var (
 
 func (opaqueManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
 	signature := fmt.Sprintf("opaque(%d)", attr.length)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, signature, name, origNames, cdlTypeString)
 	if namedType != "" {
 		return namedType
 	}
@@ -26,7 +26,7 @@ func (opaqueManagerType) cdlTypeString(sh sigHelper, name string, attr *attribut
 
 func (opaqueManagerType) goTypeString(sh sigHelper, typeName string, attr *attribute, origNames map[string]bool) string {
 	signature := fmt.Sprintf("[%d]uint8", attr.length)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, signature, typeName, origNames, goTypeString)
 	if namedType != "" {
 		return namedType
 	}
diff --git a/netcdf/hdf5/types.go b/netcdf/hdf5/types.go
index 4648d4d..857b27c 100644
--- a/netcdf/hdf5/types.go
+++ b/netcdf/hdf5/types.go
@@ -27,7 +27,7 @@ type caster interface {
 }
 
 type sigHelper interface {
-	findSignature(signature string, name string, origNames map[string]bool,
+	findSignature(attr *attribute, signature string, name string, origNames map[string]bool,
 		printer printerType) string
 }
 
diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index 8781575..529cf45 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -24,7 +24,7 @@ func (vlenManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute,
 	ty := cdlTypeString(vAttr.class, sh, name, vAttr, origNames)
 	assert(ty != "", "unable to parse vlen attr")
 	signature := fmt.Sprintf("%s(*)", ty)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, signature, name, origNames, cdlTypeString)
 	if namedType != "" {
 		return namedType
 	}
@@ -40,7 +40,7 @@ func (vlenManagerType) goTypeString(sh sigHelper, typeName string, attr *attribu
 	ty := goTypeString(vAttr.class, sh, typeName, vAttr, origNames)
 	assert(ty != "", "unable to parse vlen attr")
 	signature := fmt.Sprintf("[]%s", ty)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, signature, typeName, origNames, goTypeString)
 	if namedType != "" {
 		return namedType
 	}
-- 
2.43.0


From f52db939b7b96a6c56682076ddce9341fc8a125b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:02 +0000
Subject: [PATCH 21/21] fix: HDF5: a coordinate variable with several
 dimensions has all of them

---
 netcdf/hdf5/hdf5.go | 47 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 7f1a12e..02795f0 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3118,6 +3118,36 @@ func (h5 *HDF5) addrIndex() map[uint64]string {
 	return m
 }
 
+// dimidIndex builds a map from the numbers of the dimensions, which are unique in the file, to
+// their names.
+func (h5 *HDF5) dimidIndex() map[int32]string {
+	m := make(map[int32]string)
+	seen := make(map[uint64]bool)
+	var walk func(*object)
+	walk = func(obj *object) {
+		if seen[obj.addr] {
+			return // another name of the object
+		}
+		seen[obj.addr] = true
+		if !obj.isGroup && classifyObject(obj.attrlist).hasClass {
+			for _, a := range obj.attrlist {
+				if a.name != "_Netcdf4Dimid" {
+					continue
+				}
+				h5.parseAttr(obj, a)
+				if id, ok := a.value.(int32); ok {
+					m[id] = obj.name
+				}
+			}
+		}
+		for _, child := range obj.sortChildren() {
+			walk(child)
+		}
+	}
+	walk(h5.rootObject)
+	return m
+}
+
 func (h5 *HDF5) getDimensions(obj *object) []string {
 	logger.Infof("Getting dimensions addr 0x%x", obj.addr)
 	dimNames := make([]string, 0)
@@ -3145,6 +3175,23 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 		return dimNames
 	}
 
+	// A coordinate variable has no dimension list. If it has more than one dimension, they
+	// are listed by number.
+	for _, a := range obj.attrlist {
+		if ids, ok := a.value.([]int32); ok && a.name == "_Netcdf4Coordinates" && len(ids) == len(obj.objAttr.dimensions) {
+			dimidToName := h5.dimidIndex()
+			for _, id := range ids {
+				if name, has := dimidToName[id]; has {
+					dimNames = append(dimNames, name)
+				}
+			}
+			if len(dimNames) == len(ids) {
+				return dimNames
+			}
+			dimNames = dimNames[:0]
+		}
+	}
+
 	for i := range obj.attrlist {
 		h5.parseAttr(obj, obj.attrlist[i])
 		a := obj.attrlist[i]
-- 
2.43.0

