From 0c5eeaef308715111e8bc8792c1b3bb6d8be9db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 01/63] fix: accept the _FillValue attribute of character
 variables

---
 netcdf/cdf/cdf.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 8700213..c8ee40e 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -1276,7 +1276,15 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 	case typeChar:
 		var fv byte
 		if hasUserFV {
-			fv = userFV.(byte)
+			switch c := userFV.(type) {
+			case string: // how character attributes are read
+				if len(c) != 1 {
+					thrower.Throw(ErrFillValue)
+				}
+				fv = c[0]
+			default:
+				fv = userFV.(byte)
+			}
 		} else {
 			fv = byte(internal.FillChar)
 		}
-- 
2.43.0


From 43bf2690b23ac017eea95b97dfa92a3ec3650412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 02/63] fix: empty character arrays are slices of strings like
 non-empty ones

---
 netcdf/cdf/cdf.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index c8ee40e..6382178 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -922,11 +922,17 @@ func (cdf *CDF) newRecordReader(v *variable, start int64, size int64) io.Reader
 	return io.MultiReader(readers...)
 }
 
-func emptySlice(v any, dimLengths []uint64) any {
+func emptySlice(v any, dimLengths []uint64, vType uint32) any {
 	top := reflect.ValueOf(v)
 	elemType := top.Type().Elem()
+	nDims := len(dimLengths)
+	if vType == typeChar && nDims > 1 {
+		// the last dimension is the length of the strings
+		elemType = reflect.TypeOf("")
+		nDims--
+	}
 	var empty reflect.Value
-	for range len(dimLengths) {
+	for range nDims {
 		empty = reflect.MakeSlice(reflect.SliceOf(elemType), 0, 0)
 		elemType = empty.Type()
 	}
@@ -1103,7 +1109,7 @@ func (cdf *CDF) convert(data any, dimLengths []uint64, vType uint32) any {
 
 	v := reflect.ValueOf(data)
 	if v.Len() == 0 {
-		return emptySlice(data, dimLengths)
+		return emptySlice(data, dimLengths, vType)
 	}
 	if len(dimLengths) == 0 {
 		elem := v.Index(0)
-- 
2.43.0


From ad68aa46f734b77bc97bdea7ecd84cfbbb4d83f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 03/63] fix: read slices of record variables from their own
 records, and fill whole elements past the end of the file

---
 netcdf/cdf/cdf.go | 94 ++++++++++++++---------------------------------
 1 file changed, 27 insertions(+), 67 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 6382178..bab450b 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -425,7 +425,7 @@ func (cdf *CDF) getVar(bf io.Reader) variable {
 		default:
 			thrower.Throw(ErrUnknownType)
 		}
-		cdf.recSize += uint64(vsize)
+		cdf.recSize += roundInt32(n)
 		usedVsize = n
 	}
 	var offset uint64
@@ -518,21 +518,9 @@ func (cdf *CDF) readHeader() (err error) {
 			fmt.Sprint("No record variables, size should be zero: ", cdf.recSize),
 			ErrInternal)
 	case 1:
-		firstLen := uint64(firstRecordVar.vsize)
-		switch firstRecordVar.vType {
-		case typeByte, typeUByte, typeChar:
-			cdf.recSize = 1 * firstLen
-			cdf.specialCase = true
-		case typeShort, typeUShort:
-			cdf.recSize = 2 * firstLen
-			cdf.specialCase = true
-		}
-	default:
-		newRecSize := roundInt32(cdf.recSize)
-		if newRecSize != cdf.recSize {
-			logger.Info("rounded recsize=", newRecSize, "orig=", cdf.recSize)
-			cdf.recSize = newRecSize
-		}
+		// the records of a lone record variable are not padded
+		cdf.recSize = uint64(firstRecordVar.vsize)
+		cdf.specialCase = true
 	}
 	return nil
 }
@@ -658,37 +646,34 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 			nChunks = int64(end - begin)
 		}
 		sliceSize := int64(1)
-		var start int64
-		var sizeInBytes int64
+		elemSize := int64(1)
 
 		sliceSize = nChunks * chunkSize
-		start = begin * chunkSize
 		switch varFound.vType {
 		case typeDouble, typeInt64, typeUInt64:
-			start *= 8
-			sizeInBytes = sliceSize * 8
+			elemSize = 8
 		case typeInt, typeFloat, typeUInt:
-			start *= 4
-			sizeInBytes = sliceSize * 4
+			elemSize = 4
 		case typeShort, typeUShort:
-			start *= 2
-			sizeInBytes = sliceSize * 2
+			elemSize = 2
 		case typeChar, typeByte, typeUByte:
-			sizeInBytes = sliceSize
+			elemSize = 1
 		default:
 			thrower.Throw(ErrInternal)
 		}
 
-		var bf io.Reader
+		raw := make([]byte, sliceSize*elemSize)
 		if unlimited && !cdf.specialCase {
-			bf = cdf.newRecordReader(&varFound, start, sizeInBytes)
+			// one record at a time
+			recordSize := chunkSize * elemSize
+			for i := int64(0); i < nChunks; i++ {
+				cdf.readFilled(&varFound, raw[i*recordSize:(i+1)*recordSize],
+					int64(varFound.begin)+(begin+i)*int64(cdf.recSize), elemSize)
+			}
 		} else {
-			seekTo(cdf.file, int64(varFound.begin)+start)
-			bf = io.LimitReader(makeFillValueReader(varFound,
-				io.Reader(bufio.NewReader(cdf.file))), sizeInBytes)
+			cdf.readFilled(&varFound, raw, int64(varFound.begin)+begin*chunkSize*elemSize, elemSize)
 		}
 
-		// in case of unlimited, should read a record at a time, using cdf.recSize
 		var data any
 		switch varFound.vType {
 		case typeByte:
@@ -727,7 +712,7 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 		default:
 			fail("unknown type", ErrUnknownType)
 		}
-		err := binary.Read(bf, binary.BigEndian, data)
+		_, err := binary.Decode(raw, binary.BigEndian, data)
 		if err != nil {
 			return nil, err
 		}
@@ -885,41 +870,16 @@ func (cdf *CDF) GetVariable(name string) (v *api.Variable, err error) {
 		Attributes: sl.Attributes()}, nil
 }
 
-// Seeks and read bytes
-type seekReader struct {
-	file   io.ReadSeeker
-	offset int64
-	reader io.Reader
-}
-
-func (sr *seekReader) Read(p []byte) (int, error) {
-	if sr.reader == nil {
-		seekTo(sr.file, sr.offset)
-		sr.reader = bufio.NewReader(sr.file)
+// readFilled reads the bytes at the given offset. Elements that are not (completely) in the file
+// are given the fill value.
+func (cdf *CDF) readFilled(v *variable, p []byte, offset int64, elemSize int64) {
+	seekTo(cdf.file, offset)
+	n, err := io.ReadFull(cdf.file, p)
+	if err == io.EOF || err == io.ErrUnexpectedEOF {
+		missing := p[int64(n)/elemSize*elemSize:]
+		_, err = io.ReadFull(makeFillValueReader(*v, bytes.NewReader(nil)), missing)
 	}
-	return sr.reader.Read(p)
-}
-
-func newSeekReader(file io.ReadSeeker, offset int64) io.Reader {
-	return &seekReader{file: file, offset: offset, reader: nil}
-}
-
-func (cdf *CDF) newRecordReader(v *variable, start int64, size int64) io.Reader {
-	readers := make([]io.Reader, cdf.numRecs)
-
-	for i := uint64(0); i < uint64(cdf.numRecs) && size > 0; i++ {
-		increment := int64(i) * int64(cdf.recSize)
-		if start > increment {
-			continue
-		}
-		offset := int64(v.begin) + increment
-		begin := offset + start
-		thisSize := v.vsize
-		readers[i] = io.LimitReader(newSeekReader(cdf.file, begin), thisSize)
-		size -= thisSize
-		start = 0
-	}
-	return io.MultiReader(readers...)
+	thrower.ThrowIfError(err)
 }
 
 func emptySlice(v any, dimLengths []uint64, vType uint32) any {
-- 
2.43.0


From de10babf514e7405ed67c7f92047420c8375f702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 04/63] fix: refuse slices outside a CDF variable; slice the
 last dimension of character arrays

---
 internal/slicer.go | 8 ++++++++
 netcdf/cdf/cdf.go  | 7 +++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/slicer.go b/internal/slicer.go
index 9939390..3af06bd 100644
--- a/internal/slicer.go
+++ b/internal/slicer.go
@@ -104,6 +104,14 @@ func sliceRecursive(v reflect.Value, dims []uint64, begin, end []int64) reflect.
 		}
 		return sliced
 	}
+	if v.Kind() == reflect.String && len(dims) == 1 {
+		// The last dimension of a character array is the length of the strings, which may
+		// be shorter than that if the end is missing.
+		length := int64(v.Len())
+		b := min(begin[0], length)
+		e := min(end[0], length)
+		return v.Slice(int(b), int(e))
+	}
 	// For scalars or base types at the end of recursion
 	return v
 }
diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index bab450b..9cb983f 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -631,7 +631,7 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 		length = int64(dimLengths[0])
 	}
 	getSlice := func(begin, end int64) (any, error) {
-		if end < begin {
+		if begin < 0 || end < begin || end > length {
 			return nil, errors.New("invalid slice parameters")
 		}
 		var nChunks int64
@@ -731,8 +731,11 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 		if len(begin) != len(dimLengths) || len(end) != len(dimLengths) {
 			return nil, ErrTooManyDimensions
 		}
+		if len(dimLengths) == 0 {
+			return getSlice(0, length) // scalar
+		}
 		for i := range begin {
-			if end[i] < begin[i] {
+			if begin[i] < 0 || end[i] < begin[i] || end[i] > int64(dimLengths[i]) {
 				return nil, errors.New("invalid slice parameters")
 			}
 		}
-- 
2.43.0


From 225bf0a5a3a3ef17b6ab8126e228ac603d30a2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 05/63] fix: put the chunks of any chunk shape in their place,
 for whole variables and slices

---
 netcdf/hdf5/hdf5.go    |  35 +++++---
 netcdf/hdf5/readers.go | 190 ++++++++++++++++++++---------------------
 2 files changed, 118 insertions(+), 107 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 69bcdca..ddd0885 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2491,8 +2491,22 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 			size = lastOffset - firstOffset
 		}
 	}
+	// The keys of the b-tree are ordered by the position of the chunks in the variable
+	firstKey, lastKey := firstOffset, lastOffset
+	if needsLayoutReader(obj.objAttr) {
+		// Whole slabs of chunks
+		first, last := sliceRows(obj.objAttr)
+		layout := obj.objAttr.layout[0]
+		_, slabSize := chunkGrid(obj.objAttr)
+		firstOffset = first / layout * slabSize
+		lastOffset = (last + layout - 1) / layout * slabSize
+		size = lastOffset - firstOffset
+		rowSize := calcDataSize(obj.objAttr) / obj.objAttr.dimensions[0] * uint64(obj.objAttr.length)
+		firstKey = first / layout * layout * rowSize
+		lastKey = last * rowSize
+	}
 	if nBlocks == 0 && obj.btreeAddr != 0 {
-		h5.readBTreeNode(obj, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality, firstOffset, lastOffset)
+		h5.readBTreeNode(obj, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality, firstKey, lastKey)
 		nBlocks = len(obj.dataBlocks)
 	}
 	if nBlocks == 0 {
@@ -2619,8 +2633,8 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 		readers = append(readers, newResetReader(r, int64(seg.length)))
 		off += seg.length
 	}
-	if size > off {
-		extra := size - off
+	if lastOffset > off {
+		extra := lastOffset - off
 		logger.Infof("Fill value reader at end offset 0x%x length %d",
 			off, extra)
 		readers = append(readers, makeFillValueReader(obj, nil, int64(extra)))
@@ -2710,12 +2724,7 @@ func (h5 *HDF5) getData(obj *object) any {
 		case attr.dimensions[0] == 0:
 			chunkSize = 0
 		default:
-			chunkSize = int64(sz) / int64(attr.dimensions[0])
-			if needsLayoutReader(attr) {
-				// The above calculation could be wrong due to layout chunks.
-				// The calculation is not simple and is a TODO.
-				logger.Info("var slices with chunked layout not fully implemented")
-			}
+			chunkSize = int64(calcDataSize(attr)*uint64(attr.length)) / int64(attr.dimensions[0])
 		}
 		sliceSize := chunkSize * (attr.lastDim - attr.firstDim)
 		bff = newResetReader(bf, sliceSize)
@@ -3304,9 +3313,11 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 			return nil, errors.New("invalid slice parameters")
 		}
 		fakeObj := *found
-		fakeObj.objAttr.isSlice = true
-		fakeObj.objAttr.firstDim = begin
-		fakeObj.objAttr.lastDim = end
+		fakeAttr := *found.objAttr // the original must not become a slice
+		fakeAttr.isSlice = true
+		fakeAttr.firstDim = begin
+		fakeAttr.lastDim = end
+		fakeObj.objAttr = &fakeAttr
 		data := h5.getData(&fakeObj)
 		if data == nil {
 			return nil, ErrNotFound
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 28f222b..6872284 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -335,12 +335,12 @@ func (r *unshuffleReader) Read(p []byte) (int, error) {
 }
 
 type layoutReader struct {
-	r           remReader
-	obj         *object
-	buf         []byte
-	size        int64
-	count       uint64 // number bytes produced
-	stripeIndex int
+	r         remReader
+	obj       *object
+	buf       []byte
+	size      int64
+	count     uint64 // number bytes produced
+	slabIndex int
 }
 
 // calcChunkSize calculates the size of a chunk
@@ -398,119 +398,115 @@ func calculateFlatOffset(offsets []uint64, dims []uint64, layout []uint64, dtLen
 	return flatChunkIndex * chunkSize * dtLength
 }
 
+// sliceRows returns the range of the first dimension that is to be read.
+func sliceRows(attr *attribute) (first, last uint64) {
+	if attr.isSlice {
+		return uint64(attr.firstDim), uint64(attr.lastDim)
+	}
+	return 0, attr.dimensions[0]
+}
+
+// chunkGrid returns the number of chunks along each dimension, and the size in bytes of a slab:
+// all of the chunks that start at the same index of the first dimension.
+func chunkGrid(attr *attribute) ([]uint64, uint64) {
+	grid := make([]uint64, len(attr.dimensions))
+	slabSize := calcChunkSize(attr) * uint64(attr.length)
+	for i := range grid {
+		grid[i] = (attr.dimensions[i] + attr.layout[i] - 1) / attr.layout[i]
+		if i > 0 {
+			slabSize *= grid[i]
+		}
+	}
+	return grid, slabSize
+}
+
+// fillrow reads one slab of chunks, and puts their rows into lr.buf in the order of the variable.
 func (lr *layoutReader) fillrow() error {
 	attr := lr.obj.objAttr
 	dims := attr.dimensions
 	layout := attr.layout
 	dtLength := uint64(attr.length)
 	rank := len(dims)
+	grid, slabSize := chunkGrid(attr)
 
-	// Grid dimensions
-	g := make([]int, rank)
-	totalStripes := 1
-	for i := range rank {
-		g[i] = int((dims[i] + layout[i] - 1) / layout[i])
-		if i < rank-1 {
-			totalStripes *= g[i]
-		}
-	}
-
-	if lr.stripeIndex >= totalStripes {
+	// Rows of the variable that are wanted from this slab
+	firstRow, lastRow := sliceRows(attr)
+	slabStart := (firstRow/layout[0] + uint64(lr.slabIndex)) * layout[0]
+	if slabStart >= lastRow {
 		return io.EOF
 	}
-
-	// Current stripe grid coordinates
-	stripeCoords := make([]int, rank-1)
-	tempIndex := lr.stripeIndex
-	for i := rank - 2; i >= 0; i-- {
-		stripeCoords[i] = tempIndex % g[i]
-		tempIndex /= g[i]
-	}
-
-	// Calculate number of valid rows in this stripe
-	// A "row" here is the last dimension.
-	numRowsInStripe := 1
-	validCounts := make([]int, rank-1)
-	for i := range rank - 1 {
-		start := uint64(stripeCoords[i]) * layout[i]
-		end := start + layout[i]
-		if end > dims[i] {
-			end = dims[i]
-		}
-		validCounts[i] = int(end - start)
-		numRowsInStripe *= validCounts[i]
-	}
-
-	// Stripe buffer size
-	lineLen := dims[rank-1]
-	lr.buf = make([]byte, uint64(numRowsInStripe)*lineLen*dtLength)
-
-	// Read one stripe of chunks
-	numChunksInStripe := g[rank-1]
-	chunkSize := calcChunkSize(attr)
-	readBuf := make([]byte, chunkSize*dtLength)
-
-	for gc := range numChunksInStripe {
+	begin := max(firstRow, slabStart)
+	end := min(lastRow, slabStart+layout[0])
+
+	// Number of elements between neighbors in each dimension of the variable
+	stride := make([]uint64, rank)
+	n := uint64(1)
+	for i := rank - 1; i >= 0; i-- {
+		stride[i] = n
+		n *= dims[i]
+	}
+	lr.buf = make([]byte, (end-begin)*stride[0]*dtLength)
+
+	chunkBytes := calcChunkSize(attr) * dtLength
+	readBuf := make([]byte, chunkBytes)
+	lineLen := layout[rank-1]
+	numLines := calcChunkSize(attr) / lineLen
+	start := make([]uint64, rank) // where the current chunk starts
+	index := make([]uint64, rank) // where the current line starts
+	for gc := range slabSize / chunkBytes {
 		// Read one chunk
 		_, err := io.ReadFull(lr.r, readBuf)
 		if err != nil {
 			return err
 		}
-
-		// Interleave this chunk's rows into lr.buf
-		numRowsInChunk := 1
-		for i := range rank - 1 {
-			numRowsInChunk *= int(layout[i])
+		start[0] = slabStart
+		for i, rem := rank-1, gc; i > 0; i-- {
+			start[i] = rem % grid[i] * layout[i]
+			rem /= grid[i]
 		}
 
-		chunkLineLen := layout[rank-1]
-		delta := make([]int, rank-1)
-
-		for rc := range numRowsInChunk {
-			// Decode rc into local relative coordinates
-			tempRC := rc
-			for i := rank - 2; i >= 0; i-- {
-				delta[i] = tempRC % int(layout[i])
-				tempRC /= int(layout[i])
-			}
-
-			// Check if this row is valid in the dataset
-			isValid := true
-			for i := range rank - 1 {
-				if uint64(stripeCoords[i])*layout[i]+uint64(delta[i]) >= dims[i] {
-					isValid = false
+		// Copy the lines (along the last dimension) that are wanted
+		for line := range numLines {
+			wanted := true
+			destOffset := uint64(0)
+			copyLen := lineLen
+			skipped := uint64(0)
+			for i, rem := rank-1, line; i >= 0; i-- {
+				index[i] = start[i]
+				if i < rank-1 {
+					index[i] += rem % layout[i]
+					rem /= layout[i]
+				}
+				low, high := uint64(0), dims[i]
+				if i == 0 {
+					low, high = begin, end
+				}
+				if i == rank-1 {
+					// part of the line may be unwanted
+					if index[i] < low {
+						skipped = min(low-index[i], copyLen)
+						copyLen -= skipped
+						index[i] = low
+					}
+					if index[i] < high {
+						copyLen = min(copyLen, high-index[i])
+					}
+				}
+				if index[i] < low || index[i] >= high || copyLen == 0 {
+					wanted = false
 					break
 				}
+				destOffset += (index[i] - low) * stride[i]
 			}
-
-			if !isValid {
-				continue
-			}
-
-			destRowIndex := 0
-			stride := 1
-			for i := rank - 2; i >= 0; i-- {
-				destRowIndex += delta[i] * stride
-				stride *= validCounts[i]
-			}
-
-			srcOffset := uint64(rc) * chunkLineLen * dtLength
-			destColOffset := uint64(gc) * layout[rank-1]
-			if destColOffset >= lineLen {
+			if !wanted {
 				continue
 			}
-
-			destOffset := (uint64(destRowIndex)*lineLen + destColOffset) * dtLength
-			copyLen := chunkLineLen
-			if destColOffset+copyLen > lineLen {
-				copyLen = lineLen - destColOffset
-			}
-
-			copy(lr.buf[destOffset:destOffset+copyLen*dtLength], readBuf[srcOffset:srcOffset+copyLen*dtLength])
+			src := readBuf[(line*lineLen+skipped)*dtLength:]
+			copy(lr.buf[destOffset*dtLength:], src[:copyLen*dtLength])
 		}
 	}
 
-	lr.stripeIndex++
+	lr.slabIndex++
 	return nil
 }
 
@@ -538,5 +534,9 @@ func (lr *layoutReader) Count() int64 {
 
 func newLayoutReader(r remReader, obj *object) io.Reader {
 	size := calcDataSize(obj.objAttr) * uint64(obj.objAttr.length)
+	if size > 0 {
+		first, last := sliceRows(obj.objAttr)
+		size = size / obj.objAttr.dimensions[0] * (last - first)
+	}
 	return &layoutReader{r, obj, nil, int64(size), 0, 0}
 }
-- 
2.43.0


From 1846117daee178df6c0453260289858960dbea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 06/63] fix: keep the values of opaque attributes without a tag

---
 netcdf/hdf5/opaque.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/netcdf/hdf5/opaque.go b/netcdf/hdf5/opaque.go
index 50b9cfb..4f2d27c 100644
--- a/netcdf/hdf5/opaque.go
+++ b/netcdf/hdf5/opaque.go
@@ -44,6 +44,9 @@ func (opaqueManagerType) defaultFillValue(obj *object, objFillValue []byte, unde
 }
 
 func (opaqueManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader, df remReader) {
+	if df != nil && df.Rem() >= int64(attr.length) {
+		attr.df = newResetReaderSave(df, df.Rem())
+	}
 	if bf.Rem() == 0 {
 		logger.Info("No properties for opaque")
 		return
@@ -59,9 +62,6 @@ func (opaqueManagerType) parse(hr heapReader, c caster, attr *attribute, bitFiel
 		checkVal(0, tag[i],
 			fmt.Sprint("reserved byte should be zero: ", i))
 	}
-	if df != nil && df.Rem() >= int64(attr.length) {
-		attr.df = newResetReaderSave(df, df.Rem())
-	}
 }
 
 func allocOpaque(bf io.Reader, dimLengths []uint64, length uint32,
-- 
2.43.0


From 047235ae815c04e33a4ed4a560ab043a6586b104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 07/63] fix: compute fletcher32 sums that are multiples of
 65535 as HDF5 does

---
 netcdf/hdf5/readers.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 6872284..b2d9324 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -101,9 +101,13 @@ func (fl *fletcher) Read(b []byte) (int, error) {
 	if err != nil && err != io.EOF {
 		return 0, err
 	}
+	// One's complement addition: unlike with a modulo, a non-zero sum never becomes zero.
+	reduce := func(sum uint32) uint32 {
+		return (sum & 0xffff) + (sum >> 16)
+	}
 	addToSums := func(val uint16) {
-		fl.sum1 = (fl.sum1 + uint32(val)) % 65535
-		fl.sum2 = (fl.sum1 + fl.sum2) % 65535
+		fl.sum1 = reduce(fl.sum1 + uint32(val))
+		fl.sum2 = reduce(fl.sum1 + fl.sum2)
 	}
 	for i := 0; i < n; i++ {
 		var val uint16
-- 
2.43.0


From 33a132b76e7b799fac50c796ad816ed3cbeca979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 08/63] fix: read character arrays of two or more dimensions

---
 netcdf/hdf5/string.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/string.go b/netcdf/hdf5/string.go
index 4721ee1..13ba2a6 100644
--- a/netcdf/hdf5/string.go
+++ b/netcdf/hdf5/string.go
@@ -74,7 +74,12 @@ func allocRegularStrings(bf io.Reader, dimLengths []uint64, dtlen uint32) any {
 		return values
 	}
 	ty := reflect.TypeOf("")
-	vals := makeSlices(ty, dimLengths)
+	sliceDims := dimLengths
+	if dtlen == 1 {
+		// the last dimension is the length of the strings
+		sliceDims = dimLengths[:len(dimLengths)-1]
+	}
+	vals := makeSlices(ty, sliceDims)
 	for i := uint64(0); i < thisDim; i++ {
 		vals.Index(int(i)).Set(reflect.ValueOf(allocRegularStrings(bf, dimLengths[1:], dtlen)))
 	}
-- 
2.43.0


From 22c60e2a7b22deaaf94c61d5880130d121e497d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 09/63] fix: keep the bytes after the last whole element when
 unshuffling

---
 netcdf/hdf5/readers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index b2d9324..25ced84 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -309,6 +309,8 @@ func unshuffle(val []byte, n uint32) {
 			tmp[j*int(n)+i] = val[i*nelems+j]
 		}
 	}
+	// What is left over is not shuffled
+	copy(tmp[nelems*int(n):], val[nelems*int(n):])
 	copy(val, tmp)
 }
 
-- 
2.43.0


From 379999543819e0a94bcfb7d3b66749d213827ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 10/63] fix: take the tag length of opaque types from the class
 bits, also inside compounds

---
 netcdf/hdf5/opaque.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/opaque.go b/netcdf/hdf5/opaque.go
index 4f2d27c..1ae46e4 100644
--- a/netcdf/hdf5/opaque.go
+++ b/netcdf/hdf5/opaque.go
@@ -47,11 +47,12 @@ func (opaqueManagerType) parse(hr heapReader, c caster, attr *attribute, bitFiel
 	if df != nil && df.Rem() >= int64(attr.length) {
 		attr.df = newResetReaderSave(df, df.Rem())
 	}
-	if bf.Rem() == 0 {
+	// In a compound, what remains also includes the types of other fields.
+	plen := int(bitFields & 0xff)
+	if plen == 0 {
 		logger.Info("No properties for opaque")
 		return
 	}
-	plen := int(bf.Rem())
 	tag := make([]byte, plen)
 	// The tag is a user-defined ASCII string describing the opaque data (per the HDF5 spec).
 	read(bf, tag)
-- 
2.43.0


From 50a9b6b3faae7ab5b157946d9c0d50c9f3858f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 11/63] fix: allocate empty variable-length arrays without
 panicking

---
 netcdf/hdf5/vlen.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index bbf8091..50bbab7 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -213,6 +213,12 @@ func allocVariable(hr heapReader, c caster, bf io.Reader, dimLengths []uint64, a
 		return sl.Interface()
 	}
 	thisDim := dimLengths[0]
+	if thisDim == 0 {
+		// There's no value to get the type from, so we fake an empty one.
+		empty := newResetReaderFromBytes(make([]byte, 16))
+		t := reflect.TypeOf(allocVariable(hr, c, empty, nil, attr, cast))
+		return makeSlices(t, dimLengths).Interface()
+	}
 	if len(dimLengths) == 1 {
 		// For scalars, this can be faster using binary.Read
 		vals := make([]any, thisDim)
-- 
2.43.0


From 04097428eacd2d16b956ca346dfb2eb1227889b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 12/63] fix: do not take an array field for a named opaque
 type, nor change its type by reading it

---
 netcdf/hdf5/array.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/netcdf/hdf5/array.go b/netcdf/hdf5/array.go
index db710d0..d77ab50 100644
--- a/netcdf/hdf5/array.go
+++ b/netcdf/hdf5/array.go
@@ -22,10 +22,8 @@ func (arrayManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute
 		dStr[i] = fmt.Sprintf("%d", d)
 	}
 	dims := strings.Join(dStr, ",")
-	signature := fmt.Sprintf("%s(%s)", ty, dims)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
-	assert(namedType == "", "arrays are not named types")
-	return signature
+	// Arrays are not named types.
+	return fmt.Sprintf("%s(%s)", ty, dims)
 }
 
 func (arrayManagerType) goTypeString(sh sigHelper, typeName string, attr *attribute, origNames map[string]bool) string {
@@ -37,10 +35,8 @@ func (arrayManagerType) goTypeString(sh sigHelper, typeName string, attr *attrib
 		dStr[i] = fmt.Sprintf("[%d]", d)
 	}
 	dims := strings.Join(dStr, "")
-	signature := fmt.Sprintf("%s%s", dims, ty)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
-	assert(namedType == "", "arrays are not named types")
-	return signature
+	// Arrays are not named types, but could look like one (an opaque is a [n]uint8).
+	return fmt.Sprintf("%s%s", dims, ty)
 }
 
 func (arrayManagerType) alloc(hr heapReader, c caster, bf io.Reader, attr *attribute,
@@ -48,16 +44,17 @@ func (arrayManagerType) alloc(hr heapReader, c caster, bf io.Reader, attr *attri
 	logger.Info("orig dimensions=", attr.dimensions)
 	logger.Info("Array length=", attr.length)
 	logger.Info("Array dimensions=", dimensions)
-	arrayAttr := attr.children[0]
+	arrayAttr := *attr.children[0] // a copy, the type must not change by being read
 	logger.Info("child dimensions=", arrayAttr.dimensions)
 	logger.Info("childlength=", arrayAttr.length)
-	newDimensions := append(dimensions, arrayAttr.dimensions...)
+	newDimensions := make([]uint64, 0, len(dimensions)+len(arrayAttr.dimensions))
+	newDimensions = append(append(newDimensions, dimensions...), arrayAttr.dimensions...)
 	arrayAttr.dimensions = newDimensions
 	logger.Info("new dimensions=", newDimensions)
 	cbf := bf.(remReader)
 	logger.Info(cbf.Count(), "child length", arrayAttr.length)
 	logger.Info(cbf.Count(), "array", "class", arrayAttr.class)
-	return getDataAttr(hr, c, cbf, *arrayAttr)
+	return getDataAttr(hr, c, cbf, arrayAttr)
 }
 
 func (arrayManagerType) defaultFillValue(obj *object, objFillValue []byte, undefinedFillValue bool) []byte {
-- 
2.43.0


From b0a558bfe158f92d00d41c9f8e1bb98082ef6a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 13/63] fix: keep the element type of empty variable-length
 values; refuse dangling heap references

---
 netcdf/hdf5/hdf5.go | 21 ++-------------------
 netcdf/hdf5/vlen.go |  1 +
 2 files changed, 3 insertions(+), 19 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index ddd0885..c700d2d 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3438,24 +3438,6 @@ func (h5 *HDF5) ListVariables() []string {
 	return ret
 }
 
-func emptySlice(v any) reflect.Value {
-	top := reflect.ValueOf(v)
-	elemType := top.Type().Elem()
-	slices := 0
-	// count how many slices we need to make
-	for elemType.Kind() == reflect.Slice {
-		elemType = elemType.Elem()
-		slices++
-	}
-	// here's one slice
-	empty := reflect.MakeSlice(reflect.SliceOf(elemType), 0, 0)
-	// here are the rest
-	for i := 1; i < slices; i++ {
-		empty = reflect.MakeSlice(reflect.SliceOf(empty.Type()), 0, 0)
-	}
-	return empty
-}
-
 func undoInterfaces(v any) reflect.Value {
 	top := reflect.ValueOf(v)
 	if top.Kind() != reflect.Slice {
@@ -3469,7 +3451,8 @@ func undoInterfaces(v any) reflect.Value {
 	}
 	length := reflect.ValueOf(v).Len()
 	if length == 0 {
-		return emptySlice(v)
+		// nothing to convert, and it already has the right type
+		return top
 	}
 	underlying := undoInterfaces(top.Index(0).Interface())
 	val := reflect.MakeSlice(reflect.SliceOf(underlying.Type()), length, length)
diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index 50bbab7..1442a0a 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -191,6 +191,7 @@ func allocVariable(hr heapReader, c caster, bf io.Reader, dimLengths []uint64, a
 			bff = newResetReaderFromBytes(s)
 		} else {
 			bff, _ = hr.readGlobalHeap(addr, index)
+			assert(bff != nil, "no such global heap object")
 		}
 		var t reflect.Type
 		val0 = getDataAttr(hr, c, bff, attr)
-- 
2.43.0


From 4f428bd16436905235c88f5595e6f90820d24aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 14/63] fix: refuse empty slices of CDF scalars instead of
 reading past them

---
 netcdf/cdf/cdf.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 9cb983f..4a91e35 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -634,6 +634,10 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 		if begin < 0 || end < begin || end > length {
 			return nil, errors.New("invalid slice parameters")
 		}
+		if len(dimLengths) == 0 && begin == end {
+			// scalars have no empty slice
+			return nil, errors.New("invalid slice parameters")
+		}
 		var nChunks int64
 		switch {
 		case len(dimLengths) == 0:
-- 
2.43.0


From d988947ad15b0b0973b81b259d7ee1be1a9418f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 15/63] fix: refuse slices outside an HDF5 variable; slice
 scalars and enums

---
 netcdf/hdf5/hdf5.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index c700d2d..838c98b 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3309,7 +3309,7 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 			}
 			return data, nil
 		}
-		if end < begin {
+		if fakeEnd || begin < 0 || end < begin || end > d {
 			return nil, errors.New("invalid slice parameters")
 		}
 		fakeObj := *found
@@ -3328,8 +3328,11 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		if len(begin) != len(found.objAttr.dimensions) || len(end) != len(found.objAttr.dimensions) {
 			return nil, ErrDimensionality
 		}
+		if len(begin) == 0 {
+			return getSlice(0, d) // scalar
+		}
 		for i := range begin {
-			if end[i] < begin[i] {
+			if begin[i] < 0 || end[i] < begin[i] || end[i] > int64(found.objAttr.dimensions[i]) {
 				return nil, errors.New("invalid slice parameters")
 			}
 		}
@@ -3350,6 +3353,10 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		copy(newEnd, end)
 		newEnd[0] = end[0] - begin[0]
 
+		if enum, ok := partialData.(enumerated); ok {
+			enum.values, err = internal.SliceMD(enum.values, newDims, newBegin, newEnd)
+			return enum, err
+		}
 		return internal.SliceMD(partialData, newDims, newBegin, newEnd)
 	}
 	dims := h5.getDimensions(found)
-- 
2.43.0


From 54f3a3ef700e52d48fb28fbcd1fc2fd6fe6febd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 16/63] fix: list attributes, subgroups and types in creation
 order

---
 netcdf/hdf5/hdf5.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 838c98b..aa15548 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -1923,12 +1923,13 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 			logger.Info("header message flag: must fail to open if you don't understand type")
 		}
 
+		co := uint16(0)
 		if hasFlag8(ohFlags, 2) {
 			if bf.Rem() < 2 {
 				logger.Info("no chunks to read creation order")
 				break
 			}
-			co := read16(bf)
+			co = read16(bf)
 			logger.Infof("creation order = %d", co)
 		}
 		if size == 0 && version > 1 {
@@ -2026,7 +2027,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 
 		case typeAttribute:
 			logger.Infof("Attribute, obj addr=0x%x", obj.addr)
-			h5.readAttribute(obj, f, 0)
+			h5.readAttribute(obj, f, uint64(co))
 
 		case typeObjectComment:
 			comment := readNullTerminatedName(f, 0)
@@ -3019,7 +3020,7 @@ func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
 // ListTypes returns the user-defined type names.
 func (h5 *HDF5) ListTypes() []string {
 	var ret []string
-	for typeName, obj := range h5.groupObject.children {
+	for _, obj := range h5.groupObject.sortChildren() {
 		if obj.isGroup {
 			continue
 		}
@@ -3030,7 +3031,7 @@ func (h5 *HDF5) ListTypes() []string {
 			// this is a variable
 			continue
 		}
-		ret = append(ret, typeName)
+		ret = append(ret, obj.name)
 	}
 	return ret
 }
@@ -3070,7 +3071,8 @@ func (h5 *HDF5) findSignature(signature string, name string, origNames map[strin
 	if h5.groupObject == nil {
 		return ""
 	}
-	for varName, obj := range h5.groupObject.children {
+	for _, obj := range h5.groupObject.sortChildren() {
+		varName := obj.name
 		if obj.isGroup || origNames[varName] {
 			continue
 		}
@@ -3109,6 +3111,7 @@ func (h5 *HDF5) parseAttr(obj *object, a *attribute) {
 
 func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 	filtered := make(map[string]any)
+	keys := []string{} // in order
 	for i := range unfiltered {
 		val := unfiltered[i]
 		logger.Infof("getting attribute %s %p", val.name, val)
@@ -3126,13 +3129,12 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 				val.value = getDataAttr(h5, h5, val.df, *val)
 			}
 			value := undoScalarAttribute(val.value)
+			if _, has := filtered[val.name]; !has {
+				keys = append(keys, val.name)
+			}
 			filtered[val.name] = value
 		}
 	}
-	keys := []string{}
-	for key := range filtered {
-		keys = append(keys, key)
-	}
 	om, err := newTypedAttributeMap(h5, keys, filtered)
 	thrower.ThrowIfError(err)
 	om.Hide(ncpKey)
@@ -3390,8 +3392,7 @@ func (h5 *HDF5) ListSubgroups() []string {
 			ret = append(ret, tail)
 			return
 		}
-		obj.sortChildren()
-		for _, o := range obj.children {
+		for _, o := range obj.sortChildren() {
 			sgDescend(o, group+o.name+"/")
 		}
 	}
@@ -3406,7 +3407,7 @@ func (h5 *HDF5) sortAttrList(obj *object) {
 	for i := range obj.attrlist {
 		h5.parseAttr(obj, obj.attrlist[i])
 	}
-	sort.Slice(obj.attrlist, func(i, j int) bool {
+	sort.SliceStable(obj.attrlist, func(i, j int) bool {
 		return obj.attrlist[i].creationOrder < obj.attrlist[j].creationOrder
 	})
 	obj.attrListIsSorted = true
@@ -3418,6 +3419,10 @@ func (obj *object) sortChildren() []*object {
 		children = append(children, child)
 	}
 	sort.Slice(children, func(i, j int) bool {
+		if children[i].creationOrder == children[j].creationOrder {
+			// creation order was not tracked
+			return children[i].name < children[j].name
+		}
 		return children[i].creationOrder < children[j].creationOrder
 	})
 	return children
-- 
2.43.0


From dbcff6e6b030c64927cc16233c3136a0d80270e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:16 +0000
Subject: [PATCH 17/63] fix: find the types of attributes of variables and
 subgroups

---
 netcdf/hdf5/amap.go | 18 ++++++++++++------
 netcdf/hdf5/hdf5.go | 15 +++++++--------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/netcdf/hdf5/amap.go b/netcdf/hdf5/amap.go
index b4ec65c..789a31f 100644
--- a/netcdf/hdf5/amap.go
+++ b/netcdf/hdf5/amap.go
@@ -7,18 +7,18 @@ import (
 // Adds callbacks to the standard OrderedMap so we can print
 // out more complex types than the default (structs, enums, etc.)
 type callback struct {
-	h5 *HDF5
-	om *util.OrderedMap
+	h5    *HDF5
+	attrs []*attribute // the attributes in the map
 }
 
 // CDL callback (regular)
 func (c *callback) regCallback(key string) (string, bool) {
-	ret := c.h5.findGlobalAttrType(key)
+	ret := c.h5.findAttrType(c.attrs, key)
 	return ret, ret != ""
 }
 
 func (c *callback) goCallback(key string) (string, bool) {
-	ret := c.h5.findGlobalAttrGoType(key)
+	ret := c.h5.findAttrGoType(c.attrs, key)
 	return ret, ret != ""
 }
 
@@ -26,8 +26,14 @@ func newTypedAttributeMap(h5 *HDF5, keys []string, values map[string]any) (*util
 	om, err := util.NewOrderedMap(keys, values)
 	assertError(err == nil, err, "creating ordered map")
 	if h5 != nil {
-		c := callback{h5, om}
-		om.SetTypeCallbacks(c.regCallback, c.goCallback)
+		setTypeCallbacks(h5, om, h5.groupObject.attrlist)
 	}
 	return om, nil
 }
+
+// setTypeCallbacks makes the map find its types in the given attributes, which are those of
+// the object (group or variable) that the map describes.
+func setTypeCallbacks(h5 *HDF5, om *util.OrderedMap, attrs []*attribute) {
+	c := callback{h5, attrs}
+	om.SetTypeCallbacks(c.regCallback, c.goCallback)
+}
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index aa15548..28203cd 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2915,8 +2915,8 @@ func (h5 *HDF5) findVariable(varName string) *object {
 	return obj
 }
 
-func (h5 *HDF5) findGlobalAttrType(attrName string) string {
-	for _, attr := range h5.rootObject.attrlist {
+func (h5 *HDF5) findAttrType(attrs []*attribute, attrName string) string {
+	for _, attr := range attrs {
 		if attr.name != attrName {
 			continue
 		}
@@ -2931,12 +2931,11 @@ func (h5 *HDF5) findGlobalAttrType(attrName string) string {
 		}
 		return base + dims
 	}
-	fail("didn't find attribute type")
-	panic("silence warning")
+	return ""
 }
 
-func (h5 *HDF5) findGlobalAttrGoType(attrName string) string {
-	for _, attr := range h5.rootObject.attrlist {
+func (h5 *HDF5) findAttrGoType(attrs []*attribute, attrName string) string {
+	for _, attr := range attrs {
 		if attr.name != attrName {
 			continue
 		}
@@ -2951,8 +2950,7 @@ func (h5 *HDF5) findGlobalAttrGoType(attrName string) string {
 		}
 		return dims + base
 	}
-	fail("didn't find attribute type")
-	panic("silence warning")
+	return ""
 }
 
 func (h5 *HDF5) findType(varName string) string {
@@ -3137,6 +3135,7 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 	}
 	om, err := newTypedAttributeMap(h5, keys, filtered)
 	thrower.ThrowIfError(err)
+	setTypeCallbacks(h5, om, unfiltered)
 	om.Hide(ncpKey)
 	return om
 }
-- 
2.43.0


From c217bf4f5ebc5702f09850c8e167af4fc6b47c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:33 +0000
Subject: [PATCH 18/63] fix: keep the bits of signalling NaNs in CDF scalars

---
 netcdf/cdf/cdfwriter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 09d0b64..9c4168c 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -230,7 +230,7 @@ func (cw *CDFWriter) storeUInt64s(val reflect.Value, dimLengths []int64) {
 
 func (cw *CDFWriter) storeFloats(val reflect.Value, dimLengths []int64) {
 	if len(dimLengths) == 0 {
-		f := float32(val.Float())
+		f := val.Interface().(float32)
 		i := math.Float32bits(f)
 		write32(cw.bf, int32(i))
 		return
-- 
2.43.0


From 74fa1988c58b4196a458b74112fa8bb940d550d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:37 +0000
Subject: [PATCH 19/63] fix: pad CDF strings to the longest of all rows

---
 netcdf/cdf/cdfwriter.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 9c4168c..2d84d96 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -264,7 +264,20 @@ func (cw *CDFWriter) storeDoubles(val reflect.Value, dimLengths []int64) {
 	}
 }
 
+// longestString returns the length of the longest string in (nested) slices.
+func longestString(rv reflect.Value) int64 {
+	if rv.Kind() == reflect.String {
+		return int64(rv.Len())
+	}
+	maxLen := int64(0)
+	for i := range rv.Len() {
+		maxLen = max(maxLen, longestString(rv.Index(i)))
+	}
+	return maxLen
+}
+
 func (cw *CDFWriter) getDimLengthsHelper(
+	all reflect.Value,
 	rv reflect.Value,
 	dims []int64,
 	dimNames []string) ([]int64, int) {
@@ -287,12 +300,7 @@ func (cw *CDFWriter) getDimLengthsHelper(
 	case reflect.Array, reflect.Slice:
 		if t.Elem().Kind() == reflect.String {
 			// special case to longest string
-			maxLen := int64(0)
-			for i := range int(vLen) {
-				if int64(rv.Index(i).Len()) > maxLen {
-					maxLen = int64(rv.Index(i).Len())
-				}
-			}
+			maxLen := longestString(all)
 			if maxLen == 0 {
 				thrower.Throw(ErrEmptySlice)
 			}
@@ -308,7 +316,7 @@ func (cw *CDFWriter) getDimLengthsHelper(
 			}
 			return dims, kind
 		}
-		return cw.getDimLengthsHelper(rv.Index(0), dims, dimNames)
+		return cw.getDimLengthsHelper(all, rv.Index(0), dims, dimNames)
 
 	case reflect.String:
 		return dims, typeChar // we will make this an array of characters (bytes)
@@ -322,7 +330,7 @@ func (cw *CDFWriter) getDimLengthsHelper(
 func (cw *CDFWriter) getDimLengths(val any, dimNames []string) ([]int64, int) {
 	v := reflect.ValueOf(val)
 	dims := make([]int64, 0)
-	return cw.getDimLengthsHelper(v, dims, dimNames)
+	return cw.getDimLengthsHelper(v, v, dims, dimNames)
 }
 
 func (cw *CDFWriter) scalarKind(goKind reflect.Kind) int {
-- 
2.43.0


From 0f3a463488bfa17b7190d0108d431025866f65e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 20/63] fix: place CDF variables after an empty one where their
 data are

---
 netcdf/cdf/cdfwriter.go | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 2d84d96..f5a42ee 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -31,6 +31,7 @@ type savedVar struct {
 	dimNames   []string
 	attrs      api.AttributeMap
 	vsize      int64
+	offset     int64
 }
 
 type CDFWriter struct {
@@ -452,7 +453,7 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 		}
 	}
 	cw.vars = append(cw.vars, savedVar{name, vr.Values, ty, dimLengths,
-		vr.Dimensions, vr.Attributes, 0})
+		vr.Dimensions, vr.Attributes, 0, 0})
 	return nil
 }
 
@@ -623,6 +624,17 @@ func (cw *CDFWriter) writeVar(which int) {
 	cw.writeAttributes(saved.attrs)
 
 	write32(cw.bf, int32(saved.ty))
+	cw.writeNumber(int64(saved.vsize))
+	write64(cw.bf, saved.offset)
+}
+
+// isRecord returns true if the variable uses the unlimited dimension.
+func (saved *savedVar) isRecord() bool {
+	return len(saved.dimLengths) > 0 && saved.dimLengths[0] == 0
+}
+
+// computeDataSize returns the (padded) size of the variable, or of one record of it.
+func (cw *CDFWriter) computeDataSize(saved *savedVar) int64 {
 	vsize := int64(0)
 	switch saved.ty {
 	case typeDouble, typeInt64, typeUInt64:
@@ -648,15 +660,23 @@ func (cw *CDFWriter) writeVar(which int) {
 		}
 	}
 	// pad vsize
-	vsize = 4 * ((vsize + 3) / 4)
-	cw.writeNumber(int64(vsize))
-	saved.vsize = vsize
+	return 4 * ((vsize + 3) / 4)
+}
 
+// placeVars decides where the variables go. The record variables follow all the others, and
+// because there are no records, they have no data.
+func (cw *CDFWriter) placeVars() {
 	calcOffset := cw.begin
-	for i := range which {
-		calcOffset += cw.vars[i].vsize
+	for _, wantRecord := range []bool{false, true} {
+		for i := range cw.vars {
+			saved := &cw.vars[i]
+			if saved.isRecord() == wantRecord {
+				saved.vsize = cw.computeDataSize(saved)
+				saved.offset = calcOffset
+				calcOffset += saved.vsize
+			}
+		}
 	}
-	write64(cw.bf, calcOffset)
 }
 
 func (cw *CDFWriter) computeAttributeSize(attrs api.AttributeMap) int64 {
@@ -930,6 +950,7 @@ func (cw *CDFWriter) writeAll() {
 			cw.begin += cw.computeVarSize(&cw.vars[i])
 		}
 
+		cw.placeVars()
 		for i := range cw.vars {
 			cw.writeVar(i)
 		}
-- 
2.43.0


From ebc9458adc0a93454e6fe175614f0804369e28fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 21/63] fix: choose the CDF version from everything written;
 refuse invalid global attributes when added

---
 netcdf/cdf/cdfwriter.go | 53 +++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index f5a42ee..bbaa81a 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -357,23 +357,18 @@ func (cw *CDFWriter) scalarKind(goKind reflect.Kind) int {
 
 		// v5
 	case reflect.Uint8:
-		cw.version = 5
 		return typeUByte
 
 	case reflect.Uint16:
-		cw.version = 5
 		return typeUShort
 
 	case reflect.Uint32:
-		cw.version = 5
 		return typeUInt
 
 	case reflect.Uint64:
-		cw.version = 5
 		return typeUInt64
 
 	case reflect.Int64:
-		cw.version = 5
 		return typeInt64
 
 	}
@@ -395,10 +390,12 @@ func hasValidNames(am api.AttributeMap) bool {
 
 // AddAttributes adds attributes to be written out.
 // Use util.NewOrderedMap to create attribute maps.
-func (cw *CDFWriter) AddAttributes(attrs api.AttributeMap) error {
+func (cw *CDFWriter) AddAttributes(attrs api.AttributeMap) (err error) {
+	defer thrower.RecoverError(&err)
 	if !hasValidNames(attrs) {
 		return ErrInvalidName
 	}
+	checkAttributes(attrs)
 	cw.globalAttrs = attrs
 	return nil
 }
@@ -419,12 +416,8 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	if !hasValidNames(vr.Attributes) {
 		return ErrInvalidName
 	}
-	cw.checkV5Attributes(vr.Attributes)
+	checkAttributes(vr.Attributes)
 	dimLengths, ty := cw.getDimLengths(vr.Values, vr.Dimensions)
-	switch ty {
-	case typeUByte, typeUShort, typeUInt, typeUInt64, typeInt64:
-		cw.version = 5
-	}
 	for i := range dimLengths {
 		var dimName string
 		if i < len(vr.Dimensions) {
@@ -591,7 +584,8 @@ func (cw *CDFWriter) writeAttributes(attrs api.AttributeMap) {
 	}
 }
 
-func (cw *CDFWriter) checkV5Attributes(attrs api.AttributeMap) {
+// checkAttributes throws if there are attributes that cannot be written.
+func checkAttributes(attrs api.AttributeMap) {
 	if attrs == nil {
 		return
 	}
@@ -602,8 +596,6 @@ func (cw *CDFWriter) checkV5Attributes(attrs api.AttributeMap) {
 			[]int8, []int16, []int32, []float32, []float64:
 
 		case []uint64, uint64, []int64, int64, []uint8, uint8, []uint16, uint16, []uint32, uint32:
-			cw.version = 5
-			return
 
 		default:
 			logger.Errorf("invalid attribute %#v", v)
@@ -612,6 +604,35 @@ func (cw *CDFWriter) checkV5Attributes(attrs api.AttributeMap) {
 	}
 }
 
+// hasV5Attributes returns true if the attributes need version 5 of the format.
+func hasV5Attributes(attrs api.AttributeMap) bool {
+	if attrs == nil {
+		return false
+	}
+	for _, k := range attrs.Keys() {
+		v, _ := attrs.Get(k)
+		switch v.(type) {
+		case []uint64, uint64, []int64, int64, []uint8, uint8, []uint16, uint16, []uint32, uint32:
+			return true
+		}
+	}
+	return false
+}
+
+// needsV5 returns true if there are types that only version 5 of the format has.
+func (cw *CDFWriter) needsV5() bool {
+	for i := range cw.vars {
+		switch cw.vars[i].ty {
+		case typeUByte, typeUShort, typeUInt, typeUInt64, typeInt64:
+			return true
+		}
+		if hasV5Attributes(cw.vars[i].attrs) {
+			return true
+		}
+	}
+	return hasV5Attributes(cw.globalAttrs)
+}
+
 func (cw *CDFWriter) writeVar(which int) {
 	saved := &cw.vars[which]
 	cw.writeName(saved.name)
@@ -921,6 +942,9 @@ func (cw *CDFWriter) writeNumber(n int64) {
 }
 
 func (cw *CDFWriter) writeAll() {
+	if cw.needsV5() {
+		cw.version = 5
+	}
 	writeBytes(cw.bf, []byte("CDF"))
 	write8(cw.bf, cw.version) // version 2 to handle big files
 	numRecs := int64(0)       // 0: not unlimited
@@ -937,7 +961,6 @@ func (cw *CDFWriter) writeAll() {
 		write32(cw.bf, 0)        // dimensions: absent
 		cw.writeNumber(int64(0)) // dimensions: absent
 	}
-	cw.checkV5Attributes(cw.globalAttrs)
 	cw.writeAttributes(cw.globalAttrs)
 	if len(cw.vars) > 0 {
 		write32(cw.bf, fieldVariable)
-- 
2.43.0


From 9fe23f7b079309c03614ba88c83ba9c2b1a1659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:16 +0000
Subject: [PATCH 22/63] fix: define CDF dimensions only for accepted variables,
 leave the caller's names alone

---
 internal/validname.go   |  8 ++++++
 netcdf/cdf/cdfwriter.go | 56 ++++++++++++++++++++++++++++++-----------
 2 files changed, 50 insertions(+), 14 deletions(-)

diff --git a/internal/validname.go b/internal/validname.go
index 783a858..ae3360b 100644
--- a/internal/validname.go
+++ b/internal/validname.go
@@ -2,6 +2,7 @@ package internal
 
 import (
 	"regexp"
+	"strings"
 )
 
 const (
@@ -34,3 +35,10 @@ func init() {
 func IsValidNetCDFName(name string) bool {
 	return re.MatchString(name) && !antiRe.MatchString(name)
 }
+
+// IsValidDimensionName returns true if name is a valid dimension name. Unlike the other names, it
+// may start with an underscore: generated dimension names do.
+func IsValidDimensionName(name string) bool {
+	return IsValidNetCDFName(name) ||
+		(strings.HasPrefix(name, "_") && IsValidNetCDFName("d"+name))
+}
diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index bbaa81a..f9644d9 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -418,38 +418,66 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	}
 	checkAttributes(vr.Attributes)
 	dimLengths, ty := cw.getDimLengths(vr.Values, vr.Dimensions)
-	for i := range dimLengths {
-		var dimName string
-		if i < len(vr.Dimensions) {
-			dimName = vr.Dimensions[i]
-		}
+	if len(vr.Dimensions) > len(dimLengths) {
+		return ErrDimensionSize
+	}
+	dimNames := make([]string, len(dimLengths))
+	copy(dimNames, vr.Dimensions)
+	var newNames []string
+	newLengths := make(map[string]int64)
+	for i, dimName := range dimNames {
 		if dimName == "" {
 			if ty == typeChar && i == len(dimLengths)-1 {
 				dimName = fmt.Sprintf("_stringlen_%s", name)
 			} else {
-				dimName = fmt.Sprintf("_dimid_%d", cw.nextID)
+				dimName = fmt.Sprintf("_dimid_%d", cw.nextID+int64(len(newNames)))
 			}
-			vr.Dimensions = append(vr.Dimensions, dimName)
+			dimNames[i] = dimName
+		} else if !internal.IsValidDimensionName(dimName) {
+			return ErrInvalidName
+		}
+		if dimLengths[i] == 0 && i != 0 {
+			return ErrUnlimitedMustBeFirst
 		}
 
-		dimName = vr.Dimensions[i]
 		currentLength, has := cw.dimLengths[dimName]
+		if !has {
+			currentLength, has = newLengths[dimName]
+		}
 		if has {
 			if dimLengths[i] != currentLength {
 				thrower.Throw(ErrDimensionSize)
 			}
-		} else {
-			cw.dimLengths[dimName] = dimLengths[i]
-			cw.dimIds[dimName] = cw.nextID
-			cw.dimNames = append(cw.dimNames, dimName)
-			cw.nextID++
+			continue
+		}
+		if dimLengths[i] == 0 && cw.hasUnlimited() {
+			// there can be only one
+			return ErrDimensionSize
 		}
+		newLengths[dimName] = dimLengths[i]
+		newNames = append(newNames, dimName)
+	}
+	for _, dimName := range newNames {
+		cw.dimLengths[dimName] = newLengths[dimName]
+		cw.dimIds[dimName] = cw.nextID
+		cw.dimNames = append(cw.dimNames, dimName)
+		cw.nextID++
 	}
 	cw.vars = append(cw.vars, savedVar{name, vr.Values, ty, dimLengths,
-		vr.Dimensions, vr.Attributes, 0, 0})
+		dimNames, vr.Attributes, 0, 0})
 	return nil
 }
 
+// hasUnlimited returns true if there is an unlimited dimension.
+func (cw *CDFWriter) hasUnlimited() bool {
+	for _, length := range cw.dimLengths {
+		if length == 0 {
+			return true
+		}
+	}
+	return false
+}
+
 func (cw *CDFWriter) writeAttributes(attrs api.AttributeMap) {
 	if attrs == nil || len(attrs.Keys()) == 0 {
 		write32(cw.bf, 0)        //  attributes: absent
-- 
2.43.0


From d2b3b61f6f58cf3a96ee13b2656428c5599c4fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 23/63] fix: refuse CDF variables with duplicate names, ragged
 or unsupported values

---
 netcdf/cdf/cdfwriter.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index f9644d9..1ea2dba 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -53,6 +53,7 @@ var (
 	ErrInvalidName          = errors.New("invalid name")
 	ErrAttribute            = errors.New("invalid attribute")
 	ErrEmptySlice           = errors.New("empty slice encountered")
+	ErrDuplicateName        = errors.New("name already used")
 )
 
 func (c *countedWriter) Count() int64 {
@@ -334,6 +335,34 @@ func (cw *CDFWriter) getDimLengths(val any, dimNames []string) ([]int64, int) {
 	return cw.getDimLengthsHelper(v, v, dims, dimNames)
 }
 
+// checkType throws if values of the type cannot be written: only the predeclared types, and
+// slices of them, can.
+func (cw *CDFWriter) checkType(t reflect.Type) {
+	for t != nil && t.Kind() == reflect.Slice && t.Name() == "" {
+		t = t.Elem()
+	}
+	if t == nil || cw.scalarKind(t.Kind()) == typeNone || t.Name() != t.Kind().String() {
+		logger.Info("Unknown type", t)
+		thrower.Throw(ErrUnknownType)
+	}
+}
+
+// checkRectangular throws if nested slices don't all have the same length.
+func checkRectangular(rv reflect.Value, dimLengths []int64) {
+	if rv.Kind() != reflect.Slice {
+		return
+	}
+	if int64(rv.Len()) != dimLengths[0] {
+		thrower.Throw(ErrDimensionSize)
+	}
+	if rv.Type().Elem().Kind() != reflect.Slice {
+		return
+	}
+	for i := range rv.Len() {
+		checkRectangular(rv.Index(i), dimLengths[1:])
+	}
+}
+
 func (cw *CDFWriter) scalarKind(goKind reflect.Kind) int {
 	switch goKind {
 
@@ -416,8 +445,15 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	if !hasValidNames(vr.Attributes) {
 		return ErrInvalidName
 	}
+	for i := range cw.vars {
+		if cw.vars[i].name == name {
+			return ErrDuplicateName
+		}
+	}
 	checkAttributes(vr.Attributes)
+	cw.checkType(reflect.TypeOf(vr.Values))
 	dimLengths, ty := cw.getDimLengths(vr.Values, vr.Dimensions)
+	checkRectangular(reflect.ValueOf(vr.Values), dimLengths)
 	if len(vr.Dimensions) > len(dimLengths) {
 		return ErrDimensionSize
 	}
-- 
2.43.0


From 219646bc7e0d2af7b82acb899d36246bd43201a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 24/63] fix: close the CDF file when writing it fails

---
 netcdf/cdf/cdfwriter.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 1ea2dba..be6230c 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -45,6 +45,7 @@ type CDFWriter struct {
 	nextID      int64
 	version     int8
 	begin       int64
+	closeErr    error
 }
 
 var (
@@ -950,20 +951,28 @@ func (cw *CDFWriter) writeData(saved savedVar) {
 
 // Close writes all the data out and closes the file.
 func (cw *CDFWriter) Close() (err error) {
-	defer thrower.RecoverError(&err)
-	cw.writeAll()
-	err = cw.bf.Flush()
+	if cw.file == nil {
+		return cw.closeErr
+	}
+	err = cw.writeAndFlush()
 	err2 := cw.file.Close()
 	if err == nil {
 		err = err2
-	} else {
+	} else if err2 != nil {
 		// return the first error, log the second
 		logger.Error(err2)
 	}
 	cw.file = nil
+	cw.closeErr = err
 	return err
 }
 
+func (cw *CDFWriter) writeAndFlush() (err error) {
+	defer thrower.RecoverError(&err)
+	cw.writeAll()
+	return cw.bf.Flush()
+}
+
 func writeAny(w io.Writer, any any) {
 	util.MustWriteBE(w, any)
 }
-- 
2.43.0


From 58683f9422aa93998683cec6203ad1bb04306770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:45 +0000
Subject: [PATCH 25/63] fix: refuse names that are not UTF-8 or longer than the
 format allows

---
 internal/validname.go   | 8 ++++++--
 netcdf/cdf/cdfwriter.go | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/validname.go b/internal/validname.go
index ae3360b..428fbdf 100644
--- a/internal/validname.go
+++ b/internal/validname.go
@@ -3,6 +3,7 @@ package internal
 import (
 	"regexp"
 	"strings"
+	"unicode/utf8"
 )
 
 const (
@@ -12,6 +13,8 @@ const (
 	pattern = `^[\pL\pN][^\pC/]*$`
 	// It may not end with a whitespace character.
 	antiPattern = `\pZ$`
+	// The longest name, in bytes (NC_MAX_NAME).
+	maxName = 256
 )
 
 var (
@@ -33,12 +36,13 @@ func init() {
 
 // IsValidNetCDFName returns true if name is a valid NetCDF name.
 func IsValidNetCDFName(name string) bool {
-	return re.MatchString(name) && !antiRe.MatchString(name)
+	return len(name) <= maxName && utf8.ValidString(name) &&
+		re.MatchString(name) && !antiRe.MatchString(name)
 }
 
 // IsValidDimensionName returns true if name is a valid dimension name. Unlike the other names, it
 // may start with an underscore: generated dimension names do.
 func IsValidDimensionName(name string) bool {
 	return IsValidNetCDFName(name) ||
-		(strings.HasPrefix(name, "_") && IsValidNetCDFName("d"+name))
+		(strings.HasPrefix(name, "_") && IsValidNetCDFName("d"+name[1:]))
 }
diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index be6230c..520a2a5 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -466,7 +466,8 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 		if dimName == "" {
 			if ty == typeChar && i == len(dimLengths)-1 {
 				dimName = fmt.Sprintf("_stringlen_%s", name)
-			} else {
+			}
+			if dimName == "" || !internal.IsValidDimensionName(dimName) {
 				dimName = fmt.Sprintf("_dimid_%d", cw.nextID+int64(len(newNames)))
 			}
 			dimNames[i] = dimName
-- 
2.43.0


From 65cd371a59c58ed2d3275be66b56a88797737b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 26/63] fix: accept a nil map of global attributes; leave the
 caller's key list alone

---
 netcdf/hdf5/hdf5writer.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index ddc9f2d..bae097d 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -120,13 +120,16 @@ func (hw *HDF5Writer) Close() (err error) {
 // addNCProperties adds the _NCProperties hidden attribute to the root group.
 func (hw *HDF5Writer) addNCProperties() {
 	const ncpValue = "version=2,github.com/batchatco/go-native-netcdf=1.0"
-	keys := hw.root.attributes.Keys()
-	keys = append(keys, ncpKey)
+	var keys []string
 	vals := make(map[string]any)
-	for _, k := range hw.root.attributes.Keys() {
-		v, _ := hw.root.attributes.Get(k)
-		vals[k] = v
+	if hw.root.attributes != nil {
+		keys = slices.Clone(hw.root.attributes.Keys())
+		for _, k := range keys {
+			v, _ := hw.root.attributes.Get(k)
+			vals[k] = v
+		}
 	}
+	keys = append(keys, ncpKey)
 	vals[ncpKey] = ncpValue
 	hw.root.attributes, _ = util.NewOrderedMap(keys, vals)
 }
-- 
2.43.0


From b868f789dd09032b0b10b9bffc79e32e282b7efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 27/63] fix: write string coordinate variables; split the
 global heap into collections; keep dimension references apart from strings

---
 netcdf/hdf5/hdf5writer.go   | 174 +++++++++++++++++++++---------------
 netcdf/hdf5/writer_utils.go |  32 +++----
 2 files changed, 118 insertions(+), 88 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index bae097d..6631bf0 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -26,8 +26,8 @@ type h5Var struct {
 	attributes      api.AttributeMap
 	addr            uint64
 	isDimScale      bool
-	vlenHeapIndices []uint32            // heap indices for vlen elements
-	attrVlenIndices map[string][]uint32 // per-attribute vlen heap indices
+	vlenHeapIndices []h5HeapID            // heap indices for vlen elements
+	attrVlenIndices map[string][]h5HeapID // per-attribute vlen heap indices
 }
 
 type h5Group struct {
@@ -36,13 +36,22 @@ type h5Group struct {
 	vars            map[string]*h5Var
 	attributes      api.AttributeMap
 	addr            uint64
-	attrVlenIndices map[string][]uint32 // per-attribute vlen heap indices
+	attrVlenIndices map[string][]h5HeapID // per-attribute vlen heap indices
 }
 
+// h5HeapID locates an object in the global heap.
+type h5HeapID struct {
+	addr  uint64 // of the collection
+	index uint32 // in the collection
+}
+
+// h5GlobalHeap is a series of global heap collections.
 type h5GlobalHeap struct {
-	addr    uint64
-	objects [][]byte
-	indices map[string]uint32
+	addr       uint64       // where in the file buf goes
+	buf        bytes.Buffer // all the collections
+	collection int          // where in buf the current collection starts
+	objects    int          // number of objects in the current collection
+	indices    map[string]h5HeapID
 }
 
 type h5Message struct {
@@ -55,11 +64,12 @@ type HDF5Writer struct {
 	file            *os.File
 	buf             *bytes.Buffer
 	root            *h5Group
-	heap            *h5GlobalHeap
+	heap            *h5GlobalHeap // strings and vlen data
+	dimHeap         *h5GlobalHeap // references to dimension scales
 	closed          bool
 	dimAddrs        map[string]uint64 // dimension name → dim scale variable OH address
 	byteOrder       binary.ByteOrder
-	vlenHeapIndices []uint32 // per-variable vlen heap indices during data write
+	vlenHeapIndices []h5HeapID // per-variable vlen heap indices during data write
 	vlenPos         int      // counter into vlenHeapIndices during data write
 }
 
@@ -78,19 +88,19 @@ func (hw *HDF5Writer) Close() (err error) {
 	// 1. Write Superblock V2 (48 bytes)
 	hw.writeSuperblockV2()
 
-	// 2. Write dimension scale variable data and OHs first,
-	//    so we know their addresses for DIMENSION_LIST references.
-	hw.writeDimScaleContents(hw.root)
-
-	// 3. Collect strings, vlen data, and dimension references, then write global heap
-	hw.heap = &h5GlobalHeap{indices: make(map[string]uint32)}
+	// 2. Collect strings and vlen data, then write global heap
+	hw.heap = hw.newGlobalHeap()
 	hw.collectStrings(hw.root)
 	hw.collectVlenData(hw.root)
 	hw.collectAttrVlenData(hw.root)
+	hw.writeGlobalHeap(hw.heap)
+
+	// 3. Write dimension scale variable data and OHs before the other variables,
+	//    so we know their addresses for DIMENSION_LIST references.
+	hw.writeDimScaleContents(hw.root)
+	hw.dimHeap = hw.newGlobalHeap()
 	hw.collectDimReferences(hw.root)
-	if len(hw.heap.objects) > 0 {
-		hw.writeGlobalHeap()
-	}
+	hw.writeGlobalHeap(hw.dimHeap)
 
 	// 4. Write data variables and subgroups
 	hw.writeGroupContents(hw.root)
@@ -263,7 +273,7 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 			if dname == "" {
 				continue
 			}
-			if _, ok := hw.heap.indices["__dimref:"+dname]; ok {
+			if _, ok := hw.dimHeap.indices[dname]; ok {
 				continue
 			}
 			addr, ok := hw.dimAddrs[dname]
@@ -273,8 +283,7 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 			// Store the 8-byte object reference in the global heap
 			ref := make([]byte, 8)
 			binary.LittleEndian.PutUint64(ref, addr)
-			hw.heap.objects = append(hw.heap.objects, ref)
-			hw.heap.indices["__dimref:"+dname] = uint32(len(hw.heap.objects))
+			hw.dimHeap.indices[dname] = hw.dimHeap.add(ref)
 		}
 	}
 	for _, sub := range g.groups {
@@ -411,7 +420,7 @@ func (hw *HDF5Writer) writeVarObjectHeaderV2(v *h5Var, dataAddr uint64, dataSize
 	}
 
 	// Add DIMENSION_LIST attribute for data variables (not dim scales)
-	if !v.isDimScale && len(v.dimensions) > 0 && hw.heap != nil {
+	if !v.isDimScale && len(v.dimensions) > 0 {
 		dimListMsg := hw.buildDimensionListAttribute(v.dimensions)
 		if dimListMsg != nil {
 			messages = append(messages, *dimListMsg)
@@ -536,10 +545,10 @@ func (hw *HDF5Writer) writeDataRecursive(rv reflect.Value, fixedLen int, dimRema
 	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
 		// When dimRemaining == 0, this slice is vlen data: write descriptor
 		if dimRemaining <= 0 {
-			idx := hw.vlenHeapIndices[hw.vlenPos]
+			id := hw.vlenHeapIndices[hw.vlenPos]
 			util.MustWriteLE(hw.buf, uint32(rv.Len()))
-			util.MustWriteLE(hw.buf, hw.heap.addr)
-			util.MustWriteLE(hw.buf, idx)
+			util.MustWriteLE(hw.buf, id.addr)
+			util.MustWriteLE(hw.buf, id.index)
 			hw.vlenPos++
 			return
 		}
@@ -559,10 +568,10 @@ func (hw *HDF5Writer) writeDataRecursive(rv reflect.Value, fixedLen int, dimRema
 		} else {
 			// VLen string
 			str := rv.String()
-			idx := hw.heap.indices[str]
+			id := hw.heap.indices[str]
 			util.MustWriteLE(hw.buf, uint32(len(str)))
-			util.MustWriteLE(hw.buf, hw.heap.addr)
-			util.MustWriteLE(hw.buf, idx)
+			util.MustWriteLE(hw.buf, id.addr)
+			util.MustWriteLE(hw.buf, id.index)
 		}
 		return
 	}
@@ -678,8 +687,7 @@ func (hw *HDF5Writer) collectStringsActual(rv reflect.Value) {
 
 func (hw *HDF5Writer) addStringToHeap(s string) {
 	if _, ok := hw.heap.indices[s]; !ok {
-		hw.heap.objects = append(hw.heap.objects, []byte(s))
-		hw.heap.indices[s] = uint32(len(hw.heap.objects))
+		hw.heap.indices[s] = hw.heap.add([]byte(s))
 	}
 }
 
@@ -775,11 +783,11 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 		if v.attributes != nil {
 			for _, k := range v.attributes.Keys() {
 				val, _ := v.attributes.Get(k)
-				var indices []uint32
+				var indices []h5HeapID
 				hw.collectVlenFromValue(reflect.ValueOf(val), &indices)
 				if len(indices) > 0 {
 					if v.attrVlenIndices == nil {
-						v.attrVlenIndices = make(map[string][]uint32)
+						v.attrVlenIndices = make(map[string][]h5HeapID)
 					}
 					v.attrVlenIndices[k] = indices
 				}
@@ -789,11 +797,11 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 	if g.attributes != nil {
 		for _, k := range g.attributes.Keys() {
 			val, _ := g.attributes.Get(k)
-			var indices []uint32
+			var indices []h5HeapID
 			hw.collectVlenFromValue(reflect.ValueOf(val), &indices)
 			if len(indices) > 0 {
 				if g.attrVlenIndices == nil {
-					g.attrVlenIndices = make(map[string][]uint32)
+					g.attrVlenIndices = make(map[string][]h5HeapID)
 				}
 				g.attrVlenIndices[k] = indices
 			}
@@ -806,7 +814,7 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 
 // collectVlenFromValue recursively walks a value and serializes any vlen
 // elements (varying-length slices) to the global heap.
-func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, indices *[]uint32) {
+func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, indices *[]h5HeapID) {
 	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
 		rv = rv.Elem()
 	}
@@ -863,7 +871,7 @@ func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, indices *[]uint32)
 }
 
 // serializeVlenToHeap serializes a single vlen slice and adds it to the heap.
-func (hw *HDF5Writer) serializeVlenToHeap(rv reflect.Value, indices *[]uint32) {
+func (hw *HDF5Writer) serializeVlenToHeap(rv reflect.Value, indices *[]h5HeapID) {
 	buf := new(bytes.Buffer)
 	for i := range rv.Len() {
 		elem := rv.Index(i)
@@ -879,8 +887,7 @@ func (hw *HDF5Writer) serializeVlenToHeap(rv reflect.Value, indices *[]uint32) {
 		}
 	}
 	data := buf.Bytes()
-	hw.heap.objects = append(hw.heap.objects, data)
-	*indices = append(*indices, uint32(len(hw.heap.objects)))
+	*indices = append(*indices, hw.heap.add(data))
 }
 
 // getAttributeDimensions returns the array dimensions and effective nDims
@@ -940,64 +947,87 @@ func (hw *HDF5Writer) serializeVlenElement(rv reflect.Value, v *h5Var) {
 		}
 	}
 	data := buf.Bytes()
-	hw.heap.objects = append(hw.heap.objects, data)
-	v.vlenHeapIndices = append(v.vlenHeapIndices, uint32(len(hw.heap.objects)))
+	v.vlenHeapIndices = append(v.vlenHeapIndices, hw.heap.add(data))
 }
 
-func (hw *HDF5Writer) writeGlobalHeap() {
-	gh := hw.heap
-
+// newGlobalHeap starts a heap at the current end of the file.
+func (hw *HDF5Writer) newGlobalHeap() *h5GlobalHeap {
 	// Align to 8 bytes so that objects within the collection are
 	// properly aligned when using absolute buffer position for padding.
 	for (hw.buf.Len() % 8) != 0 {
 		util.MustWriteByte(hw.buf, 0)
 	}
-	gh.addr = uint64(hw.buf.Len())
-
-	// Collection Header
-	util.MustWriteRaw(hw.buf, []byte("GCOL"))
-	util.MustWriteByte(hw.buf, 1)              // version
-	util.MustWriteRaw(hw.buf, []byte{0, 0, 0}) // reserved
-
-	sizeAddr := hw.buf.Len()
-	util.MustWriteLE(hw.buf, uint64(0)) // placeholder for size
-
-	for i, obj := range gh.objects {
-		util.MustWriteLE(hw.buf, uint16(i+1)) // index
-		util.MustWriteLE(hw.buf, uint16(0))   // ref count
-		util.MustWriteLE(hw.buf, uint32(0))   // reserved
-		util.MustWriteLE(hw.buf, uint64(len(obj)))
-		util.MustWriteRaw(hw.buf, obj)
-		// Pad object to 8 bytes
-		for (hw.buf.Len() % 8) != 0 {
-			util.MustWriteByte(hw.buf, 0)
-		}
+	return &h5GlobalHeap{addr: uint64(hw.buf.Len()), indices: make(map[string]h5HeapID)}
+}
+
+func (gh *h5GlobalHeap) padTo8() {
+	for (gh.buf.Len() % 8) != 0 {
+		util.MustWriteByte(&gh.buf, 0)
 	}
+}
+
+// add adds an object to the heap.
+func (gh *h5GlobalHeap) add(obj []byte) h5HeapID {
+	// The index of an object has only 16 bits.
+	const maxObjects = 0xffff
+	if gh.objects == maxObjects {
+		gh.finishCollection()
+	}
+	if gh.objects == 0 {
+		// Collection Header
+		gh.collection = gh.buf.Len()
+		util.MustWriteRaw(&gh.buf, []byte("GCOL"))
+		util.MustWriteByte(&gh.buf, 1)              // version
+		util.MustWriteRaw(&gh.buf, []byte{0, 0, 0}) // reserved
+		util.MustWriteLE(&gh.buf, uint64(0))        // placeholder for size
+	}
+	gh.objects++
+	util.MustWriteLE(&gh.buf, uint16(gh.objects)) // index
+	util.MustWriteLE(&gh.buf, uint16(0))          // ref count
+	util.MustWriteLE(&gh.buf, uint32(0))          // reserved
+	util.MustWriteLE(&gh.buf, uint64(len(obj)))
+	util.MustWriteRaw(&gh.buf, obj)
+	// Pad object to 8 bytes
+	gh.padTo8()
+	return h5HeapID{gh.addr + uint64(gh.collection), uint32(gh.objects)}
+}
 
+// finishCollection ends the current collection.
+func (gh *h5GlobalHeap) finishCollection() {
 	// The HDF5 library requires global heap collections to be at least
 	// 4096 bytes (H5HG_MINSIZE). Pad with free space to meet this minimum.
 	// The free space entry (index 0) size field includes its own 16-byte
 	// header — it represents the total remaining bytes from the start of
 	// the entry to the end of the collection.
 	const minGCOLSize = 4096
-	currentSize := hw.buf.Len() - int(gh.addr)
+	currentSize := gh.buf.Len() - gh.collection
 	totalSize := currentSize + 16 // at least room for the free space header
 	if totalSize < minGCOLSize {
 		totalSize = minGCOLSize
 	}
-	freeEntrySize := totalSize - currentSize // includes the 16-byte header
-	util.MustWriteLE(hw.buf, uint16(0))               // index 0 = free space
-	util.MustWriteLE(hw.buf, uint16(0))               // ref count
-	util.MustWriteLE(hw.buf, uint32(0))               // reserved
-	util.MustWriteLE(hw.buf, uint64(freeEntrySize))   // total free space (incl header)
+	freeEntrySize := totalSize - currentSize         // includes the 16-byte header
+	util.MustWriteLE(&gh.buf, uint16(0))             // index 0 = free space
+	util.MustWriteLE(&gh.buf, uint16(0))             // ref count
+	util.MustWriteLE(&gh.buf, uint32(0))             // reserved
+	util.MustWriteLE(&gh.buf, uint64(freeEntrySize)) // total free space (incl header)
 	for range freeEntrySize - 16 {
-		util.MustWriteByte(hw.buf, 0)
+		util.MustWriteByte(&gh.buf, 0)
 	}
 
 	// Final size
-	finalSize := uint64(hw.buf.Len()) - gh.addr
-	data := hw.buf.Bytes()
-	binary.LittleEndian.PutUint64(data[sizeAddr:], finalSize)
+	const sizeOffset = 8
+	data := gh.buf.Bytes()[gh.collection:]
+	binary.LittleEndian.PutUint64(data[sizeOffset:], uint64(len(data)))
+	gh.objects = 0
+}
+
+// writeGlobalHeap writes a heap, to which nothing may be added anymore.
+func (hw *HDF5Writer) writeGlobalHeap(gh *h5GlobalHeap) {
+	if gh.objects > 0 {
+		gh.finishCollection()
+	}
+	util.MustWriteRaw(hw.buf, gh.buf.Bytes())
+	gh.buf.Reset()
 }
 
 func (hw *HDF5Writer) getDimensions(val any) []uint64 {
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index f67ac72..e432dc9 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -371,10 +371,10 @@ func (hw *HDF5Writer) writeAttributeDataRecursive(buf *bytes.Buffer, rv reflect.
 	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
 		// When dimRemaining == 0, this slice is vlen: write descriptor
 		if dimRemaining <= 0 {
-			idx := hw.vlenHeapIndices[hw.vlenPos]
+			id := hw.vlenHeapIndices[hw.vlenPos]
 			util.MustWriteLE(buf, uint32(rv.Len()))
-			util.MustWriteLE(buf, hw.heap.addr)
-			util.MustWriteLE(buf, idx)
+			util.MustWriteLE(buf, id.addr)
+			util.MustWriteLE(buf, id.index)
 			hw.vlenPos++
 			return
 		}
@@ -394,10 +394,10 @@ func (hw *HDF5Writer) writeAttributeDataRecursive(buf *bytes.Buffer, rv reflect.
 		} else {
 			// VLen string
 			str := rv.String()
-			idx := hw.heap.indices[str]
+			id := hw.heap.indices[str]
 			util.MustWriteLE(buf, uint32(len(str)))
-			util.MustWriteLE(buf, hw.heap.addr)
-			util.MustWriteLE(buf, idx)
+			util.MustWriteLE(buf, id.addr)
+			util.MustWriteLE(buf, id.index)
 		}
 		return
 	}
@@ -421,10 +421,10 @@ func (hw *HDF5Writer) writeCompoundValue(buf *bytes.Buffer, val compound) {
 			util.MustWrite(buf, hw.byteOrder, v)
 		case string:
 			// Vlen string descriptor
-			idx := hw.heap.indices[v]
+			id := hw.heap.indices[v]
 			util.MustWriteLE(buf, uint32(len(v)))
-			util.MustWriteLE(buf, hw.heap.addr)
-			util.MustWriteLE(buf, idx)
+			util.MustWriteLE(buf, id.addr)
+			util.MustWriteLE(buf, id.index)
 		case compound:
 			hw.writeCompoundValue(buf, v)
 		case opaque:
@@ -435,10 +435,10 @@ func (hw *HDF5Writer) writeCompoundValue(buf *bytes.Buffer, val compound) {
 			// Vlen sequence descriptor
 			rv := reflect.ValueOf(v)
 			if rv.Kind() == reflect.Slice {
-				idx := hw.vlenHeapIndices[hw.vlenPos]
+				id := hw.vlenHeapIndices[hw.vlenPos]
 				util.MustWriteLE(buf, uint32(rv.Len()))
-				util.MustWriteLE(buf, hw.heap.addr)
-				util.MustWriteLE(buf, idx)
+				util.MustWriteLE(buf, id.addr)
+				util.MustWriteLE(buf, id.index)
 				hw.vlenPos++
 			} else {
 				thrower.Throw(ErrUnsupportedType)
@@ -601,10 +601,10 @@ func (hw *HDF5Writer) buildDimensionListAttribute(dimNames []string) *h5Message
 
 	// Write VLEN descriptors: for each dimension, one reference
 	for _, dname := range dimNames {
-		heapIdx := hw.heap.indices["__dimref:"+dname]
-		util.MustWriteLE(buf, uint32(1))       // length: 1 reference
-		util.MustWriteLE(buf, hw.heap.addr)    // global heap address
-		util.MustWriteLE(buf, heapIdx)         // global heap object index
+		id := hw.dimHeap.indices[dname]
+		util.MustWriteLE(buf, uint32(1)) // length: 1 reference
+		util.MustWriteLE(buf, id.addr)   // global heap address
+		util.MustWriteLE(buf, id.index)  // global heap object index
 	}
 
 	msg := h5Message{mType: 12, data: buf.Bytes()}
-- 
2.43.0


From ce9cd8f910de34ac15fdfefe90e5cf39879d27a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 28/63] fix: empty scalar strings written to HDF5 are strings
 for NetCDF

---
 netcdf/hdf5/hdf5writer.go   |  3 +--
 netcdf/hdf5/writer_utils.go | 16 +++++++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 6631bf0..fe43c7a 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -510,8 +510,7 @@ func (hw *HDF5Writer) writeDataVar(v *h5Var) uint64 {
 	fixedLen := 0
 	if !hw.shouldUseVLen(rv) {
 		if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array || rv.Kind() == reflect.String {
-			findMaxLen(rv, &fixedLen)
-			fixedLen++ // include null terminator
+			fixedLen = fixedStringSize(rv)
 		}
 	}
 	// Set up vlen state for this variable
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index e432dc9..42ed5c3 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -345,8 +345,7 @@ func (hw *HDF5Writer) buildAttributeMessage(name string, val any) h5Message {
 	maxLen := 0
 	if !hw.shouldUseVLen(rv) {
 		if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array || rv.Kind() == reflect.String {
-			findMaxLen(rv, &maxLen)
-			maxLen++ // include null terminator
+			maxLen = fixedStringSize(rv)
 		}
 	}
 	hw.writeAttributeDataRecursive(buf, rv, maxLen, nDims)
@@ -520,9 +519,7 @@ func (hw *HDF5Writer) buildDatatypeMessage(val any, nDims int) []byte {
 		for origRv.Kind() == reflect.Pointer || origRv.Kind() == reflect.Interface {
 			origRv = origRv.Elem()
 		}
-		maxLen := 0
-		findMaxLen(origRv, &maxLen)
-		return buildStringDatatype(maxLen + 1)
+		return buildStringDatatype(fixedStringSize(origRv))
 	}
 	thrower.Throw(ErrUnsupportedType)
 	return nil
@@ -611,6 +608,15 @@ func (hw *HDF5Writer) buildDimensionListAttribute(dimNames []string) *h5Message
 	return &msg
 }
 
+// fixedStringSize returns the size of the fixed-length string type that
+// holds all the strings in rv.
+func fixedStringSize(rv reflect.Value) int {
+	// NetCDF takes strings of one byte for characters.
+	maxLen := 1
+	findMaxLen(rv, &maxLen)
+	return maxLen + 1 // include null terminator
+}
+
 func findMaxLen(rv reflect.Value, maxLen *int) {
 	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
 		for i := range rv.Len() {
-- 
2.43.0


From 00e391247470a15317b10e2b5e08c234e800985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:42 +0000
Subject: [PATCH 29/63] fix: refuse what cannot be written to HDF5 when it is
 added

---
 netcdf/hdf5/hdf5writer.go   | 145 ++++-----------------
 netcdf/hdf5/writer_check.go | 242 ++++++++++++++++++++++++++++++++++++
 netcdf/hdf5/writer_utils.go |  24 ++--
 3 files changed, 278 insertions(+), 133 deletions(-)
 create mode 100644 netcdf/hdf5/writer_check.go

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index fe43c7a..4ebe6f7 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -5,18 +5,19 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"math"
 	"os"
 	"reflect"
 	"slices"
 
-	"github.com/batchatco/go-native-netcdf/internal"
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
 	"github.com/batchatco/go-native-netcdf/netcdf/util"
 	"github.com/batchatco/go-thrower"
 )
 
 var (
-	ErrInvalidName = errors.New("invalid name")
+	ErrInvalidName   = errors.New("invalid name")
+	ErrDuplicateName = errors.New("name already used")
 )
 
 type h5Var struct {
@@ -67,6 +68,7 @@ type HDF5Writer struct {
 	heap            *h5GlobalHeap // strings and vlen data
 	dimHeap         *h5GlobalHeap // references to dimension scales
 	closed          bool
+	dimSizes        map[string]uint64 // dimension name → size
 	dimAddrs        map[string]uint64 // dimension name → dim scale variable OH address
 	byteOrder       binary.ByteOrder
 	vlenHeapIndices []h5HeapID // per-variable vlen heap indices during data write
@@ -442,8 +444,13 @@ func (hw *HDF5Writer) buildLinkInfoMessage() h5Message {
 func (hw *HDF5Writer) buildLinkMessage(name string, addr uint64) h5Message {
 	buf := new(bytes.Buffer)
 	util.MustWriteByte(buf, 1) // version
-	util.MustWriteByte(buf, 0) // flags
-	util.MustWriteByte(buf, byte(len(name)))
+	if len(name) <= math.MaxUint8 {
+		util.MustWriteByte(buf, 0) // flags: 1-byte length of the name
+		util.MustWriteByte(buf, byte(len(name)))
+	} else {
+		util.MustWriteByte(buf, 1) // flags: 2-byte length of the name
+		util.MustWriteLE(buf, uint16(len(name)))
+	}
 	util.MustWriteRaw(buf, []byte(name))
 	util.MustWriteLE(buf, addr)
 
@@ -565,12 +572,7 @@ func (hw *HDF5Writer) writeDataRecursive(rv reflect.Value, fixedLen int, dimRema
 				util.MustWriteByte(hw.buf, 0)
 			}
 		} else {
-			// VLen string
-			str := rv.String()
-			id := hw.heap.indices[str]
-			util.MustWriteLE(hw.buf, uint32(len(str)))
-			util.MustWriteLE(hw.buf, id.addr)
-			util.MustWriteLE(hw.buf, id.index)
+			hw.writeVLenString(hw.buf, rv.String())
 		}
 		return
 	}
@@ -881,6 +883,8 @@ func (hw *HDF5Writer) serializeVlenToHeap(rv reflect.Value, indices *[]h5HeapID)
 			util.MustWriteRaw(buf, []byte(val))
 		case enumerated:
 			util.MustWrite(buf, hw.byteOrder, val.values)
+		case string:
+			hw.writeVLenString(buf, val)
 		default:
 			util.MustWrite(buf, hw.byteOrder, val)
 		}
@@ -941,6 +945,8 @@ func (hw *HDF5Writer) serializeVlenElement(rv reflect.Value, v *h5Var) {
 			util.MustWriteRaw(buf, []byte(val))
 		case enumerated:
 			util.MustWrite(buf, hw.byteOrder, val.values)
+		case string:
+			hw.writeVLenString(buf, val)
 		default:
 			util.MustWrite(buf, hw.byteOrder, val)
 		}
@@ -1083,62 +1089,15 @@ func getDimensionsLimited(rv reflect.Value, maxDepth int) []uint64 {
 }
 
 func (hw *HDF5Writer) AddAttributes(attrs api.AttributeMap) error {
-	if !hasValidNames(attrs) {
-		return ErrInvalidName
-	}
-	if attrs != nil {
-		for _, k := range attrs.Keys() {
-			v, _ := attrs.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
-			}
-		}
-	}
-	hw.root.attributes = attrs
-	return nil
+	return hw.addAttributes(hw.root, attrs)
 }
 
 func (hw *HDF5Writer) AddVar(name string, vr api.Variable) error {
-	if !internal.IsValidNetCDFName(name) {
-		return ErrInvalidName
-	}
-	if !hasValidNames(vr.Attributes) {
-		return ErrInvalidName
-	}
-	if !isSupportedType(vr.Values) {
-		return fmt.Errorf("%w: %T", ErrUnsupportedType, vr.Values)
-	}
-	if vr.Attributes != nil {
-		for _, k := range vr.Attributes.Keys() {
-			v, _ := vr.Attributes.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
-			}
-		}
-	}
-	hw.root.vars[name] = &h5Var{
-		name:       name,
-		val:        vr.Values,
-		dimensions: vr.Dimensions,
-		attributes: vr.Attributes,
-	}
-	return nil
+	return hw.addVar(hw.root, name, vr)
 }
 
 func (hw *HDF5Writer) CreateGroup(name string) (api.Writer, error) {
-	if !internal.IsValidNetCDFName(name) {
-		return nil, ErrInvalidName
-	}
-	if g, ok := hw.root.groups[name]; ok {
-		return &groupWriter{hw: hw, group: g}, nil
-	}
-	g := &h5Group{
-		name:   name,
-		groups: make(map[string]*h5Group),
-		vars:   make(map[string]*h5Var),
-	}
-	hw.root.groups[name] = g
-	return &groupWriter{hw: hw, group: g}, nil
+	return hw.createGroup(hw.root, name)
 }
 
 type groupWriter struct {
@@ -1151,62 +1110,15 @@ func (gw *groupWriter) Close() error {
 }
 
 func (gw *groupWriter) AddAttributes(attrs api.AttributeMap) error {
-	if !hasValidNames(attrs) {
-		return ErrInvalidName
-	}
-	if attrs != nil {
-		for _, k := range attrs.Keys() {
-			v, _ := attrs.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
-			}
-		}
-	}
-	gw.group.attributes = attrs
-	return nil
+	return gw.hw.addAttributes(gw.group, attrs)
 }
 
 func (gw *groupWriter) AddVar(name string, vr api.Variable) error {
-	if !internal.IsValidNetCDFName(name) {
-		return ErrInvalidName
-	}
-	if !hasValidNames(vr.Attributes) {
-		return ErrInvalidName
-	}
-	if !isSupportedType(vr.Values) {
-		return fmt.Errorf("%w: %T", ErrUnsupportedType, vr.Values)
-	}
-	if vr.Attributes != nil {
-		for _, k := range vr.Attributes.Keys() {
-			v, _ := vr.Attributes.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
-			}
-		}
-	}
-	gw.group.vars[name] = &h5Var{
-		name:       name,
-		val:        vr.Values,
-		dimensions: vr.Dimensions,
-		attributes: vr.Attributes,
-	}
-	return nil
+	return gw.hw.addVar(gw.group, name, vr)
 }
 
 func (gw *groupWriter) CreateGroup(name string) (api.Writer, error) {
-	if !internal.IsValidNetCDFName(name) {
-		return nil, ErrInvalidName
-	}
-	if g, ok := gw.group.groups[name]; ok {
-		return &groupWriter{hw: gw.hw, group: g}, nil
-	}
-	g := &h5Group{
-		name:   name,
-		groups: make(map[string]*h5Group),
-		vars:   make(map[string]*h5Var),
-	}
-	gw.group.groups[name] = g
-	return &groupWriter{hw: gw.hw, group: g}, nil
+	return gw.hw.createGroup(gw.group, name)
 }
 
 // isSupportedType checks whether val is a type the HDF5/NetCDF4 writer can
@@ -1286,18 +1198,6 @@ func isSupportedElemType(t reflect.Type) bool {
 	return false
 }
 
-func hasValidNames(am api.AttributeMap) bool {
-	if am == nil {
-		return true
-	}
-	for _, key := range am.Keys() {
-		if !internal.IsValidNetCDFName(key) {
-			return false
-		}
-	}
-	return true
-}
-
 func OpenWriter(fileName string) (api.Writer, error) {
 	file, err := os.Create(fileName)
 	if err != nil {
@@ -1308,6 +1208,7 @@ func OpenWriter(fileName string) (api.Writer, error) {
 		file:      file,
 		buf:       new(bytes.Buffer),
 		byteOrder: util.NativeByteOrder,
+		dimSizes:  make(map[string]uint64),
 		root: &h5Group{
 			name:       "/",
 			groups:     make(map[string]*h5Group),
diff --git a/netcdf/hdf5/writer_check.go b/netcdf/hdf5/writer_check.go
new file mode 100644
index 0000000..c7983eb
--- /dev/null
+++ b/netcdf/hdf5/writer_check.go
@@ -0,0 +1,242 @@
+package hdf5
+
+import (
+	"bytes"
+	"fmt"
+	"reflect"
+	"strings"
+
+	"github.com/batchatco/go-native-netcdf/internal"
+	"github.com/batchatco/go-native-netcdf/netcdf/api"
+	"github.com/batchatco/go-native-netcdf/netcdf/util"
+	"github.com/batchatco/go-thrower"
+)
+
+const (
+	maxRank    = 32     // the most dimensions HDF5 has
+	maxMessage = 0xffff // the size of an object header message has only 16 bits
+)
+
+// isReservedAttribute returns true for the attributes that describe dimension scales.
+// The reader does not return them.
+func isReservedAttribute(name string) bool {
+	switch name {
+	case "CLASS", "NAME", "REFERENCE_LIST", "DIMENSION_LIST",
+		"_Netcdf4Dimid", "_Netcdf4Coordinates", ncpKey:
+		return true
+	}
+	return false
+}
+
+// splitType returns the number of slices and arrays around the element type of val, and the
+// element type, which is nil if there is no value.
+func splitType(val any) (int, reflect.Type) {
+	depth := 0
+	t := reflect.TypeOf(val)
+	for t != nil && (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) &&
+		t != reflect.TypeOf(compound{}) && t != reflect.TypeOf(opaque{}) {
+		depth++
+		t = t.Elem()
+	}
+	if e, ok := val.(enumerated); ok {
+		return splitType(e.values)
+	}
+	return depth, t
+}
+
+// isRectangular returns true if all the slices in each of the first nDims levels of val have the
+// same length.
+func isRectangular(val any, nDims int) bool {
+	if e, ok := val.(enumerated); ok {
+		return isRectangular(e.values, nDims)
+	}
+	rv := reflect.ValueOf(val)
+	dims := getDimensionsLimited(rv, nDims)
+	var check func(rv reflect.Value, level int) bool
+	check = func(rv reflect.Value, level int) bool {
+		if level >= nDims {
+			return true
+		}
+		if level >= len(dims) || uint64(rv.Len()) != dims[level] {
+			return false
+		}
+		if level == nDims-1 {
+			return true
+		}
+		for i := range rv.Len() {
+			if !check(rv.Index(i), level+1) {
+				return false
+			}
+		}
+		return true
+	}
+	return len(dims) == nDims && check(rv, 0)
+}
+
+// hasNUL returns true if any of the strings in rv contains a NUL, which ends strings in HDF5.
+func hasNUL(rv reflect.Value) bool {
+	if rv.Kind() == reflect.String {
+		return strings.IndexByte(rv.String(), 0) >= 0
+	}
+	for i := range rv.Len() {
+		if hasNUL(rv.Index(i)) {
+			return true
+		}
+	}
+	return false
+}
+
+// checkValue checks that the writer can write val with nDims dimensions.
+func checkValue(val any, nDims int) error {
+	if !isSupportedType(val) {
+		return fmt.Errorf("%w: %T", ErrUnsupportedType, val)
+	}
+	depth, t := splitType(val)
+	// There may be one level more than there are dimensions, of variable length.
+	if nDims > maxRank || depth < nDims || depth > nDims+1 {
+		return ErrDimensionality
+	}
+	if !isRectangular(val, nDims) {
+		return ErrDimensionality
+	}
+	if t.Kind() == reflect.String && hasNUL(reflect.ValueOf(val)) {
+		return fmt.Errorf("%w: string with a NUL", ErrUnsupportedType)
+	}
+	return nil
+}
+
+// checkAttributes checks that the writer can write these attributes.
+func checkAttributes(attrs api.AttributeMap) (err error) {
+	defer thrower.RecoverError(&err)
+	if attrs == nil {
+		return nil
+	}
+	for _, k := range attrs.Keys() {
+		if !internal.IsValidNetCDFName(k) || isReservedAttribute(k) {
+			return ErrInvalidName
+		}
+		v, _ := attrs.Get(k)
+		if !isSupportedType(v) {
+			return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
+		}
+		// Write it to nowhere
+		hw := &HDF5Writer{buf: new(bytes.Buffer), byteOrder: util.NativeByteOrder}
+		hw.heap = hw.newGlobalHeap()
+		_, nDims := hw.getAttributeDimensions(v)
+		if err := checkValue(v, nDims); err != nil {
+			return err
+		}
+		hw.collectStringsRecursive(reflect.ValueOf(v))
+		hw.collectVlenFromValue(reflect.ValueOf(v), &hw.vlenHeapIndices)
+		if len(hw.buildAttributeMessage(k, v).data) > maxMessage {
+			return fmt.Errorf("%w: attribute %s is too big", ErrUnsupportedType, k)
+		}
+	}
+	return nil
+}
+
+// checkVar checks that a variable can be added to a group.
+func (hw *HDF5Writer) checkVar(g *h5Group, name string, vr api.Variable) (err error) {
+	defer thrower.RecoverError(&err)
+	if !internal.IsValidNetCDFName(name) {
+		return ErrInvalidName
+	}
+	if err := checkAttributes(vr.Attributes); err != nil {
+		return err
+	}
+	if err := checkValue(vr.Values, len(vr.Dimensions)); err != nil {
+		return err
+	}
+	dtMsg := hw.buildDatatypeMessage(vr.Values, len(vr.Dimensions))
+	if len(dtMsg) > maxMessage {
+		return fmt.Errorf("%w: type of %s is too big", ErrUnsupportedType, name)
+	}
+	if _, ok := g.vars[name]; ok {
+		return ErrDuplicateName
+	}
+	if _, ok := g.groups[name]; ok {
+		return ErrDuplicateName
+	}
+	// The dimensions are all in the root group. The only variable there with the name of a
+	// dimension is the coordinate variable of that dimension.
+	isCoordinate := len(vr.Dimensions) == 1 && vr.Dimensions[0] == name
+	if _, ok := hw.dimSizes[name]; ok && g == hw.root && !isCoordinate {
+		return ErrDuplicateName
+	}
+	sizes := hw.getDimensions(vr.Values)
+	mine := make(map[string]uint64)
+	for i, dim := range vr.Dimensions {
+		if !internal.IsValidDimensionName(dim) {
+			return ErrInvalidName
+		}
+		size, ok := hw.dimSizes[dim]
+		if !ok {
+			size, ok = mine[dim]
+		}
+		if ok && size != sizes[i] {
+			return ErrDimensionality
+		}
+		mine[dim] = sizes[i]
+		if _, ok := hw.root.groups[dim]; ok {
+			return ErrDuplicateName
+		}
+		other, ok := hw.root.vars[dim]
+		if ok && (len(other.dimensions) != 1 || other.dimensions[0] != dim) {
+			return ErrDuplicateName
+		}
+		if g == hw.root && dim == name && !isCoordinate {
+			return ErrDuplicateName
+		}
+	}
+	return nil
+}
+
+// addVar adds a variable to a group.
+func (hw *HDF5Writer) addVar(g *h5Group, name string, vr api.Variable) error {
+	if err := hw.checkVar(g, name, vr); err != nil {
+		return err
+	}
+	sizes := hw.getDimensions(vr.Values)
+	for i, dim := range vr.Dimensions {
+		hw.dimSizes[dim] = sizes[i]
+	}
+	g.vars[name] = &h5Var{
+		name:       name,
+		val:        vr.Values,
+		dimensions: vr.Dimensions,
+		attributes: vr.Attributes,
+	}
+	return nil
+}
+
+// addAttributes sets the attributes of a group.
+func (hw *HDF5Writer) addAttributes(g *h5Group, attrs api.AttributeMap) error {
+	if err := checkAttributes(attrs); err != nil {
+		return err
+	}
+	g.attributes = attrs
+	return nil
+}
+
+// createGroup returns a writer for a subgroup, which it creates unless it exists.
+func (hw *HDF5Writer) createGroup(parent *h5Group, name string) (api.Writer, error) {
+	if !internal.IsValidNetCDFName(name) {
+		return nil, ErrInvalidName
+	}
+	if g, ok := parent.groups[name]; ok {
+		return &groupWriter{hw: hw, group: g}, nil
+	}
+	if _, ok := parent.vars[name]; ok {
+		return nil, ErrDuplicateName
+	}
+	if _, ok := hw.dimSizes[name]; ok && parent == hw.root {
+		return nil, ErrDuplicateName
+	}
+	g := &h5Group{
+		name:   name,
+		groups: make(map[string]*h5Group),
+		vars:   make(map[string]*h5Var),
+	}
+	parent.groups[name] = g
+	return &groupWriter{hw: hw, group: g}, nil
+}
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index 42ed5c3..a433fd9 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -308,6 +308,9 @@ func (hw *HDF5Writer) buildVlenSequenceDatatype(rv reflect.Value) []byte {
 	}
 	allDims := getDimensionsRecursive(elemRv)
 	elemDt := hw.buildDatatypeMessage(elemVal, len(allDims))
+	if elemRv.Kind() == reflect.String {
+		elemDt = hw.buildVLenStringDatatype()
+	}
 	util.MustWriteRaw(buf, elemDt)
 	return buf.Bytes()
 }
@@ -391,12 +394,7 @@ func (hw *HDF5Writer) writeAttributeDataRecursive(buf *bytes.Buffer, rv reflect.
 				util.MustWriteByte(buf, 0)
 			}
 		} else {
-			// VLen string
-			str := rv.String()
-			id := hw.heap.indices[str]
-			util.MustWriteLE(buf, uint32(len(str)))
-			util.MustWriteLE(buf, id.addr)
-			util.MustWriteLE(buf, id.index)
+			hw.writeVLenString(buf, rv.String())
 		}
 		return
 	}
@@ -412,6 +410,14 @@ func (hw *HDF5Writer) writeAttributeDataRecursive(buf *bytes.Buffer, rv reflect.
 	}
 }
 
+// writeVLenString writes the descriptor of a string in the global heap.
+func (hw *HDF5Writer) writeVLenString(buf *bytes.Buffer, str string) {
+	id := hw.heap.indices[str]
+	util.MustWriteLE(buf, uint32(len(str)))
+	util.MustWriteLE(buf, id.addr)
+	util.MustWriteLE(buf, id.index)
+}
+
 // writeCompoundValue writes all fields of a compound value.
 func (hw *HDF5Writer) writeCompoundValue(buf *bytes.Buffer, val compound) {
 	for _, f := range val {
@@ -419,11 +425,7 @@ func (hw *HDF5Writer) writeCompoundValue(buf *bytes.Buffer, val compound) {
 		case int8, uint8, int16, uint16, int32, uint32, int64, uint64, float32, float64:
 			util.MustWrite(buf, hw.byteOrder, v)
 		case string:
-			// Vlen string descriptor
-			id := hw.heap.indices[v]
-			util.MustWriteLE(buf, uint32(len(v)))
-			util.MustWriteLE(buf, id.addr)
-			util.MustWriteLE(buf, id.index)
+			hw.writeVLenString(buf, v)
 		case compound:
 			hw.writeCompoundValue(buf, v)
 		case opaque:
-- 
2.43.0


From 6d6b1a41f19ff8804f63b41bd4d7b69658fd6efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 30/63] fix: write the same HDF5 bytes for the same calls

---
 netcdf/hdf5/hdf5writer.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 4ebe6f7..98c2a71 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"maps"
 	"math"
 	"os"
 	"reflect"
@@ -259,7 +260,8 @@ func (hw *HDF5Writer) writeDimScaleContents(g *h5Group) {
 	}
 
 	// Recurse into subgroups
-	for _, sub := range g.groups {
+	for _, name := range slices.Sorted(maps.Keys(g.groups)) {
+		sub := g.groups[name]
 		hw.writeDimScaleContents(sub)
 	}
 }
@@ -267,7 +269,8 @@ func (hw *HDF5Writer) writeDimScaleContents(g *h5Group) {
 // collectDimReferences adds global heap entries for dimension references
 // needed by DIMENSION_LIST attributes.
 func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
-	for _, v := range g.vars {
+	for _, name := range slices.Sorted(maps.Keys(g.vars)) {
+		v := g.vars[name]
 		if v.isDimScale {
 			continue
 		}
@@ -288,7 +291,8 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 			hw.dimHeap.indices[dname] = hw.dimHeap.add(ref)
 		}
 	}
-	for _, sub := range g.groups {
+	for _, name := range slices.Sorted(maps.Keys(g.groups)) {
+		sub := g.groups[name]
 		hw.collectDimReferences(sub)
 	}
 }
@@ -605,7 +609,8 @@ func (hw *HDF5Writer) shouldUseVLen(rv reflect.Value) bool {
 }
 
 func (hw *HDF5Writer) collectStrings(g *h5Group) {
-	for _, v := range g.vars {
+	for _, name := range slices.Sorted(maps.Keys(g.vars)) {
+		v := g.vars[name]
 		hw.collectStringsRecursive(reflect.ValueOf(v.val))
 		if v.attributes != nil {
 			for _, k := range v.attributes.Keys() {
@@ -620,7 +625,8 @@ func (hw *HDF5Writer) collectStrings(g *h5Group) {
 			hw.collectStringsRecursive(reflect.ValueOf(val))
 		}
 	}
-	for _, sub := range g.groups {
+	for _, name := range slices.Sorted(maps.Keys(g.groups)) {
+		sub := g.groups[name]
 		hw.collectStrings(sub)
 	}
 }
@@ -694,7 +700,8 @@ func (hw *HDF5Writer) addStringToHeap(s string) {
 
 // collectVlenData walks all variables and serializes vlen elements into the global heap.
 func (hw *HDF5Writer) collectVlenData(g *h5Group) {
-	for _, v := range g.vars {
+	for _, name := range slices.Sorted(maps.Keys(g.vars)) {
+		v := g.vars[name]
 		nDims := len(v.dimensions)
 		rv := reflect.ValueOf(v.val)
 		for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
@@ -705,7 +712,8 @@ func (hw *HDF5Writer) collectVlenData(g *h5Group) {
 			hw.collectVlenElements(rv, nDims, v)
 		}
 	}
-	for _, sub := range g.groups {
+	for _, name := range slices.Sorted(maps.Keys(g.groups)) {
+		sub := g.groups[name]
 		hw.collectVlenData(sub)
 	}
 }
@@ -780,7 +788,8 @@ func (hw *HDF5Writer) collectVlenElements(rv reflect.Value, dimsLeft int, v *h5V
 // collectAttrVlenData walks all attributes (on variables and groups) and
 // serializes vlen elements into the global heap.
 func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
-	for _, v := range g.vars {
+	for _, name := range slices.Sorted(maps.Keys(g.vars)) {
+		v := g.vars[name]
 		if v.attributes != nil {
 			for _, k := range v.attributes.Keys() {
 				val, _ := v.attributes.Get(k)
@@ -808,7 +817,8 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 			}
 		}
 	}
-	for _, sub := range g.groups {
+	for _, name := range slices.Sorted(maps.Keys(g.groups)) {
+		sub := g.groups[name]
 		hw.collectAttrVlenData(sub)
 	}
 }
-- 
2.43.0


From 84a888fe8ed425246e4f9784e61893710b7b7ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:53 +0000
Subject: [PATCH 31/63] fix: close the HDF5 file when writing it fails, and
 keep reporting the failure

---
 netcdf/hdf5/hdf5writer.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 98c2a71..ef9d8f7 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -69,6 +69,7 @@ type HDF5Writer struct {
 	heap            *h5GlobalHeap // strings and vlen data
 	dimHeap         *h5GlobalHeap // references to dimension scales
 	closed          bool
+	closeErr        error // what Close returned
 	dimSizes        map[string]uint64 // dimension name → size
 	dimAddrs        map[string]uint64 // dimension name → dim scale variable OH address
 	byteOrder       binary.ByteOrder
@@ -76,12 +77,23 @@ type HDF5Writer struct {
 	vlenPos         int      // counter into vlenHeapIndices during data write
 }
 
-func (hw *HDF5Writer) Close() (err error) {
-	defer thrower.RecoverError(&err)
+func (hw *HDF5Writer) Close() error {
 	if hw.closed {
-		return nil
+		return hw.closeErr
 	}
 	hw.closed = true
+	err := hw.writeFile()
+	closeErr := hw.file.Close()
+	if err == nil {
+		err = closeErr
+	}
+	hw.closeErr = err
+	return err
+}
+
+// writeFile writes the whole file.
+func (hw *HDF5Writer) writeFile() (err error) {
+	defer thrower.RecoverError(&err)
 
 	// 0. Add NetCDF4 metadata
 	hw.addNCProperties()
@@ -123,10 +135,6 @@ func (hw *HDF5Writer) Close() (err error) {
 	binary.LittleEndian.PutUint32(data[44:], sbChecksum)
 
 	_, err = hw.file.Write(data)
-	if err != nil {
-		return err
-	}
-	err = hw.file.Close()
 	return err
 }
 
-- 
2.43.0


From b58cdec5d4a47381a818429da04bc6e2e7aaa843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:53 +0000
Subject: [PATCH 32/63] fix: read empty floating-point attributes with a simple
 dataspace

---
 netcdf/hdf5/floatingPoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/hdf5/floatingPoint.go b/netcdf/hdf5/floatingPoint.go
index 1951315..499b826 100644
--- a/netcdf/hdf5/floatingPoint.go
+++ b/netcdf/hdf5/floatingPoint.go
@@ -147,7 +147,7 @@ func (floatingPointManagerType) parse(hr heapReader, c caster, attr *attribute,
 		return
 	}
 	logger.Info("data len", df.Rem())
-	assert(df.Rem() >= int64(attr.length), "floating-point data short")
+	assert(df.Rem() == 0 || df.Rem() >= int64(attr.length), "floating-point data short")
 	attr.df = newResetReaderSave(df, df.Rem())
 }
 
-- 
2.43.0


From 6d85d214e6ce1b53f51b7abdc9d9772bce439ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 33/63] fix: list an attribute added twice once; keep ordered
 maps apart from their callers' slices and maps

---
 netcdf/util/orderedmap.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/netcdf/util/orderedmap.go b/netcdf/util/orderedmap.go
index ff9fe1f..9992a46 100644
--- a/netcdf/util/orderedmap.go
+++ b/netcdf/util/orderedmap.go
@@ -4,6 +4,7 @@ package util
 import (
 	"errors"
 	"fmt"
+	"maps"
 	"reflect"
 	"slices"
 	"strconv"
@@ -46,23 +47,24 @@ func NewOrderedMap(keys []string, values map[string]any) (*OrderedMap, error) {
 			return nil, ErrorKeysDontMatchValues
 		}
 	}
-	if values == nil {
-		values = map[string]any{}
-	}
+	// The caller keeps its own keys and values.
+	ownValues := make(map[string]any, len(values))
+	maps.Copy(ownValues, values)
 
 	visibleKeys := []string{}
 	visibleKeys = append(visibleKeys, keys...)
 
 	return &OrderedMap{
-		keys:        keys,
-		values:      values,
+		keys:        slices.Clone(keys),
+		values:      ownValues,
 		visibleKeys: visibleKeys,
 		hiddenKeys:  map[string]bool{}}, nil
 }
 
 // Add adds a key/value pair to an ordered map at the end.
+// If the key is already there, its value is replaced.
 func (om *OrderedMap) Add(name string, val any) {
-	if !om.hiddenKeys[name] {
+	if _, has := om.values[name]; !has && !om.hiddenKeys[name] {
 		om.keys = append(om.keys, name)
 		om.visibleKeys = append(om.visibleKeys, name)
 	}
@@ -101,7 +103,7 @@ func (om *OrderedMap) Hide(hiddenKey string) {
 // Keys returns the keys in order for the map.
 // It does not return the hidden keys.
 func (om *OrderedMap) Keys() []string {
-	return om.visibleKeys
+	return slices.Clone(om.visibleKeys)
 }
 
 func (om *OrderedMap) pGoType(val any) (string, bool) {
-- 
2.43.0


From a343ceb181d63399a8cd3bfc577a015657b444ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:08 +0000
Subject: [PATCH 34/63] fix: write the names and attributes passed, not what
 their maps and slices become later

---
 netcdf/cdf/cdfwriter.go     |  4 ++--
 netcdf/hdf5/writer_check.go |  7 ++++---
 netcdf/util/orderedmap.go   | 16 ++++++++++++++++
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 520a2a5..905358b 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -426,7 +426,7 @@ func (cw *CDFWriter) AddAttributes(attrs api.AttributeMap) (err error) {
 		return ErrInvalidName
 	}
 	checkAttributes(attrs)
-	cw.globalAttrs = attrs
+	cw.globalAttrs = util.CopyAttributes(attrs)
 	return nil
 }
 
@@ -502,7 +502,7 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 		cw.nextID++
 	}
 	cw.vars = append(cw.vars, savedVar{name, vr.Values, ty, dimLengths,
-		dimNames, vr.Attributes, 0, 0})
+		dimNames, util.CopyAttributes(vr.Attributes), 0, 0})
 	return nil
 }
 
diff --git a/netcdf/hdf5/writer_check.go b/netcdf/hdf5/writer_check.go
index c7983eb..221907a 100644
--- a/netcdf/hdf5/writer_check.go
+++ b/netcdf/hdf5/writer_check.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"reflect"
+	"slices"
 	"strings"
 
 	"github.com/batchatco/go-native-netcdf/internal"
@@ -203,8 +204,8 @@ func (hw *HDF5Writer) addVar(g *h5Group, name string, vr api.Variable) error {
 	g.vars[name] = &h5Var{
 		name:       name,
 		val:        vr.Values,
-		dimensions: vr.Dimensions,
-		attributes: vr.Attributes,
+		dimensions: slices.Clone(vr.Dimensions),
+		attributes: util.CopyAttributes(vr.Attributes),
 	}
 	return nil
 }
@@ -214,7 +215,7 @@ func (hw *HDF5Writer) addAttributes(g *h5Group, attrs api.AttributeMap) error {
 	if err := checkAttributes(attrs); err != nil {
 		return err
 	}
-	g.attributes = attrs
+	g.attributes = util.CopyAttributes(attrs)
 	return nil
 }
 
diff --git a/netcdf/util/orderedmap.go b/netcdf/util/orderedmap.go
index 9992a46..6dd6476 100644
--- a/netcdf/util/orderedmap.go
+++ b/netcdf/util/orderedmap.go
@@ -9,6 +9,8 @@ import (
 	"slices"
 	"strconv"
 	"strings"
+
+	"github.com/batchatco/go-native-netcdf/netcdf/api"
 )
 
 type funcCallback func(name string) (string, bool)
@@ -61,6 +63,20 @@ func NewOrderedMap(keys []string, values map[string]any) (*OrderedMap, error) {
 		hiddenKeys:  map[string]bool{}}, nil
 }
 
+// CopyAttributes returns a copy of an attribute map, nil if there is none.
+// Writers keep copies because callers may go on using their maps.
+func CopyAttributes(attrs api.AttributeMap) api.AttributeMap {
+	if attrs == nil {
+		return nil
+	}
+	om := &OrderedMap{values: map[string]any{}, hiddenKeys: map[string]bool{}}
+	for _, key := range attrs.Keys() {
+		val, _ := attrs.Get(key)
+		om.Add(key, val)
+	}
+	return om
+}
+
 // Add adds a key/value pair to an ordered map at the end.
 // If the key is already there, its value is replaced.
 func (om *OrderedMap) Add(name string, val any) {
-- 
2.43.0


From ec1dd1101639656612902d6287b092b6b040ebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:06 +0000
Subject: [PATCH 35/63] fix: close CDF files once, when the last of their
 groups is closed; read them from several goroutines

---
 netcdf/cdf/cdf.go         | 73 +++++++++++++++++++++++++++------------
 netcdf/hdf5/hdf5writer.go | 19 +++++-----
 2 files changed, 60 insertions(+), 32 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 4a91e35..c256d84 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -11,6 +11,7 @@ import (
 	"math"
 	"os"
 	"reflect"
+	"sync"
 
 	"github.com/batchatco/go-native-netcdf/internal"
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
@@ -65,18 +66,25 @@ const (
 	slow = true  // slow conversion, uses reflection for everything.
 )
 
+// sharedFile is a file used by several groups.
+type sharedFile struct {
+	file     api.ReadSeekerCloser
+	refCount int        // how many groups have not been closed
+	lock     sync.Mutex // for refCount, and to keep seeks and reads together
+}
+
 type CDF struct {
-	fname        string
-	file         api.ReadSeekerCloser
-	fileRefCount int
-	version      uint8
-	numRecs      uint64 // 64-bits in V5
-	recSize      uint64
-	dimensions   []dimension
-	globalAttrs  *util.OrderedMap
-	vars         *util.OrderedMap
-	specialCase  bool
-	slowConvert  convertType // default is fast
+	fname       string
+	file        *sharedFile
+	closed      bool
+	version     uint8
+	numRecs     uint64 // 64-bits in V5
+	recSize     uint64
+	dimensions  []dimension
+	globalAttrs *util.OrderedMap
+	vars        *util.OrderedMap
+	specialCase bool
+	slowConvert convertType // default is fast
 }
 
 const maxDimensions = 1024
@@ -451,7 +459,8 @@ func (cdf *CDF) readNumber(bf io.Reader) uint64 {
 
 func (cdf *CDF) readHeader() (err error) {
 	defer thrower.RecoverError(&err)
-	bf := io.Reader(bufio.NewReader(cdf.file))
+	seekTo(cdf.file.file, 0)
+	bf := io.Reader(bufio.NewReader(cdf.file.file))
 
 	// magic
 	b := readBytes(bf, 4)
@@ -529,28 +538,39 @@ func (cdf *CDF) readHeader() (err error) {
 // longer being used by any other groups.
 func (cdf *CDF) Close() {
 	defer thrower.RecoverError(nil)
-	assert(cdf.fileRefCount > 0, "ref count off", ErrInternal)
-	cdf.fileRefCount--
-	if cdf.fileRefCount == 0 {
-		err := cdf.file.Close()
+	cdf.file.lock.Lock()
+	defer cdf.file.lock.Unlock()
+	if cdf.closed {
+		return
+	}
+	cdf.closed = true
+	assert(cdf.file.refCount > 0, "ref count off", ErrInternal)
+	cdf.file.refCount--
+	if cdf.file.refCount == 0 {
+		err := cdf.file.file.Close()
 		if err != nil {
 			logger.Error("Error on close (ignored):", err)
 		}
-		cdf.file = nil
 	}
 }
 
 // GetGroup gets the given group or returns an error if not found.
 // The group can start with "/" for absolute names, or relative.
 func (cdf *CDF) GetGroup(group string) (g api.Group, err error) {
-	// TODO: use hdf5 file refcounting
 	// TODO: fake groups with "/" in names
 	defer thrower.RecoverError(&err)
 	if group != "" && group != "/" {
 		return nil, ErrNotFound
 	}
-	cdf.fileRefCount++
-	return api.Group(cdf), nil
+	cdf.file.lock.Lock()
+	defer cdf.file.lock.Unlock()
+	if cdf.closed {
+		return nil, os.ErrClosed
+	}
+	cdf.file.refCount++
+	// The same group, to be closed separately.
+	dup := *cdf
+	return api.Group(&dup), nil
 }
 
 // Open is the implementation of the API netcdf.Open.
@@ -571,7 +591,7 @@ func Open(fname string) (api.Group, error) {
 // Using netcdf.New is preferred over using this directly.
 func New(file api.ReadSeekerCloser) (ag api.Group, err error) {
 	defer thrower.RecoverError(&err)
-	c := &CDF{file: file, fileRefCount: 1}
+	c := &CDF{file: &sharedFile{file: file, refCount: 1}}
 	err = c.readHeader()
 	if err != nil {
 		return nil, err
@@ -877,11 +897,18 @@ func (cdf *CDF) GetVariable(name string) (v *api.Variable, err error) {
 		Attributes: sl.Attributes()}, nil
 }
 
+// readAt reads len(p) bytes at the given offset.
+func (f *sharedFile) readAt(p []byte, offset int64) (int, error) {
+	f.lock.Lock()
+	defer f.lock.Unlock()
+	seekTo(f.file, offset)
+	return io.ReadFull(f.file, p)
+}
+
 // readFilled reads the bytes at the given offset. Elements that are not (completely) in the file
 // are given the fill value.
 func (cdf *CDF) readFilled(v *variable, p []byte, offset int64, elemSize int64) {
-	seekTo(cdf.file, offset)
-	n, err := io.ReadFull(cdf.file, p)
+	n, err := cdf.file.readAt(p, offset)
 	if err == io.EOF || err == io.ErrUnexpectedEOF {
 		missing := p[int64(n)/elemSize*elemSize:]
 		_, err = io.ReadFull(makeFillValueReader(*v, bytes.NewReader(nil)), missing)
diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index ef9d8f7..218b565 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -69,12 +69,12 @@ type HDF5Writer struct {
 	heap            *h5GlobalHeap // strings and vlen data
 	dimHeap         *h5GlobalHeap // references to dimension scales
 	closed          bool
-	closeErr        error // what Close returned
+	closeErr        error             // what Close returned
 	dimSizes        map[string]uint64 // dimension name → size
 	dimAddrs        map[string]uint64 // dimension name → dim scale variable OH address
 	byteOrder       binary.ByteOrder
 	vlenHeapIndices []h5HeapID // per-variable vlen heap indices during data write
-	vlenPos         int      // counter into vlenHeapIndices during data write
+	vlenPos         int        // counter into vlenHeapIndices during data write
 }
 
 func (hw *HDF5Writer) Close() error {
@@ -446,10 +446,10 @@ func (hw *HDF5Writer) writeVarObjectHeaderV2(v *h5Var, dataAddr uint64, dataSize
 
 func (hw *HDF5Writer) buildLinkInfoMessage() h5Message {
 	buf := new(bytes.Buffer)
-	util.MustWriteByte(buf, 0)                      // version
-	util.MustWriteByte(buf, 0)                      // flags (no creation order tracking)
-	util.MustWriteLE(buf, uint64(invalidAddress))   // fractal heap address (undefined = compact)
-	util.MustWriteLE(buf, uint64(invalidAddress))   // name index v2 B-tree address (undefined = compact)
+	util.MustWriteByte(buf, 0)                    // version
+	util.MustWriteByte(buf, 0)                    // flags (no creation order tracking)
+	util.MustWriteLE(buf, uint64(invalidAddress)) // fractal heap address (undefined = compact)
+	util.MustWriteLE(buf, uint64(invalidAddress)) // name index v2 B-tree address (undefined = compact)
 	return h5Message{mType: 2, data: buf.Bytes()}
 }
 
@@ -505,9 +505,9 @@ func (hw *HDF5Writer) writeObjectHeaderV2(messages []h5Message) {
 			pad += 8
 		}
 		// Write a null message (type 0) with data size = pad - 4
-		util.MustWriteByte(msgBuf, 0)                      // type 0 (nil)
-		util.MustWriteLE(msgBuf, uint16(pad-4))            // data size
-		util.MustWriteByte(msgBuf, 0)                      // flags
+		util.MustWriteByte(msgBuf, 0)           // type 0 (nil)
+		util.MustWriteLE(msgBuf, uint16(pad-4)) // data size
+		util.MustWriteByte(msgBuf, 0)           // flags
 		for range pad - 4 {
 			util.MustWriteByte(msgBuf, 0) // null data
 		}
@@ -519,6 +519,7 @@ func (hw *HDF5Writer) writeObjectHeaderV2(messages []h5Message) {
 	util.MustWriteLE(ohBuf, ohChecksum)
 	util.MustWriteRaw(hw.buf, ohBuf.Bytes())
 }
+
 // writeData writes variable data to the buffer and returns the logical
 // data size (before alignment padding).
 func (hw *HDF5Writer) writeDataVar(v *h5Var) uint64 {
-- 
2.43.0


From 10170edd0a85fe04e10e93c5636e035c8b730fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:57 +0000
Subject: [PATCH 36/63] fix: refuse to read CDF files that have been closed

---
 netcdf/cdf/cdf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index c256d84..5c4b6e7 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -901,6 +901,9 @@ func (cdf *CDF) GetVariable(name string) (v *api.Variable, err error) {
 func (f *sharedFile) readAt(p []byte, offset int64) (int, error) {
 	f.lock.Lock()
 	defer f.lock.Unlock()
+	if f.refCount == 0 {
+		return 0, os.ErrClosed
+	}
 	seekTo(f.file, offset)
 	return io.ReadFull(f.file, p)
 }
-- 
2.43.0


From ef223e1f50866dd76546a58fbb79dc79c0c19ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:57 +0000
Subject: [PATCH 37/63] fix: failing and short reads of HDF5 files neither
 leave half-read attributes, heaps and chunk lists behind nor read as fill
 values; verify the checksums of whole chunks; close files once

---
 netcdf/hdf5/hdf5.go    | 305 ++++++++++++++---------------------------
 netcdf/hdf5/readers.go | 198 ++++++++++++++++++++++----
 2 files changed, 279 insertions(+), 224 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 28203cd..379a85b 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2,7 +2,6 @@
 package hdf5
 
 import (
-	"compress/zlib"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -13,6 +12,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/batchatco/go-native-netcdf/internal"
@@ -186,7 +186,7 @@ type attribute struct {
 	endian        binary.ByteOrder
 	dtversion     uint8
 	creationOrder uint64
-	df            io.Reader
+	df            *resetReader // the bytes of the value
 	noDf          bool
 }
 
@@ -216,8 +216,16 @@ type HDF5 struct {
 	groupObject   *object
 	registrations map[string]any
 	addrs         map[uint64]bool
-	heapCache     map[uint64]map[uint32][]byte // cache for global heap object lookups
-	addrToName    map[uint64]string            // lazy cache: object address → name
+	heapCache     *globalHeapCache  // cache for global heap object lookups
+	addrToName    map[uint64]string // object address → name
+	attrLock      *sync.Mutex       // for parsing attributes
+}
+
+// globalHeapCache has the objects of all the global heap collections read so far. It is used by
+// all the groups of a file.
+type globalHeapCache struct {
+	lock        sync.Mutex
+	collections map[uint64]map[uint32][]byte
 }
 
 type linkInfo struct {
@@ -249,7 +257,6 @@ type object struct {
 	fillValueOld     []byte
 	isGroup          bool
 	creationOrder    uint64
-	attrListIsSorted bool
 }
 
 // Only the pointer is used here.  We don't actually use the value.
@@ -1141,17 +1148,22 @@ func checkVal(expected, actual any, comment string) {
 
 func (h5 *HDF5) readGlobalHeap(heapAddress uint64, index uint32) (remReader, uint64) {
 	// Return from cache on subsequent calls to the same heap collection.
-	if cache, ok := h5.heapCache[heapAddress]; ok {
-		if data, ok := cache[index]; ok {
-			return newResetReaderFromBytes(data), uint64(len(data))
-		}
-		return nil, 0
+	h5.heapCache.lock.Lock()
+	defer h5.heapCache.lock.Unlock()
+	cache, ok := h5.heapCache.collections[heapAddress]
+	if !ok {
+		// First visit: parse the entire collection and cache every object.
+		cache = h5.readGlobalHeapCollection(heapAddress)
+		h5.heapCache.collections[heapAddress] = cache
 	}
+	if data, ok := cache[index]; ok {
+		return newResetReaderFromBytes(data), uint64(len(data))
+	}
+	return nil, 0
+}
 
-	// First visit: parse the entire collection and cache every object.
+func (h5 *HDF5) readGlobalHeapCollection(heapAddress uint64) map[uint32][]byte {
 	cache := make(map[uint32][]byte)
-	h5.heapCache[heapAddress] = cache
-
 	bf := h5.newSeek(heapAddress, 16) // header is 16 bytes
 	checkMagic(bf, 4, "GCOL")
 	version := read8(bf)
@@ -1187,11 +1199,7 @@ func (h5 *HDF5) readGlobalHeap(heapAddress uint64, index uint32) (remReader, uin
 			}
 		}
 	}
-
-	if data, ok := cache[index]; ok {
-		return newResetReaderFromBytes(data), uint64(len(data))
-	}
-	return nil, 0
+	return cache
 }
 
 func (h5 *HDF5) readHeap(link *linkInfo) {
@@ -2298,10 +2306,7 @@ func (h5 *HDF5) readDataObjectHeaderV1(obj *object, addr uint64) {
 // Close closes this group and closes any underlying files if they are no
 // longer being used by any other groups.
 func (h5 *HDF5) Close() {
-	if h5.file != nil {
-		h5.file.Close()
-	}
-	h5.file = nil
+	h5.file.Close()
 }
 
 func canonicalizePath(s string) string {
@@ -2368,6 +2373,7 @@ func (h5 *HDF5) GetGroup(group string) (g api.Group, err error) {
 		return nil, ErrNotFound
 	}
 
+	h5.parseAttributes(o)
 	hg := *h5
 	hg.groupName = groupName
 	hg.groupObject = o
@@ -2416,7 +2422,9 @@ func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
 		groupObject:   nil,
 		registrations: make(map[string]any),
 		addrs:         make(map[uint64]bool),
-		heapCache:     make(map[uint64]map[uint32][]byte),
+		heapCache:     &globalHeapCache{collections: make(map[uint64]map[uint32][]byte)},
+		addrToName:    make(map[uint64]string),
+		attrLock:      &sync.Mutex{},
 	}
 	h5.readSuperblock()
 	assert(h5.rootAddr != invalidAddress, "No root address")
@@ -2425,6 +2433,8 @@ func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
 	h5.groupObject = h5.rootObject
 	h5.groupObject.isGroup = true
 	h5.dumpObject(h5.rootObject)
+	h5.indexObjects(h5.rootObject)
+	h5.parseAttributes(h5.rootObject)
 	return api.Group(h5), nil
 }
 
@@ -2454,28 +2464,7 @@ func makeSlices(ty reflect.Type, dimLengths []uint64) reflect.Value {
 	return reflect.MakeSlice(sliceType, int(dimLengths[0]), int(dimLengths[0]))
 }
 
-func readAll(bf io.Reader, b []byte) (uint64, error) {
-	tot := uint64(0)
-	for {
-		n, err := bf.Read(b)
-		if n == 0 {
-			break
-		}
-		tot += uint64(n)
-		b = b[n:]
-		if err == io.EOF {
-			return tot, err
-		}
-		if err != nil {
-			logger.Error("Some other error", err)
-			return tot, err
-		}
-	}
-	return tot, nil
-}
-
 func (h5 *HDF5) newRecordReader(obj *object) remReader {
-	nBlocks := len(obj.dataBlocks)
 	size := uint64(calcAttrSize(obj.objAttr))
 	if size == 0 {
 		return newResetReaderFromBytes([]byte{})
@@ -2506,16 +2495,18 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 		firstKey = first / layout * layout * rowSize
 		lastKey = last * rowSize
 	}
-	if nBlocks == 0 && obj.btreeAddr != 0 {
-		h5.readBTreeNode(obj, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality, firstKey, lastKey)
-		nBlocks = len(obj.dataBlocks)
+	dataBlocks := obj.dataBlocks
+	if len(dataBlocks) == 0 && obj.btreeAddr != 0 {
+		tmp := *obj // collects the blocks
+		h5.readBTreeNode(&tmp, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality, firstKey, lastKey)
+		dataBlocks = tmp.dataBlocks
 	}
-	if nBlocks == 0 {
+	if len(dataBlocks) == 0 {
 		logger.Info("No blocks, filling only", size, obj.objAttr.dimensions)
 		return makeFillValueReader(obj, nil, int64(size))
 	}
 	offset := uint64(0)
-	for _, val := range obj.dataBlocks {
+	for _, val := range dataBlocks {
 		dsLength := val.dsLength
 		skipBegin := uint64(0)
 		skipEnd := uint64(0)
@@ -2541,74 +2532,23 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 			skipEnd = offset + dsLength - lastOffset
 		}
 
+		thisSize := dsLength - (skipBegin + skipEnd)
 		var bf io.Reader
-		canSeek := false
-		if val.rawData != nil {
-			thisSize := int64(dsLength - skipEnd)
-			bf = newResetReaderFromBytes(val.rawData[:thisSize])
-		} else {
+		switch {
+		case val.rawData != nil:
+			bf = newResetReaderFromBytes(val.rawData[skipBegin : skipBegin+thisSize])
+		case isFiltered(obj, &val):
+			bf = &filteredReader{h5: h5, filters: obj.filters, block: val, skip: skipBegin, size: thisSize}
+		default:
 			logger.Infof("offset=0x%x length=%d offset+length=0x%x filesize=0x%x",
 				valOffset, val.length,
 				valOffset+val.length, h5.fileSize)
-			bf = h5.newSeek(valOffset, int64(val.length))
-			canSeek = true
-		}
-
-		// Filters must be applied in the reverse order of their definition.
-		// We pre-calculate the expected data size at each stage of the pipeline
-		// to ensure filters like Fletcher32 and Shuffle receive the correct input/output sizes.
-		targetSize := make([]uint64, len(obj.filters))
-		curr := dsLength
-		for j := range obj.filters {
-			targetSize[j] = curr
-			if (1<<uint(j))&val.filterMask == 0 {
-				if obj.filters[j].kind == filterFletcher32 {
-					curr += 4
-				}
-			}
-		}
-
-		inputSize := val.length
-		for j := len(obj.filters) - 1; j >= 0; j-- {
-			f := obj.filters[j]
-			if (1<<uint(j))&val.filterMask != 0 {
-				continue
-			}
-			switch f.kind {
-			case filterFletcher32:
-				bf = fletcher32Reader(bf, inputSize)
-				inputSize -= 4
-			case filterDeflate:
-				zbf, err := zlib.NewReader(bf)
-				if err != nil {
-					failError(ErrUnknownCompression, fmt.Sprintf("unknown compression: %v", err))
-				}
-				// If there are more filters, we don't know the size yet.
-				// But shuffle usually needs it.
-				bf = newResetReader(zbf, int64(targetSize[j]))
-				inputSize = targetSize[j]
-				canSeek = false
-			case filterShuffle:
-				shuffleParam := uint32(0)
-				if len(f.cdv) > 0 {
-					shuffleParam = f.cdv[0]
-				}
-				bf = newUnshuffleReader(bf, targetSize[j], shuffleParam)
-				inputSize = targetSize[j]
-				canSeek = false
-			}
-		}
-		if skipBegin > 0 {
-			if canSeek {
-				thisSize := int64(dsLength - (skipBegin + skipEnd))
-				bf = h5.newSeek(valOffset+skipBegin, thisSize)
-			} else {
-				skip(bf, int64(skipBegin))
-			}
+			assertError(skipBegin+thisSize <= val.length, ErrCorrupted, "block too short")
+			bf = h5.newSeek(valOffset+skipBegin, int64(thisSize))
 		}
 		thisSeg := &segment{
 			offset: offset + skipBegin,
-			length: dsLength - (skipBegin + skipEnd),
+			length: thisSize,
 			r:      bf,
 		}
 		segments.append(thisSeg)
@@ -2631,7 +2571,7 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 		}
 		assert(seg.offset <= off, "discontiguous data")
 		logger.Infof("Reader at offset 0x%x length %d", seg.offset, seg.length)
-		readers = append(readers, newResetReader(r, int64(seg.length)))
+		readers = append(readers, newExactReader(r, seg.length))
 		off += seg.length
 	}
 	if lastOffset > off {
@@ -2857,7 +2797,8 @@ loop:
 func (h5 *HDF5) Attributes() api.AttributeMap {
 	// entry point, panic can bubble up
 	assert(h5.groupObject != nil, "nil root object")
-	h5.sortAttrList(h5.groupObject)
+	// They were parsed when the group was opened, unless a type has been registered since then
+	h5.parseAttributes(h5.groupObject)
 	return h5.getAttributes(h5.groupObject.attrlist)
 }
 
@@ -2875,7 +2816,7 @@ type objectKind struct {
 // classifyObject scans attrlist for the three NetCDF4 metadata attributes that
 // distinguish dimension scales, coordinate variables, and regular variables.
 // String attribute values are set immediately during parsing, so this is safe to
-// call before sortAttrList.
+// call before parseAttributes.
 func classifyObject(attrlist []*attribute) objectKind {
 	var k objectKind
 	for _, a := range attrlist {
@@ -3091,22 +3032,38 @@ func (h5 *HDF5) findSignature(signature string, name string, origNames map[strin
 	return ""
 }
 
-func (h5 *HDF5) parseAttr(obj *object, a *attribute) {
-	if a.df != nil {
-		a.df = makeFillValueReader(obj, a.df, int64(calcAttrSize(a)))
-		logger.Infof("Reparsing attribute %s %s %p", a.name, typeNames[a.class], a)
-		// Temporarily suppress registrations for internal HDF5 attributes to avoid side effects.
-		save := h5.registrations
-		switch a.name {
-		case "DIMENSION_LIST", "NAME", "REFERENCE_LIST", "CLASS":
-			h5.registrations = nil
+// noCaster is for attributes that have nothing to do with registered types.
+type noCaster struct{}
+
+func (noCaster) cast(attribute) reflect.Type { return nil }
+
+// parseAttributes sets the values of all the attributes of the object.
+func (h5 *HDF5) parseAttributes(obj *object) {
+	h5.attrLock.Lock()
+	defer h5.attrLock.Unlock()
+	for _, a := range obj.attrlist {
+		if a.value == nil {
+			a.value = h5.attrValue(obj, a)
 		}
-		a.value = getDataAttr(h5, h5, a.df, *a)
-		a.df = nil
-		h5.registrations = save
 	}
 }
 
+func (h5 *HDF5) attrValue(obj *object, a *attribute) any {
+	sz := int64(calcAttrSize(a))
+	if a.df == nil {
+		logger.Info("Need fill value reader", a.name)
+		return getDataAttr(h5, h5, makeFillValueReader(newObject(), nil, sz), *a)
+	}
+	logger.Infof("Parsing attribute %s %s %p", a.name, typeNames[a.class], a)
+	df := makeFillValueReader(obj, a.df.again(), sz)
+	// Registrations don't matter for internal HDF5 attributes
+	switch a.name {
+	case "DIMENSION_LIST", "NAME", "REFERENCE_LIST", "CLASS":
+		return getDataAttr(h5, noCaster{}, df, *a)
+	}
+	return getDataAttr(h5, h5, df, *a)
+}
+
 func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 	filtered := make(map[string]any)
 	keys := []string{} // in order
@@ -3118,13 +3075,7 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 			logger.Infof("Found a %v %v %T", val.name, val.value, val.value)
 		default:
 			if val.value == nil {
-				if val.df == nil {
-					logger.Info("Need fill value reader", val.name)
-					fakeObj := newObject()
-					sz := calcAttrSize(val)
-					val.df = makeFillValueReader(fakeObj, nil, int64(sz))
-				}
-				val.value = getDataAttr(h5, h5, val.df, *val)
+				continue // a type that is ignored
 			}
 			value := undoScalarAttribute(val.value)
 			if _, has := filtered[val.name]; !has {
@@ -3166,43 +3117,32 @@ func undoScalarAttribute(value any) any {
 	return v.Interface()
 }
 
-// addrIndex builds and caches a flat map from every object's address to its name.
-// This replaces the previous recursive findDim which did an O(N) tree traversal
-// for each dimension lookup; with the map, each lookup is O(1) after one O(N) build.
-func (h5 *HDF5) addrIndex() map[uint64]string {
-	if h5.addrToName != nil {
-		return h5.addrToName
-	}
-	m := make(map[uint64]string)
-	var walk func(*object)
-	walk = func(obj *object) {
-		m[obj.addr] = obj.name
-		for _, child := range obj.children {
-			walk(child)
-		}
+// indexObjects prepares the object and those below it for being read: it sorts their attributes
+// by creation order, and records their addresses, to find the names of dimensions by.
+func (h5 *HDF5) indexObjects(obj *object) {
+	h5.addrToName[obj.addr] = obj.name
+	sort.SliceStable(obj.attrlist, func(i, j int) bool {
+		return obj.attrlist[i].creationOrder < obj.attrlist[j].creationOrder
+	})
+	for _, child := range obj.children {
+		h5.indexObjects(child)
 	}
-	walk(h5.rootObject)
-	h5.addrToName = m
-	return m
 }
 
 func (h5 *HDF5) getDimensions(obj *object) []string {
 	logger.Infof("Getting dimensions addr 0x%x", obj.addr)
 	dimNames := make([]string, 0)
-	for i := range obj.attrlist {
-		h5.parseAttr(obj, obj.attrlist[i])
-		a := obj.attrlist[i]
+	for _, a := range obj.attrlist {
 		if a.name != "DIMENSION_LIST" {
 			continue
 		}
 		logger.Infof("DIMENSION_LIST=%T 0x%x", a.value, a.value)
 		varLen := a.value.([][]uint64)
-		addrToName := h5.addrIndex()
 		for _, v := range varLen {
 			for i, addr := range v {
 				// Each entry in the dimension list is a uint64 object address.
 				logger.Infof("dimension list %d 0x%x)", i, addr)
-				if name := addrToName[addr]; name != "" {
+				if name := h5.addrToName[addr]; name != "" {
 					logger.Info("dim found", name)
 					dimNames = append(dimNames, name)
 				}
@@ -3213,37 +3153,7 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 		return dimNames
 	}
 
-	var f func(ob *object)
-	f = func(ob *object) {
-		logger.Infof("obj %s 0x%x", ob.name, ob.addr)
-		for i := range ob.attrlist {
-			h5.parseAttr(ob, ob.attrlist[i])
-			a := ob.attrlist[i]
-			if a.name != "REFERENCE_LIST" {
-				continue
-			}
-			logger.Infof("value is %T %v", a.value, a.value)
-			for k, v := range a.value.([]compound) {
-				vals2 := v
-				v0 := vals2[0].Val.(uint64)
-				v1, has := vals2[1].Val.(int32)
-				if !has {
-					// Recent versions of netcdf tools generate unsigned for the dimension.
-					logger.Info("Unsigned reference dimension")
-					uv1 := vals2[1].Val.(uint32)
-					v1 = int32(uv1)
-				}
-				logger.Infof("single ref %d 0x%x %d %s", k, v0, v1, ob.name)
-			}
-		}
-		for _, o := range ob.children {
-			f(o)
-		}
-	}
-	f(h5.rootObject)
-	for i := range obj.attrlist {
-		h5.parseAttr(obj, obj.attrlist[i])
-		a := obj.attrlist[i]
+	for _, a := range obj.attrlist {
 		switch a.name {
 		case "NAME":
 			nameValue := a.value.(string)
@@ -3268,7 +3178,7 @@ func (h5 *HDF5) GetVariable(varName string) (av *api.Variable, err error) {
 	if data == nil {
 		return nil, ErrNotFound
 	}
-	h5.sortAttrList(found)
+	h5.parseAttributes(found)
 	dims := h5.getDimensions(found)
 	attrs := h5.getAttributes(found.attrlist)
 	return &api.Variable{
@@ -3289,7 +3199,7 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		logger.Warnf("variable %s not found", varName)
 		return nil, ErrNotFound
 	}
-	h5.sortAttrList(found)
+	h5.parseAttributes(found)
 	d := int64(0)
 	fakeEnd := false
 	switch {
@@ -3399,19 +3309,6 @@ func (h5 *HDF5) ListSubgroups() []string {
 	return ret
 }
 
-func (h5 *HDF5) sortAttrList(obj *object) {
-	if obj.attrListIsSorted {
-		return
-	}
-	for i := range obj.attrlist {
-		h5.parseAttr(obj, obj.attrlist[i])
-	}
-	sort.SliceStable(obj.attrlist, func(i, j int) bool {
-		return obj.attrlist[i].creationOrder < obj.attrlist[j].creationOrder
-	})
-	obj.attrListIsSorted = true
-}
-
 func (obj *object) sortChildren() []*object {
 	var children []*object
 	for _, child := range obj.children {
@@ -3490,4 +3387,12 @@ func (h5 *HDF5) register(typeName string, proto any) {
 		return
 	}
 	h5.registrations[typeName] = proto
+	// Parse the attributes of the group again, with this type
+	h5.attrLock.Lock()
+	defer h5.attrLock.Unlock()
+	for _, a := range h5.groupObject.attrlist {
+		if a.df != nil {
+			a.value = nil
+		}
+	}
 }
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 25ced84..4647edb 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -5,7 +5,11 @@ package hdf5
 import (
 	"bufio"
 	"bytes"
+	"compress/zlib"
+	"fmt"
 	"io"
+	"math"
+	"os"
 	"sync"
 
 	"github.com/batchatco/go-native-netcdf/netcdf/util"
@@ -35,6 +39,7 @@ type refCountedFile struct {
 type raFile struct {
 	rcFile      *refCountedFile // ref counted file
 	seekPointer int64
+	closed      bool
 }
 
 // resetreader takes a file and a size (or a byte array), and
@@ -98,7 +103,13 @@ func (fl *fletcher) Read(b []byte) (int, error) {
 		thisLen = (fl.size - 4) - fl.count
 	}
 	n, err := fl.r.Read(b[:thisLen])
-	if err != nil && err != io.EOF {
+	if err == io.EOF {
+		err = nil
+		if n == 0 && thisLen > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+	}
+	if err != nil && n == 0 {
 		return 0, err
 	}
 	// One's complement addition: unlike with a modulo, a non-zero sum never becomes zero.
@@ -142,7 +153,7 @@ func (fl *fletcher) Read(b []byte) (int, error) {
 			thrower.Throw(ErrFletcherChecksum)
 		}
 	}
-	return n, nil
+	return n, err
 }
 
 func (r *resetReader) Rem() int64 {
@@ -157,7 +168,7 @@ func (r *resetReader) Read(p []byte) (int, error) {
 	return r.lr.Read(p)
 }
 
-func newResetReaderFromBytes(b []byte) remReader {
+func newResetReaderFromBytes(b []byte) *resetReader {
 	file := bytes.NewReader(b)
 	size := int64(len(b))
 	ret := &resetReader{
@@ -168,6 +179,11 @@ func newResetReaderFromBytes(b []byte) remReader {
 	return ret
 }
 
+// again returns a reader that starts at the beginning again, of a reader made from bytes.
+func (r *resetReader) again() *resetReader {
+	return newResetReaderFromBytes(r.bytes)
+}
+
 func newResetReader(file io.Reader, size int64) remReader {
 	ret := &resetReader{
 		lr:   &io.LimitedReader{R: file, N: size},
@@ -176,7 +192,7 @@ func newResetReader(file io.Reader, size int64) remReader {
 	return ret
 }
 
-func newResetReaderSave(file io.Reader, size int64) remReader {
+func newResetReaderSave(file io.Reader, size int64) *resetReader {
 	b := make([]byte, size)
 	read(file, b)
 	return newResetReaderFromBytes(b)
@@ -199,7 +215,14 @@ func newRaFile(file io.ReadSeeker) *raFile {
 	}
 }
 
+// Close does nothing if it was called already.
 func (f *raFile) Close() error {
+	f.rcFile.Lock()
+	defer f.rcFile.Unlock()
+	if f.closed {
+		return nil
+	}
+	f.closed = true
 	return f.rcFile.dereference()
 }
 
@@ -211,6 +234,11 @@ func (f *raFile) seekAt(offset int64) *raFile {
 }
 
 func (f *raFile) dup() *raFile {
+	f.rcFile.Lock()
+	defer f.rcFile.Unlock()
+	if f.closed {
+		thrower.Throw(os.ErrClosed)
+	}
 	f.rcFile.reference()
 	return &raFile{
 		rcFile:      f.rcFile,
@@ -227,6 +255,9 @@ func (f *raFile) Read(p []byte) (int, error) {
 
 func (f *raFile) readNoLock(p []byte) (int, error) {
 	thisLen := len(p)
+	if f.rcFile.file == nil {
+		return 0, os.ErrClosed
+	}
 	_, err := f.rcFile.file.Seek(f.seekPointer, io.SeekStart)
 	if err != nil {
 		logger.Error("Seek error in Read", err, io.SeekStart)
@@ -234,8 +265,8 @@ func (f *raFile) readNoLock(p []byte) (int, error) {
 	}
 	n, err := f.rcFile.file.Read(p[:thisLen])
 	if err != nil {
+		// There can also be data
 		logger.Error("Read error in Read", err, io.SeekStart)
-		return 0, err
 	}
 	// Save position
 	f.seekPointer += int64(n)
@@ -244,18 +275,11 @@ func (f *raFile) readNoLock(p []byte) (int, error) {
 }
 
 func (f *raFile) ReadAt(b []byte, offset int64) (int, error) {
-	f.rcFile.Lock()
-	defer f.rcFile.Unlock()
-	save := f.seekPointer
-	_, err := f.rcFile.file.Seek(offset, io.SeekStart)
-	if err != nil {
-		logger.Error("Seek error in ReadAt", err, offset, io.SeekStart)
-		return 0, err
+	n, err := io.ReadFull(f.seekAt(offset), b)
+	if err == io.ErrUnexpectedEOF {
+		err = io.EOF
 	}
-	f.seekPointer = offset
-	n, retErr := f.readNoLock(b)
-	f.seekPointer = save
-	return n, retErr
+	return n, err
 }
 
 func newRefCountedFile(file io.ReadSeeker) *refCountedFile {
@@ -274,9 +298,8 @@ func (rcf *refCountedFile) Unlock() {
 	rcf.lock.Unlock()
 }
 
+// dereference needs to be called with the lock held, and so does reference.
 func (rcf *refCountedFile) dereference() error {
-	rcf.lock.Lock()
-	defer rcf.lock.Unlock()
 	var err error
 	rcf.refCount--
 	switch {
@@ -322,14 +345,17 @@ func (r *unshuffleReader) Read(p []byte) (int, error) {
 	if thisLen > r.size {
 		thisLen = r.size
 	}
-	var err error
 	if r.b == nil {
-		r.b = make([]byte, r.size)
-		tot, err := readAll(r.r, r.b)
-		unshuffle(r.b[:tot], r.shuffleParam)
+		b := make([]byte, r.size)
+		_, err := io.ReadFull(r.r, b)
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		if err != nil {
-			assert(err == io.EOF, err.Error())
+			return 0, err
 		}
+		unshuffle(b, r.shuffleParam)
+		r.b = b
 	}
 	copy(p, r.b[:thisLen])
 	r.b = r.b[thisLen:]
@@ -337,7 +363,131 @@ func (r *unshuffleReader) Read(p []byte) (int, error) {
 	if r.size == 0 {
 		return int(thisLen), io.EOF
 	}
-	return int(thisLen), err
+	return int(thisLen), nil
+}
+
+// exactReader reads exactly so many bytes: the end of the file is an error before that.
+type exactReader struct {
+	r   io.Reader
+	rem uint64
+}
+
+func newExactReader(r io.Reader, size uint64) io.Reader {
+	return &exactReader{r, size}
+}
+
+func (r *exactReader) Read(p []byte) (int, error) {
+	if r.rem == 0 {
+		return 0, io.EOF
+	}
+	if uint64(len(p)) > r.rem {
+		p = p[:r.rem]
+	}
+	n, err := r.r.Read(p)
+	r.rem -= uint64(n)
+	if err == io.EOF {
+		err = nil
+		if r.rem > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+	}
+	return n, err
+}
+
+// filteredReader reads a part of a chunk that is stored with filters. The whole chunk is read,
+// when the first byte of the part is needed, so that its checksums can be verified.
+type filteredReader struct {
+	h5      *HDF5
+	filters []filter
+	block   dataBlock
+	skip    uint64 // where the part starts
+	size    uint64 // how long it is
+	b       []byte // what is left of the part
+	isRead  bool
+}
+
+func (r *filteredReader) Read(p []byte) (int, error) {
+	if !r.isRead {
+		r.b = r.h5.readFiltered(r.filters, &r.block)[r.skip : r.skip+r.size]
+		r.isRead = true
+	}
+	n := copy(p, r.b)
+	r.b = r.b[n:]
+	if n == 0 && len(p) > 0 {
+		return 0, io.EOF
+	}
+	return n, nil
+}
+
+// isFiltered returns true if any of the filters of the object was applied to the block.
+func isFiltered(obj *object, block *dataBlock) bool {
+	for i := range obj.filters {
+		if (1<<uint(i))&block.filterMask == 0 {
+			return true
+		}
+	}
+	return false
+}
+
+// readFiltered reads a chunk and undoes its filters, in the reverse order of their definition.
+func (h5 *HDF5) readFiltered(filters []filter, block *dataBlock) []byte {
+	// The size of the data before each filter was applied
+	sizes := make([]uint64, len(filters))
+	size := block.dsLength
+	for i := range filters {
+		sizes[i] = size
+		if filters[i].kind == filterFletcher32 && (1<<uint(i))&block.filterMask == 0 {
+			size += 4
+		}
+	}
+	b := readBytes(h5.newSeek(block.offset, int64(block.length)), block.length)
+	for i := len(filters) - 1; i >= 0; i-- {
+		if (1<<uint(i))&block.filterMask != 0 {
+			continue
+		}
+		r := newResetReaderFromBytes(b)
+		switch f := filters[i]; f.kind {
+		case filterFletcher32:
+			length := uint64(len(b))
+			assertError(length >= 4, ErrCorrupted, "no room for a checksum")
+			b = readBytes(fletcher32Reader(r, length), length-4)
+		case filterDeflate:
+			z, err := zlib.NewReader(r)
+			if err != nil {
+				failError(ErrUnknownCompression, fmt.Sprintf("unknown compression: %v", err))
+			}
+			b = readBytes(z, sizes[i])
+			// Its checksum is verified at the end
+			_, err = io.ReadFull(z, make([]byte, 1))
+			if err != io.EOF {
+				thrower.ThrowIfError(err)
+			}
+		case filterShuffle:
+			shuffleParam := uint32(0)
+			if len(f.cdv) > 0 {
+				shuffleParam = f.cdv[0]
+			}
+			assertError(shuffleParam > 0, ErrCorrupted, "no element size to shuffle by")
+			b = readBytes(newUnshuffleReader(r, uint64(len(b)), shuffleParam), uint64(len(b)))
+		}
+	}
+	assertError(uint64(len(b)) >= block.dsLength, ErrCorrupted, "chunk too short")
+	return b[:block.dsLength]
+}
+
+// readBytes reads exactly n bytes. It doesn't allocate much more than there is.
+func readBytes(r io.Reader, n uint64) []byte {
+	assertError(n <= math.MaxInt64, ErrCorrupted, "too many bytes")
+	var b bytes.Buffer
+	if n < 1<<20 {
+		b.Grow(int(n))
+	}
+	_, err := io.CopyN(&b, r, int64(n))
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	thrower.ThrowIfError(err)
+	return b.Bytes()
 }
 
 type layoutReader struct {
-- 
2.43.0


From 8ae772035b228141e820ca4fb9f67098cb26232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 38/63] fix: refuse corrupted CDF headers instead of panicking
 or allocating what they claim

---
 netcdf/cdf/cdf.go | 178 ++++++++++++++++++++++------------------------
 1 file changed, 87 insertions(+), 91 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 5c4b6e7..8cae55c 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"io"
 	"math"
+	"math/bits"
 	"os"
 	"reflect"
 	"sync"
@@ -185,21 +186,38 @@ func assert(condition bool, message string, err error) {
 	fail(message, err)
 }
 
-// Read up to nBytes
+// Read nBytes bytes. The memory used is bounded by what can be read, as the number may be nonsense.
 func readBytes(r io.Reader, nBytes uint64) []byte {
-	b := make([]byte, nBytes)
-	util.MustReadBE(r, b)
-	return b
+	assert(nBytes <= math.MaxInt64, "size too large", ErrCorruptedFile)
+	var b bytes.Buffer
+	n, err := io.CopyN(&b, r, int64(nBytes))
+	if err == io.EOF && n > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	thrower.ThrowIfError(err)
+	return b.Bytes()
 }
 
-func read8(r io.Reader) byte {
-	var data byte
-	util.MustReadBE(r, &data)
-	return data
+// Read n big-endian elements.
+func readElems[T any](r io.Reader, n uint64) []T {
+	var elem T
+	total, ok := multiply(n, uint64(binary.Size(elem)))
+	assert(ok, "size too large", ErrCorruptedFile)
+	raw := readBytes(r, total)
+	elems := make([]T, n)
+	_, err := binary.Decode(raw, binary.BigEndian, elems)
+	thrower.ThrowIfError(err)
+	return elems
+}
+
+// multiply returns the product of the two numbers, and whether it is a valid int64.
+func multiply(a, b uint64) (uint64, bool) {
+	hi, lo := bits.Mul64(a, b)
+	return lo, hi == 0 && lo <= math.MaxInt64
 }
 
-func read16(r io.Reader) uint16 {
-	var data uint16
+func read8(r io.Reader) byte {
+	var data byte
 	util.MustReadBE(r, &data)
 	return data
 }
@@ -242,86 +260,54 @@ func (cdf *CDF) getAttr(bf io.Reader) (string, any) {
 	switch vType {
 	case typeByte:
 		// byte becomes int8 in go-speak
-		b := make([]int8, nvars)
-		util.MustReadBE(bf, b)
-		values = b
+		values = readElems[int8](bf, nvars)
 		nread += nvars
 
 	case typeChar:
 		// char array becomes string in go-speak
-		b := make([]byte, nvars)
-		util.MustReadBE(bf, b)
-		values = string(b)
+		values = string(readBytes(bf, nvars))
 		nread += nvars
 
 	case typeShort:
-		sv := make([]int16, nvars)
-		util.MustReadBE(bf, sv)
-		values = sv
+		values = readElems[int16](bf, nvars)
 		nread += 2 * nvars
 
 	case typeInt:
-		i32v := make([]int32, nvars)
-		util.MustReadBE(bf, i32v)
-		values = i32v
+		values = readElems[int32](bf, nvars)
 		nread += 4 * nvars
 
 	case typeFloat:
-		fv := make([]float32, nvars)
-		util.MustReadBE(bf, fv)
-		values = fv
+		values = readElems[float32](bf, nvars)
 		nread += 4 * nvars
 
 	case typeDouble:
-		dv := make([]float64, nvars)
-		util.MustReadBE(bf, dv)
-		values = dv
+		values = readElems[float64](bf, nvars)
 		nread += 8 * nvars
 
 	case typeUByte:
 		cdf.checkVersion(5)
 		// unsigned byte becomes uint8 in go-speak
-		b := make([]uint8, nvars)
-		for i := range b {
-			b[i] = uint8(read8(bf))
-		}
-		values = b
+		values = readElems[uint8](bf, nvars)
 		nread += nvars
 
 	case typeUShort:
 		cdf.checkVersion(5)
-		sv := make([]uint16, nvars)
-		for i := range sv {
-			sv[i] = read16(bf)
-		}
-		values = sv
+		values = readElems[uint16](bf, nvars)
 		nread += 2 * nvars
 
 	case typeUInt:
 		cdf.checkVersion(5)
-		i32v := make([]uint32, nvars)
-		for i := range i32v {
-			i32v[i] = read32(bf)
-		}
-		values = i32v
+		values = readElems[uint32](bf, nvars)
 		nread += 4 * nvars
 
 	case typeInt64:
 		cdf.checkVersion(5)
-		i64v := make([]int64, nvars)
-		for i := range i64v {
-			i64v[i] = int64(read64(bf))
-		}
-		values = i64v
+		values = readElems[int64](bf, nvars)
 		nread += 8 * nvars
 
 	case typeUInt64:
 		cdf.checkVersion(5)
-		i64v := make([]uint64, nvars)
-		for i := range i64v {
-			i64v[i] = read64(bf)
-		}
-		values = i64v
+		values = readElems[uint64](bf, nvars)
 		nread += 8 * nvars
 
 	default:
@@ -376,6 +362,7 @@ func (cdf *CDF) getAttrList(bf io.Reader) *util.OrderedMap {
 
 func (cdf *CDF) readName(bf io.Reader) string {
 	nameLen := cdf.readNumber(bf)
+	assert(nameLen <= math.MaxInt64, "name too long", ErrCorruptedFile)
 	b := readBytes(bf, roundInt32(nameLen))
 	for i := uint64(0); i < nameLen; i++ {
 		if b[i] == 0 {
@@ -407,6 +394,9 @@ func (cdf *CDF) getVar(bf io.Reader) variable {
 	for i := uint64(0); i < nDims; i++ {
 		// dimid
 		dimids[i] = cdf.readNumber(bf)
+		assert(dimids[i] < uint64(len(cdf.dimensions)),
+			fmt.Sprint(name, " dimid: ", dimids[i], " not found"),
+			ErrCorruptedFile)
 	}
 	attrs := cdf.getAttrList(bf)
 	vType := read32(bf)
@@ -415,25 +405,18 @@ func (cdf *CDF) getVar(bf io.Reader) variable {
 	// if unlimited, add vsize to current record size
 	if nDims > 0 && cdf.hasUnlimitedDimension(dimids) {
 		n := uint64(1)
+		ok := true
 		for i := 1; i < len(dimids); i++ {
-			n *= cdf.dimensions[dimids[i]].dimLength
+			n, ok = multiply(n, cdf.dimensions[dimids[i]].dimLength)
+			assert(ok, "variable too large", ErrCorruptedFile)
 		}
 		// Calculate the vsize actually used, without padding, which is
 		// different than the vsize.  This matters when there is just one
 		// record variable and it is small (special case).
-		switch vType {
-		case typeByte, typeUByte, typeChar:
-			break
-		case typeShort, typeUShort:
-			n *= 2
-		case typeInt, typeUInt, typeFloat:
-			n *= 4
-		case typeDouble, typeInt64, typeUInt64:
-			n *= 8
-		default:
-			thrower.Throw(ErrUnknownType)
-		}
+		n, ok = multiply(n, uint64(typeSize(vType)))
+		assert(ok, "variable too large", ErrCorruptedFile)
 		cdf.recSize += roundInt32(n)
+		assert(cdf.recSize <= math.MaxInt64, "records too large", ErrCorruptedFile)
 		usedVsize = n
 	}
 	var offset uint64
@@ -448,6 +431,22 @@ func (cdf *CDF) getVar(bf io.Reader) variable {
 	return variable{name, dimids, attrs, vType, int64(usedVsize), offset}
 }
 
+// typeSize returns the size of an element of the type.
+func typeSize(vType uint32) int64 {
+	switch vType {
+	case typeByte, typeUByte, typeChar:
+		return 1
+	case typeShort, typeUShort:
+		return 2
+	case typeInt, typeUInt, typeFloat:
+		return 4
+	case typeDouble, typeInt64, typeUInt64:
+		return 8
+	}
+	thrower.Throw(ErrUnknownType)
+	panic("never gets here")
+}
+
 func (cdf *CDF) readNumber(bf io.Reader) uint64 {
 	if cdf.version < 5 {
 		n := read32(bf)
@@ -616,7 +615,9 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 	dimLengths := make([]uint64, len(varFound.dimids))
 	dimNames := make([]string, len(varFound.dimids))
 
+	elemSize := typeSize(varFound.vType)
 	totalSize := int64(1)
+	totalBytes := uint64(elemSize)
 	unlimited := false
 	for i := range dimLengths {
 		dimid := varFound.dimids[i]
@@ -635,8 +636,17 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 			dimLengths[i] = cdf.numRecs
 		}
 		dimNames[i] = dim.name
+		var ok bool
+		totalBytes, ok = multiply(totalBytes, dimLengths[i])
+		assert(ok && dimLengths[i] <= math.MaxInt64, "variable too large", ErrCorruptedFile)
 		totalSize *= int64(dimLengths[i])
 	}
+	if unlimited {
+		var ok bool
+		totalBytes, ok = multiply(cdf.numRecs, cdf.recSize)
+		assert(ok, "records too large", ErrCorruptedFile)
+	}
+	assert(varFound.begin <= math.MaxInt64-totalBytes, "variable too large", ErrCorruptedFile)
 	var chunkSize int64
 	length := int64(0)
 	switch {
@@ -669,23 +679,7 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 		default:
 			nChunks = int64(end - begin)
 		}
-		sliceSize := int64(1)
-		elemSize := int64(1)
-
-		sliceSize = nChunks * chunkSize
-		switch varFound.vType {
-		case typeDouble, typeInt64, typeUInt64:
-			elemSize = 8
-		case typeInt, typeFloat, typeUInt:
-			elemSize = 4
-		case typeShort, typeUShort:
-			elemSize = 2
-		case typeChar, typeByte, typeUByte:
-			elemSize = 1
-		default:
-			thrower.Throw(ErrInternal)
-		}
-
+		sliceSize := nChunks * chunkSize
 		raw := make([]byte, sliceSize*elemSize)
 		if unlimited && !cdf.specialCase {
 			// one record at a time
@@ -1182,6 +1176,12 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 			}
 			userFV = val.Index(0).Interface()
 		}
+		if b, isByte := userFV.(byte); isByte && v.vType == typeChar {
+			userFV = string([]byte{b})
+		}
+		if reflect.TypeOf(userFV).String() != goType(v.vType) {
+			thrower.Throw(ErrFillValue)
+		}
 	}
 	var fillValue []byte
 	switch v.vType {
@@ -1279,15 +1279,11 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 	case typeChar:
 		var fv byte
 		if hasUserFV {
-			switch c := userFV.(type) {
-			case string: // how character attributes are read
-				if len(c) != 1 {
-					thrower.Throw(ErrFillValue)
-				}
-				fv = c[0]
-			default:
-				fv = userFV.(byte)
+			c := userFV.(string) // how character attributes are read
+			if len(c) != 1 {
+				thrower.Throw(ErrFillValue)
 			}
+			fv = c[0]
 		} else {
 			fv = byte(internal.FillChar)
 		}
-- 
2.43.0


From 2eea7d35890f98028c4a81d280ac823f159491dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 39/63] fix: read compounds whose fields are not in the order
 of their offsets, and types with more than 255 members

---
 netcdf/hdf5/array.go    |  2 ++
 netcdf/hdf5/compound.go | 35 +++++++++--------------------------
 netcdf/hdf5/enum.go     |  3 ++-
 netcdf/hdf5/readers.go  | 16 ++++++++++++++++
 4 files changed, 29 insertions(+), 27 deletions(-)

diff --git a/netcdf/hdf5/array.go b/netcdf/hdf5/array.go
index d77ab50..e7c2ba9 100644
--- a/netcdf/hdf5/array.go
+++ b/netcdf/hdf5/array.go
@@ -83,6 +83,8 @@ func (arrayManagerType) parse(hr heapReader, c caster, attr *attribute, bitField
 	}
 	var arrayAttr attribute
 	printDatatype(hr, c, bf, nil, 0, &arrayAttr)
+	size, ok := arraySize(dimensions, uint64(arrayAttr.length))
+	assertError(ok && size == uint64(attr.length), ErrCorrupted, "bad array size")
 	arrayAttr.dimensions = dimensions
 	attr.children = append(attr.children, &arrayAttr)
 	if df != nil && df.Rem() > 0 {
diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index 02ac2a4..3b1a88f 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -68,7 +68,7 @@ func (compoundManagerType) parse(hr heapReader, c caster, attr *attribute, bitFi
 	logger.Info("attr.dtversion", attr.dtversion)
 	assert(attr.dtversion >= 1 && attr.dtversion <= maxDTVersion,
 		fmt.Sprintln("compound datatype version", attr.dtversion, "not supported"))
-	nmembers := bitFields & 0b11111111
+	nmembers := bitFields & 0xffff
 	logger.Info("* number of members:", nmembers)
 
 	padding := 7
@@ -119,6 +119,7 @@ func (compoundManagerType) parse(hr heapReader, c caster, attr *attribute, bitFi
 			}
 			reserved := read32(bf)
 			checkVal(0, reserved, "reserved dt")
+			assertError(dimensionality <= 4, ErrCorrupted, "too many dimensions in compound")
 			compoundAttribute.dimensions = make([]uint64, 4)
 			for i := range 4 {
 				dsize := read32(bf)
@@ -132,6 +133,9 @@ func (compoundManagerType) parse(hr heapReader, c caster, attr *attribute, bitFi
 		printDatatype(hr, c, bf, nil, 0, &compoundAttribute)
 		logger.Infof("%d compound after: len(prop) = %d len(data) = %d", i, bf.Rem(), rem)
 		logger.Infof("%d compound dtlength", compoundAttribute.length)
+		size, ok := arraySize(compoundAttribute.dimensions, uint64(compoundAttribute.length))
+		assertError(ok && uint64(byteOffset)+size <= uint64(attr.length), ErrCorrupted,
+			"field outside of compound")
 		attr.children = append(attr.children, &compoundAttribute)
 	}
 	logger.Info("Compound length is", attr.length)
@@ -157,36 +161,15 @@ func allocCompounds(hr heapReader, cstr caster, bf io.Reader, dimLengths []uint6
 	logger.Info(bf.(remReader).Count(), "Alloc compounds", dimLengths, class,
 		"length=", length,
 		"nchildren=", len(attr.children), "rem=", bf.(remReader).Rem())
-	dtlen := uint64(0)
-	for i := range attr.children {
-		clen := uint64(calcAttrSize(attr.children[i]))
-		dtlen += clen
-	}
 	if len(dimLengths) == 0 {
-		rem := bf.(remReader).Rem()
-		if length > rem {
-			logger.Warn("not enough room", length, rem)
-		} else {
-			rem = length
-		}
-		cbf := newResetReader(bf, rem)
+		// The fields can be in any order
+		raw := readBytes(bf, uint64(length))
 		varray := make([]compoundField, len(attr.children))
 		for i, c := range attr.children {
-			byteOffset := c.byteOffset
-			clen := uint64(calcAttrSize(c))
-			if int64(byteOffset) > cbf.Count() {
-				skipLen := int64(byteOffset) - cbf.Count()
-				logger.Info("skip to offset", skipLen)
-				skip(cbf, int64(skipLen))
-			}
-			ccbf := newResetReader(cbf, int64(clen))
-			varray[i].Val = getDataAttr(hr, cstr, ccbf, *c)
+			field := raw[c.byteOffset:][:calcAttrSize(c)]
+			varray[i].Val = getDataAttr(hr, cstr, newResetReaderFromBytes(field), *c)
 			varray[i].Name = c.name
 		}
-		if cbf.Count() < length {
-			rem := length - cbf.Count()
-			skip(cbf, int64(rem))
-		}
 		if cast != nil {
 			fields := make([]reflect.StructField, len(attr.children))
 			for i := range fields {
diff --git a/netcdf/hdf5/enum.go b/netcdf/hdf5/enum.go
index 029142d..8c791ad 100644
--- a/netcdf/hdf5/enum.go
+++ b/netcdf/hdf5/enum.go
@@ -114,7 +114,7 @@ func (enumManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields
 	var enumAttr attribute
 	printDatatype(hr, c, bf, nil, 0, &enumAttr)
 	logger.Info("blen now", bf.Count())
-	numberOfMembers := bitFields & 0b11111111
+	numberOfMembers := bitFields & 0xffff
 	logger.Info("number of members=", numberOfMembers)
 	names := make([]string, numberOfMembers)
 	padding := 7
@@ -144,6 +144,7 @@ func (enumManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields
 	default:
 		thrower.Throw(ErrFixedPoint)
 	}
+	assertError(attr.length == enumAttr.length, ErrCorrupted, "sizes of enum and its base differ")
 	values := make([]any, numberOfMembers)
 	enumAttr.enumValues = values
 	for i := uint32(0); i < numberOfMembers; i++ {
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 4647edb..9584b24 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"io"
 	"math"
+	"math/bits"
 	"os"
 	"sync"
 
@@ -525,6 +526,21 @@ func calcAttrSize(attr *attribute) uint64 {
 	return totalChunks * chunkSize * dtLength
 }
 
+// arraySize returns the size in bytes of an array of elements of the given size, and whether it
+// is a valid one. Arrays that are empty because of a dimension also have a limit.
+func arraySize(dimensions []uint64, elemSize uint64) (uint64, bool) {
+	size, limited := elemSize, elemSize
+	for _, d := range dimensions {
+		hi, lo := bits.Mul64(limited, max(d, 1))
+		if hi != 0 || lo > math.MaxInt64 {
+			return 0, false
+		}
+		limited = lo
+		size *= d
+	}
+	return size, true
+}
+
 // calcDataSize computes the size of the data, not counting chunks.
 func calcDataSize(attr *attribute) uint64 {
 	dataSize := uint64(1)
-- 
2.43.0


From 93b4c1f132f6def849ae9fb07f4a78096fa4d970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 40/63] fix: find the names of user-defined types by comparing
 types, not by describing every type inside every other

---
 netcdf/hdf5/array.go         |   8 +--
 netcdf/hdf5/compound.go      |  22 +++----
 netcdf/hdf5/enum.go          |  22 +++----
 netcdf/hdf5/fixedPoint.go    |   4 +-
 netcdf/hdf5/floatingPoint.go |   4 +-
 netcdf/hdf5/hdf5.go          | 123 ++++++++++++++++++++---------------
 netcdf/hdf5/opaque.go        |  14 ++--
 netcdf/hdf5/reference.go     |   4 +-
 netcdf/hdf5/string.go        |   4 +-
 netcdf/hdf5/types.go         |  23 +++----
 netcdf/hdf5/vlen.go          |  22 +++----
 11 files changed, 130 insertions(+), 120 deletions(-)

diff --git a/netcdf/hdf5/array.go b/netcdf/hdf5/array.go
index e7c2ba9..e68571a 100644
--- a/netcdf/hdf5/array.go
+++ b/netcdf/hdf5/array.go
@@ -13,9 +13,9 @@ var (
 	_            typeManager = arrayManager
 )
 
-func (arrayManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
+func (arrayManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute) string {
 	arrayAttr := attr.children[0]
-	ty := cdlTypeString(arrayAttr.class, sh, name, arrayAttr, origNames)
+	ty := cdlTypeString(arrayAttr.class, sh, name, arrayAttr)
 	assert(ty != "", "unable to parse array attr")
 	dStr := make([]string, len(arrayAttr.dimensions))
 	for i, d := range arrayAttr.dimensions {
@@ -26,9 +26,9 @@ func (arrayManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute
 	return fmt.Sprintf("%s(%s)", ty, dims)
 }
 
-func (arrayManagerType) goTypeString(sh sigHelper, typeName string, attr *attribute, origNames map[string]bool) string {
+func (arrayManagerType) goTypeString(sh sigHelper, typeName string, attr *attribute) string {
 	arrayAttr := attr.children[0]
-	ty := goTypeString(arrayAttr.class, sh, typeName, arrayAttr, origNames)
+	ty := goTypeString(arrayAttr.class, sh, typeName, arrayAttr)
 	assert(ty != "", "unable to parse array attr")
 	dStr := make([]string, len(arrayAttr.dimensions))
 	for i, d := range arrayAttr.dimensions {
diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index 3b1a88f..eade502 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -22,33 +22,31 @@ var (
 	_               typeManager = compoundManager
 )
 
-func (compoundManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
+func (compoundManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute) string {
+	if namedType := sh.findTypeName(attr); namedType != "" {
+		return namedType
+	}
 	members := make([]string, len(attr.children))
 	for i, cattr := range attr.children {
-		ty := cdlTypeString(cattr.class, sh, name, cattr, origNames)
+		ty := cdlTypeString(cattr.class, sh, name, cattr)
 		members[i] = fmt.Sprintf("\t%s %s;\n", ty, cattr.name)
 	}
 	interior := strings.Join(members, "")
 	signature := fmt.Sprintf("compound {\n%s}", interior)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
-	if namedType != "" {
-		return namedType
-	}
 	return signature
 }
 
-func (compoundManagerType) goTypeString(sh sigHelper, typeName string, attr *attribute, origNames map[string]bool) string {
+func (compoundManagerType) goTypeString(sh sigHelper, typeName string, attr *attribute) string {
+	if namedType := sh.findTypeName(attr); namedType != "" {
+		return namedType
+	}
 	members := make([]string, len(attr.children))
 	for i, cattr := range attr.children {
-		ty := goTypeString(cattr.class, sh, typeName, cattr, origNames)
+		ty := goTypeString(cattr.class, sh, typeName, cattr)
 		members[i] = fmt.Sprintf("\t%s %s", cattr.name, ty)
 	}
 	interior := strings.Join(members, "\n")
 	signature := fmt.Sprintf("struct {\n%s\n}\n", interior)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
-	if namedType != "" {
-		return namedType
-	}
 	return signature
 }
 
diff --git a/netcdf/hdf5/enum.go b/netcdf/hdf5/enum.go
index 8c791ad..1c0aebc 100644
--- a/netcdf/hdf5/enum.go
+++ b/netcdf/hdf5/enum.go
@@ -21,11 +21,14 @@ var (
 	_           typeManager = enumManager
 )
 
-func (enumManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
+func (enumManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute) string {
+	if namedType := sh.findTypeName(attr); namedType != "" {
+		return namedType
+	}
 	assert(len(attr.children) == 1, "enum should have one child")
 	enumAttr := attr.children[0]
 	assert(len(enumAttr.children) == 0, "no recursion")
-	ty := cdlTypeString(enumAttr.class, sh, name, enumAttr, origNames)
+	ty := cdlTypeString(enumAttr.class, sh, name, enumAttr)
 	assert(ty != "", "unable to parse enum attr")
 	list := make([]string, len(enumAttr.enumNames))
 	for i, name := range enumAttr.enumNames {
@@ -33,18 +36,17 @@ func (enumManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute,
 	}
 	interior := strings.Join(list, ",\n")
 	signature := fmt.Sprintf("%s enum {\n%s\n}", ty, interior)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
-	if namedType != "" {
-		return namedType
-	}
 	return signature
 }
 
-func (enumManagerType) goTypeString(sh sigHelper, typeName string, attr *attribute, origNames map[string]bool) string {
+func (enumManagerType) goTypeString(sh sigHelper, typeName string, attr *attribute) string {
+	if namedType := sh.findTypeName(attr); namedType != "" {
+		return namedType
+	}
 	assert(len(attr.children) == 1, "enum should have one child")
 	enumAttr := attr.children[0]
 	assert(len(enumAttr.children) == 0, "no recursion")
-	ty := goTypeString(enumAttr.class, sh, typeName, enumAttr, origNames)
+	ty := goTypeString(enumAttr.class, sh, typeName, enumAttr)
 	assert(ty != "", "unable to parse enum attr")
 	list := make([]string, len(enumAttr.enumNames))
 	for i, enumName := range enumAttr.enumNames {
@@ -56,10 +58,6 @@ func (enumManagerType) goTypeString(sh sigHelper, typeName string, attr *attribu
 	}
 	interior := strings.Join(list, "\n")
 	signature := fmt.Sprintf("%s\nconst (\n%s\n)\n", ty, interior)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
-	if namedType != "" {
-		return namedType
-	}
 	return signature
 }
 
diff --git a/netcdf/hdf5/fixedPoint.go b/netcdf/hdf5/fixedPoint.go
index 97a4c4f..685c2ba 100644
--- a/netcdf/hdf5/fixedPoint.go
+++ b/netcdf/hdf5/fixedPoint.go
@@ -19,7 +19,7 @@ var (
 	_                 typeManager = fixedPointManager
 )
 
-func (fixedPointManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
+func (fixedPointManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute) string {
 	prefix := ""
 	if !attr.signed {
 		prefix = "u"
@@ -38,7 +38,7 @@ func (fixedPointManagerType) cdlTypeString(sh sigHelper, name string, attr *attr
 	}
 }
 
-func (fixedPointManagerType) goTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
+func (fixedPointManagerType) goTypeString(sh sigHelper, name string, attr *attribute) string {
 	prefix := ""
 	if !attr.signed {
 		prefix = "u"
diff --git a/netcdf/hdf5/floatingPoint.go b/netcdf/hdf5/floatingPoint.go
index 499b826..035b79c 100644
--- a/netcdf/hdf5/floatingPoint.go
+++ b/netcdf/hdf5/floatingPoint.go
@@ -19,7 +19,7 @@ var (
 	_                    typeManager = floatingPointManager
 )
 
-func (floatingPointManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
+func (floatingPointManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute) string {
 	switch attr.length {
 	case 4:
 		return "float"
@@ -30,7 +30,7 @@ func (floatingPointManagerType) cdlTypeString(sh sigHelper, name string, attr *a
 	}
 }
 
-func (floatingPointManagerType) goTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
+func (floatingPointManagerType) goTypeString(sh sigHelper, name string, attr *attribute) string {
 	switch attr.length {
 	case 4:
 		return "float32"
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 379a85b..0d04137 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -9,6 +9,7 @@ import (
 	"math"
 	"os"
 	"reflect"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -79,6 +80,7 @@ const (
 	typeReference
 	typeEnumerated
 	typeVariableLength
+	typeArray
 )
 
 // data type names
@@ -2701,11 +2703,8 @@ func getDataAttr(hr heapReader, c caster, bf io.Reader, attr attribute) any {
 
 func (h5 *HDF5) cast(attr attribute) reflect.Type {
 	varName := "junk"
-	origNames := map[string]bool{varName: true}
-	for name := range h5.registrations {
-		origNames[name] = true
-	}
-	ty := goTypeString(attr.class, h5, varName, &attr, origNames)
+	namer := typeNamer{h5: h5, defined: &attr, exclude: h5.registrations}
+	ty := goTypeString(attr.class, namer, varName, &attr)
 	assert(ty != "", "did not calculate go type")
 	has := false
 	var proto any
@@ -2748,9 +2747,8 @@ loop:
 				tailType := s[len(s)-1]
 				obj, has := h5.getTypeObj(tailType)
 				assert(has, fmt.Sprint("couldn't find ", tailType))
-				origNames := map[string]bool{}
-				origNames[tailType] = true
-				elemType = goTypeString(obj.objAttr.class, h5, tailType, obj.objAttr, origNames)
+				def := typeNamer{h5: h5, defined: obj.objAttr}
+				elemType = goTypeString(obj.objAttr.class, def, tailType, obj.objAttr)
 			}
 			sig := fmt.Sprintf("[]%s", elemType)
 			if sig == ty {
@@ -2771,9 +2769,8 @@ loop:
 					tailType := s[len(s)-1]
 					obj, has := h5.getTypeObj(tailType)
 					assert(has, fmt.Sprint("couldn't find ", tailType))
-					origNames := map[string]bool{}
-					origNames[tailType] = true
-					fType = goTypeString(obj.objAttr.class, h5, tailType, obj.objAttr, origNames)
+					def := typeNamer{h5: h5, defined: obj.objAttr}
+					fType = goTypeString(obj.objAttr.class, def, tailType, obj.objAttr)
 				}
 				fields = append(fields, fmt.Sprintf("\t%s %s", field.Name, fType))
 			}
@@ -2861,8 +2858,7 @@ func (h5 *HDF5) findAttrType(attrs []*attribute, attrName string) string {
 		if attr.name != attrName {
 			continue
 		}
-		origNames := map[string]bool{}
-		base := cdlTypeString(attr.class, h5, attrName, attr, origNames)
+		base := cdlTypeString(attr.class, h5, attrName, attr)
 		dims := ""
 		if len(attr.dimensions) == 1 && attr.dimensions[0] == 1 {
 		} else {
@@ -2880,8 +2876,7 @@ func (h5 *HDF5) findAttrGoType(attrs []*attribute, attrName string) string {
 		if attr.name != attrName {
 			continue
 		}
-		origNames := map[string]bool{}
-		base := goTypeString(attr.class, h5, attrName, attr, origNames)
+		base := goTypeString(attr.class, h5, attrName, attr)
 		dims := ""
 		if len(attr.dimensions) == 1 && attr.dimensions[0] == 1 {
 		} else {
@@ -2899,8 +2894,7 @@ func (h5 *HDF5) findType(varName string) string {
 	if obj == nil {
 		return ""
 	}
-	origNames := map[string]bool{varName: true}
-	return cdlTypeString(obj.objAttr.class, h5, varName, obj.objAttr, origNames)
+	return cdlTypeString(obj.objAttr.class, h5, varName, obj.objAttr)
 }
 
 func (h5 *HDF5) getTypeObj(typeName string) (*object, bool) {
@@ -2927,8 +2921,8 @@ func (h5 *HDF5) GetType(typeName string) (string, bool) {
 	if !has {
 		return "", false
 	}
-	origNames := map[string]bool{typeName: true}
-	sig := cdlTypeString(obj.objAttr.class, h5, typeName, obj.objAttr, origNames)
+	def := typeNamer{h5: h5, defined: obj.objAttr}
+	sig := cdlTypeString(obj.objAttr.class, def, typeName, obj.objAttr)
 	return sig, true
 }
 
@@ -2951,8 +2945,8 @@ func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
 		logger.Info("this is a group")
 		return "", false
 	}
-	origNames := map[string]bool{typeName: true}
-	sig := goTypeString(obj.objAttr.class, h5, typeName, obj.objAttr, origNames)
+	def := typeNamer{h5: h5, defined: obj.objAttr}
+	sig := goTypeString(obj.objAttr.class, def, typeName, obj.objAttr)
 	return fmt.Sprintf("type %s %s", typeName, sig), true
 }
 
@@ -2960,17 +2954,9 @@ func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
 func (h5 *HDF5) ListTypes() []string {
 	var ret []string
 	for _, obj := range h5.groupObject.sortChildren() {
-		if obj.isGroup {
-			continue
-		}
-		if classifyObject(obj.attrlist).isDimensionScale() {
-			continue
-		}
-		if obj.objAttr.dimensions != nil {
-			// this is a variable
-			continue
+		if isType(obj) {
+			ret = append(ret, obj.name)
 		}
-		ret = append(ret, obj.name)
 	}
 	return ret
 }
@@ -3006,32 +2992,69 @@ func (h5 *HDF5) GetDimension(name string) (uint64, bool) {
 	return 0, false
 }
 
-func (h5 *HDF5) findSignature(signature string, name string, origNames map[string]bool, printer printerType) string {
-	if h5.groupObject == nil {
+func (h5 *HDF5) findTypeName(attr *attribute) string {
+	return typeNamer{h5: h5}.findTypeName(attr)
+}
+
+// typeNamer finds the names of user-defined types, other than the one being defined and those
+// in the map.
+type typeNamer struct {
+	h5      *HDF5
+	defined *attribute
+	exclude map[string]any
+}
+
+func (tn typeNamer) findTypeName(attr *attribute) string {
+	if attr == tn.defined || tn.h5.groupObject == nil {
 		return ""
 	}
-	for _, obj := range h5.groupObject.sortChildren() {
-		varName := obj.name
-		if obj.isGroup || origNames[varName] {
+	for _, obj := range tn.h5.groupObject.sortChildren() {
+		if _, has := tn.exclude[obj.name]; has {
 			continue
 		}
-		if classifyObject(obj.attrlist).isDimensionScale() {
-			continue
-		}
-		if obj.objAttr.dimensions != nil {
-			// this is a variable
-			continue
-		}
-		origNames[varName] = true
-		sig := printer(obj.objAttr.class, h5, name, obj.objAttr, origNames)
-		origNames[varName] = false
-		if sig != "" && sig == signature {
+		if isType(obj) && sameType(obj.objAttr, attr) {
 			return obj.name
 		}
 	}
 	return ""
 }
 
+// isType returns true if the object is a user-defined type.
+func isType(obj *object) bool {
+	if obj.isGroup || obj.objAttr.length == 0 {
+		return false
+	}
+	if classifyObject(obj.attrlist).isDimensionScale() {
+		return false
+	}
+	return obj.objAttr.dimensions == nil // else it is a variable
+}
+
+// sameType returns true if the types of the two attributes are described in the same way.
+func sameType(a, b *attribute) bool {
+	if a.class != b.class || a.vtType != b.vtType || a.signed != b.signed ||
+		len(a.children) != len(b.children) {
+		return false
+	}
+	switch a.class {
+	case typeVariableLength, typeCompound, typeArray: // their parts are compared
+	default:
+		if a.length != b.length {
+			return false
+		}
+	}
+	if !slices.Equal(a.enumNames, b.enumNames) || !slices.Equal(a.enumValues, b.enumValues) {
+		return false
+	}
+	for i := range a.children {
+		ac, bc := a.children[i], b.children[i]
+		if ac.name != bc.name || !slices.Equal(ac.dimensions, bc.dimensions) || !sameType(ac, bc) {
+			return false
+		}
+	}
+	return true
+}
+
 // noCaster is for attributes that have nothing to do with registered types.
 type noCaster struct{}
 
@@ -3276,10 +3299,8 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		shape[i] = int64(v)
 	}
 	attrs := h5.getAttributes(found.attrlist)
-	origNames := map[string]bool{varName: true}
-	ty := cdlTypeString(found.objAttr.class, h5, varName, found.objAttr, origNames)
-	origNames = map[string]bool{varName: true}
-	goTy := goTypeString(found.objAttr.class, h5, varName, found.objAttr, origNames)
+	ty := cdlTypeString(found.objAttr.class, h5, varName, found.objAttr)
+	goTy := goTypeString(found.objAttr.class, h5, varName, found.objAttr)
 	return internal.NewSlicer(getSlice, getSliceMD, d, shape, dims, attrs, ty, goTy), nil
 }
 
diff --git a/netcdf/hdf5/opaque.go b/netcdf/hdf5/opaque.go
index 1ae46e4..bd55596 100644
--- a/netcdf/hdf5/opaque.go
+++ b/netcdf/hdf5/opaque.go
@@ -15,21 +15,19 @@ var (
 	_             typeManager = opaqueManager
 )
 
-func (opaqueManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
-	signature := fmt.Sprintf("opaque(%d)", attr.length)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
-	if namedType != "" {
+func (opaqueManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute) string {
+	if namedType := sh.findTypeName(attr); namedType != "" {
 		return namedType
 	}
+	signature := fmt.Sprintf("opaque(%d)", attr.length)
 	return signature
 }
 
-func (opaqueManagerType) goTypeString(sh sigHelper, typeName string, attr *attribute, origNames map[string]bool) string {
-	signature := fmt.Sprintf("[%d]uint8", attr.length)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
-	if namedType != "" {
+func (opaqueManagerType) goTypeString(sh sigHelper, typeName string, attr *attribute) string {
+	if namedType := sh.findTypeName(attr); namedType != "" {
 		return namedType
 	}
+	signature := fmt.Sprintf("[%d]uint8", attr.length)
 	return signature
 }
 
diff --git a/netcdf/hdf5/reference.go b/netcdf/hdf5/reference.go
index 61a323d..49a5194 100644
--- a/netcdf/hdf5/reference.go
+++ b/netcdf/hdf5/reference.go
@@ -16,12 +16,12 @@ var (
 	_                typeManager = referenceManager
 )
 
-func (referenceManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
+func (referenceManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute) string {
 	// Not NetCDF
 	return "uint64" // reference same as uint64
 }
 
-func (referenceManagerType) goTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
+func (referenceManagerType) goTypeString(sh sigHelper, name string, attr *attribute) string {
 	// Not NetCDF
 	return "uint64" // reference same as uint64
 }
diff --git a/netcdf/hdf5/string.go b/netcdf/hdf5/string.go
index 13ba2a6..42dc7b2 100644
--- a/netcdf/hdf5/string.go
+++ b/netcdf/hdf5/string.go
@@ -12,11 +12,11 @@ var (
 	_             typeManager = stringManager
 )
 
-func (stringManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
+func (stringManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute) string {
 	return "string"
 }
 
-func (stringManagerType) goTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
+func (stringManagerType) goTypeString(sh sigHelper, name string, attr *attribute) string {
 	return "string"
 }
 
diff --git a/netcdf/hdf5/types.go b/netcdf/hdf5/types.go
index e1e8734..82be5db 100644
--- a/netcdf/hdf5/types.go
+++ b/netcdf/hdf5/types.go
@@ -14,8 +14,8 @@ type typeManager interface {
 	parse(hr heapReader, c caster, attr *attribute, bitFields uint32, f remReader, d remReader)
 	defaultFillValue(obj *object, objFillValue []byte, undefinedFillValue bool) []byte
 	alloc(hr heapReader, c caster, r io.Reader, attr *attribute, dimensions []uint64) any
-	cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string
-	goTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string
+	cdlTypeString(sh sigHelper, name string, attr *attribute) string
+	goTypeString(sh sigHelper, name string, attr *attribute) string
 }
 
 type heapReader interface {
@@ -27,13 +27,10 @@ type caster interface {
 }
 
 type sigHelper interface {
-	findSignature(signature string, name string, origNames map[string]bool,
-		printer printerType) string
+	// findTypeName returns the name of the user-defined type that is the same as this one, or "".
+	findTypeName(attr *attribute) string
 }
 
-type printerType func(class uint8, helper sigHelper, name string, attr *attribute,
-	origNames map[string]bool) string
-
 var (
 	warnOnce sync.Once
 	dispatch = []typeManager{
@@ -79,10 +76,10 @@ func (unsupportedManager) defaultFillValue(obj *object, objFillValue []byte, und
 func (unsupportedManager) alloc(hr heapReader, c caster, r io.Reader, attr *attribute, dimensions []uint64) any {
 	return nil
 }
-func (unsupportedManager) cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
+func (unsupportedManager) cdlTypeString(sh sigHelper, name string, attr *attribute) string {
 	return ""
 }
-func (unsupportedManager) goTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
+func (unsupportedManager) goTypeString(sh sigHelper, name string, attr *attribute) string {
 	return ""
 }
 
@@ -107,12 +104,12 @@ func alloc(class uint8, hr heapReader, c caster, r io.Reader, attr *attribute, d
 	return getDispatch(class).alloc(hr, c, r, attr, dimensions)
 }
 
-func cdlTypeString(class uint8, sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
-	return getDispatch(class).cdlTypeString(sh, name, attr, origNames)
+func cdlTypeString(class uint8, sh sigHelper, name string, attr *attribute) string {
+	return getDispatch(class).cdlTypeString(sh, name, attr)
 }
 
-func goTypeString(class uint8, sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
-	return getDispatch(class).goTypeString(sh, name, attr, origNames)
+func goTypeString(class uint8, sh sigHelper, name string, attr *attribute) string {
+	return getDispatch(class).goTypeString(sh, name, attr)
 }
 
 func printDatatype(hr heapReader, c caster, bf remReader, df remReader, objCount int64, attr *attribute) {
diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index 1442a0a..d7537d0 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -15,35 +15,33 @@ var (
 	_           typeManager = vlenManager
 )
 
-func (vlenManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
+func (vlenManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute) string {
 	if attr.vtType == 1 {
 		// It's a string
 		return "string"
 	}
+	if namedType := sh.findTypeName(attr); namedType != "" {
+		return namedType
+	}
 	vAttr := attr.children[0]
-	ty := cdlTypeString(vAttr.class, sh, name, vAttr, origNames)
+	ty := cdlTypeString(vAttr.class, sh, name, vAttr)
 	assert(ty != "", "unable to parse vlen attr")
 	signature := fmt.Sprintf("%s(*)", ty)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
-	if namedType != "" {
-		return namedType
-	}
 	return signature
 }
 
-func (vlenManagerType) goTypeString(sh sigHelper, typeName string, attr *attribute, origNames map[string]bool) string {
+func (vlenManagerType) goTypeString(sh sigHelper, typeName string, attr *attribute) string {
 	if attr.vtType == 1 {
 		// It's a string
 		return "string"
 	}
+	if namedType := sh.findTypeName(attr); namedType != "" {
+		return namedType
+	}
 	vAttr := attr.children[0]
-	ty := goTypeString(vAttr.class, sh, typeName, vAttr, origNames)
+	ty := goTypeString(vAttr.class, sh, typeName, vAttr)
 	assert(ty != "", "unable to parse vlen attr")
 	signature := fmt.Sprintf("[]%s", ty)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
-	if namedType != "" {
-		return namedType
-	}
 	return signature
 }
 
-- 
2.43.0


From 35b786bb04371781e7c9e556140bc84c8466fce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 41/63] fix: read attributes that are too long for the blocks
 of the heap (dense attribute storage)

---
 netcdf/hdf5/hdf5.go | 61 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 12 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 0d04137..c47bb7e 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -239,6 +239,14 @@ type linkInfo struct {
 	blockSize        uint64
 	tableWidth       uint16
 	maximumBlockSize uint64
+	hugeAddress      uint64                // b-tree of the objects too big for the heap's blocks
+	hugeObjects      map[uint64]hugeObject // what is in that b-tree, once read
+}
+
+// hugeObject is a heap object stored on its own in the file.
+type hugeObject struct {
+	addr   uint64
+	length uint64
 }
 
 type object struct {
@@ -259,6 +267,7 @@ type object struct {
 	fillValueOld     []byte
 	isGroup          bool
 	creationOrder    uint64
+	hugeObjects      map[uint64]hugeObject // only when reading the b-tree of huge objects
 }
 
 // Only the pointer is used here.  We don't actually use the value.
@@ -567,7 +576,7 @@ func readNullTerminatedName(bf io.Reader, padding int) string {
 }
 
 // Assumes it is an attribute
-func (h5 *HDF5) readAttributeDirect(obj *object, addr uint64, offset uint64, length uint16,
+func (h5 *HDF5) readAttributeDirect(obj *object, addr uint64, offset uint64, length uint64,
 	creationOrder uint64) {
 	logger.Infof("* addr=0x%x offset=0x%x length=%d", addr, offset, length)
 	logger.Info("read Attributes at:", addr+offset)
@@ -638,11 +647,11 @@ func (h5 *HDF5) readAttribute(obj *object, obf io.Reader, creationOrder uint64)
 	obj.attrlist = append(obj.attrlist, attr)
 }
 
-type doublerCallback func(obj *object, bnum uint64, offset uint64, length uint16,
+type doublerCallback func(obj *object, bnum uint64, offset uint64, length uint64,
 	creationOrder uint64)
 
 // Handling doubling table.  Assume width of 4.
-func (h5 *HDF5) doDoubling(obj *object, link *linkInfo, offset uint64, length uint16, creationOrder uint64, callback doublerCallback) {
+func (h5 *HDF5) doDoubling(obj *object, link *linkInfo, offset uint64, length uint64, creationOrder uint64, callback doublerCallback) {
 	logger.Infof("doubling start: offset=0x%x length=%d blocksize=%d block=%x iblock=%x", offset, length, link.blockSize, link.block, link.iBlock)
 	blockSize := link.blockSize
 	blockToUse := invalidAddress
@@ -698,25 +707,39 @@ func (h5 *HDF5) doDoubling(obj *object, link *linkInfo, offset uint64, length ui
 	h5.readLinkData(obj, &nextLink, offset, length, creationOrder, callback)
 }
 
-func (h5 *HDF5) readLinkData(obj *object, link *linkInfo, offset uint64, length uint16,
+func (h5 *HDF5) readLinkData(obj *object, link *linkInfo, offset uint64, length uint64,
 	creationOrder uint64, callback doublerCallback) {
 	logger.Infof("offset=0x%x length=%d", offset, length)
 	h5.doDoubling(obj, link, offset, length, creationOrder, callback)
 }
 
+// findHugeObject finds an object that is too big to be stored in the blocks of the heap.
+func (h5 *HDF5) findHugeObject(link *linkInfo, id uint64) hugeObject {
+	if link.hugeObjects == nil {
+		assert(link.hugeAddress != invalidAddress, "no huge objects in heap")
+		index := newObject()
+		index.hugeObjects = make(map[uint64]hugeObject)
+		h5.readBTree(index, link.hugeAddress)
+		link.hugeObjects = index.hugeObjects
+	}
+	huge, has := link.hugeObjects[id]
+	assert(has, "huge object not found")
+	return huge
+}
+
 func hasFlag8(flags byte, flag uint) bool {
 	return (flags>>flag)&1 == 1
 }
 
 // Assumes it is a link
-func (h5 *HDF5) readLinkDirect(parent *object, addr uint64, offset uint64, length uint16,
+func (h5 *HDF5) readLinkDirect(parent *object, addr uint64, offset uint64, length uint64,
 	creationOrder uint64) {
 	logger.Infof("* addr=0x%x offset=0x%x length=%d", addr, offset, length)
 	bf := h5.newSeek(addr+uint64(offset), int64(length))
 	h5.readLinkDirectFrom(parent, bf, length, creationOrder)
 }
 
-func (h5 *HDF5) readLinkDirectFrom(parent *object, obf io.Reader, length uint16, creationOrder uint64) {
+func (h5 *HDF5) readLinkDirectFrom(parent *object, obf io.Reader, length uint64, creationOrder uint64) {
 	bf := newResetReader(obf, int64(length))
 	version := read8(bf)
 	logger.Infof("* link version=%d", version)
@@ -834,6 +857,13 @@ func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
 	for i := range int(numRec) {
 		logger.Infof("reading record %d of %d", i, numRec)
 		switch ty {
+		case 1: // for indexing huge objects that are not filtered
+			assert(obj.hugeObjects != nil, "unexpected index of huge objects")
+			addr := read64(bf)
+			length := read64(bf)
+			id := read64(bf)
+			obj.hugeObjects[id] = hugeObject{addr: addr, length: length}
+
 		case 5: // for indexing the ‘name’ field for links in indexed groups.
 			logger.Info("Name field for links in indexed groups")
 			hash := read32(bf)
@@ -850,7 +880,7 @@ func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
 			// done reading heap id
 			logger.Infof("offset=0x%x length=%d", offset, length)
 			logger.Info("read link data -- indexed groups")
-			h5.readLinkData(obj, obj.link, offset, length, 0, h5.readLinkDirect)
+			h5.readLinkData(obj, obj.link, offset, uint64(length), 0, h5.readLinkDirect)
 		case 6: // creation order for indexed group
 			if parseCreationOrder {
 				logger.Info("Creation order for indexed groups")
@@ -864,7 +894,7 @@ func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
 				length := read16(bf)
 				// done reading heap id
 				logger.Infof("offset=0x%x length=%d", offset, length)
-				h5.readLinkData(obj, obj.link, offset, length, co, h5.readLinkDirect)
+				h5.readLinkData(obj, obj.link, offset, uint64(length), co, h5.readLinkDirect)
 			} else {
 				logger.Fatal("creation order code has never been executed before")
 			}
@@ -875,7 +905,6 @@ func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
 			logger.Infof("versionAndType=%s", binaryToString(uint64(versionAndType)))
 			idType := (versionAndType >> 4) & 0b11
 			logger.Info("idtype=", idType)
-			checkVal(0, idType, "don't know how to handle non-managed")
 			// heap IDs are always 8 bytes here
 			offset := uint64(read32(bf))
 			logger.Infof("offset=0x%x", offset)
@@ -889,8 +918,14 @@ func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
 			hash := read32(bf)
 			logger.Infof("flags=%s co=0x%x hash=0x%x",
 				binaryToString(uint64(flags)), co, hash)
+			if idType == 1 {
+				huge := h5.findHugeObject(obj.attr, offset|uint64(length)<<40)
+				h5.readAttributeDirect(obj, huge.addr, 0, huge.length, uint64(co))
+				break
+			}
+			checkVal(0, idType, "don't know how to handle non-managed")
 			logger.Info("read link data -- indexed attributes")
-			h5.readLinkData(obj, obj.attr, offset, length, uint64(co), h5.readAttributeDirect)
+			h5.readLinkData(obj, obj.attr, offset, uint64(length), uint64(co), h5.readAttributeDirect)
 
 		case 9:
 			// uncomment the following to enable
@@ -916,7 +951,7 @@ func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
 				logger.Infof("type 9 vat=0x%x offset=0x%x length=%d mflags=0x%x, co=%d",
 					versionAndType,
 					offset, length, mflags, co)
-				h5.readLinkData(obj, obj.attr, offset, length, 0, h5.readAttributeDirect)
+				h5.readLinkData(obj, obj.attr, offset, uint64(length), 0, h5.readAttributeDirect)
 			} else {
 				logger.Fatal("creation order code has never been executed before")
 			}
@@ -1211,6 +1246,7 @@ func (h5 *HDF5) readHeap(link *linkInfo) {
 	logger.Info("fractal heap version=", version)
 	heapIDLen := read16(bf)
 	logger.Info("heap ID length=", heapIDLen)
+	assert(heapIDLen < 17, "unhandled heap ID length") // longer ones refer to huge objects differently
 	filterLen := read16(bf)
 	logger.Info("filter length=", filterLen)
 	checkVal(0, filterLen, "filterlen must be zero")
@@ -1225,6 +1261,7 @@ func (h5 *HDF5) readHeap(link *linkInfo) {
 	logger.Infof("nextHuge=0x%x", nextHuge)
 	btAddr := read64(bf)
 	logger.Infof("btree address=0x%x", btAddr)
+	link.hugeAddress = btAddr
 	amountFree := read64(bf)
 	logger.Infof("amount free=%d", amountFree)
 	freeSpaceAddr := read64(bf)
@@ -2013,7 +2050,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 
 		case typeLink:
 			logger.Info("XXX: Link")
-			h5.readLinkDirectFrom(obj, f, size, 0)
+			h5.readLinkDirectFrom(obj, f, uint64(size), 0)
 
 		case typeExternalDataFiles:
 			logger.Error("We don't handle external data files")
-- 
2.43.0


From 8a243084bf8ab9a6000145c628a0f13f5b62c7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 42/63] fix: read chunked variables one chunk at a time, so
 that large chunks and missing ones cost nothing

---
 netcdf/hdf5/hdf5.go    |  62 ++-----------
 netcdf/hdf5/readers.go | 206 ++++++++++++++++++-----------------------
 2 files changed, 101 insertions(+), 167 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index c47bb7e..07ddb26 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2503,8 +2503,9 @@ func makeSlices(ty reflect.Type, dimLengths []uint64) reflect.Value {
 	return reflect.MakeSlice(sliceType, int(dimLengths[0]), int(dimLengths[0]))
 }
 
+// newRecordReader reads variables that are not chunked.
 func (h5 *HDF5) newRecordReader(obj *object) remReader {
-	size := uint64(calcAttrSize(obj.objAttr))
+	size := calcDataSize(obj.objAttr) * uint64(obj.objAttr.length)
 	if size == 0 {
 		return newResetReaderFromBytes([]byte{})
 	}
@@ -2512,7 +2513,7 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 	firstOffset := uint64(0)
 	lastOffset := uint64(size)
 	segments := newSegments()
-	if obj.objAttr.isSlice && !needsLayoutReader(obj.objAttr) {
+	if obj.objAttr.isSlice {
 		if len(obj.objAttr.dimensions) > 0 && obj.objAttr.dimensions[0] > 0 {
 			dimSize := size / obj.objAttr.dimensions[0]
 			firstOffset = uint64(obj.objAttr.firstDim) * dimSize
@@ -2520,26 +2521,7 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 			size = lastOffset - firstOffset
 		}
 	}
-	// The keys of the b-tree are ordered by the position of the chunks in the variable
-	firstKey, lastKey := firstOffset, lastOffset
-	if needsLayoutReader(obj.objAttr) {
-		// Whole slabs of chunks
-		first, last := sliceRows(obj.objAttr)
-		layout := obj.objAttr.layout[0]
-		_, slabSize := chunkGrid(obj.objAttr)
-		firstOffset = first / layout * slabSize
-		lastOffset = (last + layout - 1) / layout * slabSize
-		size = lastOffset - firstOffset
-		rowSize := calcDataSize(obj.objAttr) / obj.objAttr.dimensions[0] * uint64(obj.objAttr.length)
-		firstKey = first / layout * layout * rowSize
-		lastKey = last * rowSize
-	}
 	dataBlocks := obj.dataBlocks
-	if len(dataBlocks) == 0 && obj.btreeAddr != 0 {
-		tmp := *obj // collects the blocks
-		h5.readBTreeNode(&tmp, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality, firstKey, lastKey)
-		dataBlocks = tmp.dataBlocks
-	}
 	if len(dataBlocks) == 0 {
 		logger.Info("No blocks, filling only", size, obj.objAttr.dimensions)
 		return makeFillValueReader(obj, nil, int64(size))
@@ -2551,14 +2533,8 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 		skipEnd := uint64(0)
 		valOffset := val.offset
 
-		if len(obj.objAttr.layout) > 0 {
-			offset = calculateFlatOffset(val.offsets, obj.objAttr.dimensions, obj.objAttr.layout, uint64(obj.objAttr.length))
-		}
-
 		if offset+dsLength <= firstOffset {
-			if len(obj.objAttr.layout) == 0 {
-				offset += dsLength
-			}
+			offset += dsLength
 			continue
 		}
 		if offset >= lastOffset {
@@ -2591,9 +2567,7 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 			r:      bf,
 		}
 		segments.append(thisSeg)
-		if len(obj.objAttr.layout) == 0 {
-			offset += dsLength
-		}
+		offset += dsLength
 	}
 	segments.sort()
 	readers := make([]io.Reader, 0)
@@ -2626,28 +2600,10 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 }
 
 func (h5 *HDF5) newMaybeLayoutRecordReader(obj *object) io.Reader {
-	r := h5.newRecordReader(obj)
-	if needsLayoutReader(obj.objAttr) {
-		return newLayoutReader(r, obj)
-	}
-	return r
-}
-
-func needsLayoutReader(attr *attribute) bool {
-	if len(attr.layout) == 0 {
-		return false
-	}
-	for i := range attr.dimensions {
-		if attr.dimensions[i]%attr.layout[i] != 0 {
-			return true
-		}
-	}
-	for i := range len(attr.layout) - 1 {
-		if attr.layout[i] != 1 {
-			return true
-		}
+	if len(obj.objAttr.layout) > 0 {
+		return h5.newLayoutReader(obj)
 	}
-	return false
+	return h5.newRecordReader(obj)
 }
 
 func makeFillValueReader(obj *object, bf io.Reader, length int64) remReader {
@@ -2686,7 +2642,7 @@ func makeFillValueReader(obj *object, bf io.Reader, length int64) remReader {
 
 func (h5 *HDF5) getData(obj *object) any {
 	attr := obj.objAttr
-	sz := calcAttrSize(obj.objAttr)
+	sz := calcDataSize(attr) * uint64(attr.length)
 	bf := h5.newMaybeLayoutRecordReader(obj)
 	logger.Info("about to getdataattr rem=", bf.(remReader).Rem(), "size=", sz)
 	if int64(sz) > bf.(remReader).Rem() {
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 9584b24..ee7fe85 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -491,13 +491,16 @@ func readBytes(r io.Reader, n uint64) []byte {
 	return b.Bytes()
 }
 
+// layoutReader reads a variable that is stored in chunks, one slab of chunks at a time: all of the
+// chunks that start at the same index of the first dimension.
 type layoutReader struct {
-	r         remReader
+	h5        *HDF5
 	obj       *object
+	chunks    []dataBlock // the ones to be read
 	buf       []byte
 	size      int64
 	count     uint64 // number bytes produced
-	slabIndex int
+	slabStart uint64 // where the next slab starts, in the first dimension
 }
 
 // calcChunkSize calculates the size of a chunk
@@ -511,19 +514,8 @@ func calcChunkSize(attr *attribute) uint64 {
 }
 
 // calcAttrSize computes the total size of an object in bytes.
-// If it is chunked, it may be larger than the data size.
 func calcAttrSize(attr *attribute) uint64 {
-	dtLength := uint64(attr.length)
-	if len(attr.layout) == 0 {
-		return calcDataSize(attr) * dtLength // not chunked
-	}
-	totalChunks := uint64(1)
-	for i := range attr.dimensions {
-		gi := (attr.dimensions[i] + attr.layout[i] - 1) / attr.layout[i]
-		totalChunks *= gi
-	}
-	chunkSize := calcChunkSize(attr)
-	return totalChunks * chunkSize * dtLength
+	return calcDataSize(attr) * uint64(attr.length)
 }
 
 // arraySize returns the size in bytes of an array of elements of the given size, and whether it
@@ -550,26 +542,6 @@ func calcDataSize(attr *attribute) uint64 {
 	return dataSize
 }
 
-func calculateFlatOffset(offsets []uint64, dims []uint64, layout []uint64, dtLength uint64) uint64 {
-	rank := len(dims)
-	flatChunkIndex := uint64(0)
-	for i := range rank {
-		gi := offsets[i] / layout[i]
-		gridStride := uint64(1)
-		for k := i + 1; k < rank; k++ {
-			gridStride *= (dims[k] + layout[k] - 1) / layout[k]
-		}
-		flatChunkIndex += gi * gridStride
-	}
-
-	chunkSize := uint64(1)
-	for _, v := range layout {
-		chunkSize *= v
-	}
-
-	return flatChunkIndex * chunkSize * dtLength
-}
-
 // sliceRows returns the range of the first dimension that is to be read.
 func sliceRows(attr *attribute) (first, last uint64) {
 	if attr.isSlice {
@@ -578,20 +550,6 @@ func sliceRows(attr *attribute) (first, last uint64) {
 	return 0, attr.dimensions[0]
 }
 
-// chunkGrid returns the number of chunks along each dimension, and the size in bytes of a slab:
-// all of the chunks that start at the same index of the first dimension.
-func chunkGrid(attr *attribute) ([]uint64, uint64) {
-	grid := make([]uint64, len(attr.dimensions))
-	slabSize := calcChunkSize(attr) * uint64(attr.length)
-	for i := range grid {
-		grid[i] = (attr.dimensions[i] + attr.layout[i] - 1) / attr.layout[i]
-		if i > 0 {
-			slabSize *= grid[i]
-		}
-	}
-	return grid, slabSize
-}
-
 // fillrow reads one slab of chunks, and puts their rows into lr.buf in the order of the variable.
 func (lr *layoutReader) fillrow() error {
 	attr := lr.obj.objAttr
@@ -599,16 +557,19 @@ func (lr *layoutReader) fillrow() error {
 	layout := attr.layout
 	dtLength := uint64(attr.length)
 	rank := len(dims)
-	grid, slabSize := chunkGrid(attr)
 
-	// Rows of the variable that are wanted from this slab
+	// What is wanted from this slab
 	firstRow, lastRow := sliceRows(attr)
-	slabStart := (firstRow/layout[0] + uint64(lr.slabIndex)) * layout[0]
-	if slabStart >= lastRow {
+	if lr.slabStart >= lastRow {
 		return io.EOF
 	}
-	begin := max(firstRow, slabStart)
-	end := min(lastRow, slabStart+layout[0])
+	low := make([]uint64, rank)
+	high := append([]uint64{}, dims...)
+	low[0] = max(firstRow, lr.slabStart)
+	high[0] = lastRow
+	if lastRow-lr.slabStart > layout[0] {
+		high[0] = lr.slabStart + layout[0]
+	}
 
 	// Number of elements between neighbors in each dimension of the variable
 	stride := make([]uint64, rank)
@@ -617,71 +578,71 @@ func (lr *layoutReader) fillrow() error {
 		stride[i] = n
 		n *= dims[i]
 	}
-	lr.buf = make([]byte, (end-begin)*stride[0]*dtLength)
-
-	chunkBytes := calcChunkSize(attr) * dtLength
-	readBuf := make([]byte, chunkBytes)
-	lineLen := layout[rank-1]
-	numLines := calcChunkSize(attr) / lineLen
-	start := make([]uint64, rank) // where the current chunk starts
-	index := make([]uint64, rank) // where the current line starts
-	for gc := range slabSize / chunkBytes {
-		// Read one chunk
-		_, err := io.ReadFull(lr.r, readBuf)
-		if err != nil {
-			return err
+	size := (high[0] - low[0]) * stride[0] * dtLength
+	lr.buf = make([]byte, size)
+	// Chunks may be missing
+	_, err := io.ReadFull(makeFillValueReader(lr.obj, nil, int64(size)), lr.buf)
+	if err != nil {
+		return err
+	}
+
+	for i := range lr.chunks {
+		block := &lr.chunks[i]
+		if block.offsets[0] != lr.slabStart {
+			continue
 		}
-		start[0] = slabStart
-		for i, rem := rank-1, gc; i > 0; i-- {
-			start[i] = rem % grid[i] * layout[i]
-			rem /= grid[i]
+		// The part of the chunk that is wanted
+		begin := make([]uint64, rank)
+		end := make([]uint64, rank)
+		empty := false
+		for d, off := range block.offsets {
+			begin[d] = max(low[d], off)
+			end[d] = high[d]
+			if off < high[d] && high[d]-off > layout[d] {
+				end[d] = off + layout[d]
+			}
+			empty = empty || begin[d] >= end[d]
 		}
-
-		// Copy the lines (along the last dimension) that are wanted
-		for line := range numLines {
-			wanted := true
-			destOffset := uint64(0)
-			copyLen := lineLen
-			skipped := uint64(0)
-			for i, rem := rank-1, line; i >= 0; i-- {
-				index[i] = start[i]
-				if i < rank-1 {
-					index[i] += rem % layout[i]
-					rem /= layout[i]
-				}
-				low, high := uint64(0), dims[i]
-				if i == 0 {
-					low, high = begin, end
-				}
-				if i == rank-1 {
-					// part of the line may be unwanted
-					if index[i] < low {
-						skipped = min(low-index[i], copyLen)
-						copyLen -= skipped
-						index[i] = low
-					}
-					if index[i] < high {
-						copyLen = min(copyLen, high-index[i])
-					}
-				}
-				if index[i] < low || index[i] >= high || copyLen == 0 {
-					wanted = false
+		if empty {
+			continue
+		}
+		src := lr.h5.readChunk(lr.obj, block)
+		// Copy the lines (along the last dimension)
+		lineLen := (end[rank-1] - begin[rank-1]) * dtLength
+		index := append([]uint64{}, begin...)
+		for {
+			from, to := uint64(0), uint64(0)
+			for d := range rank {
+				from = from*layout[d] + index[d] - block.offsets[d]
+				to += (index[d] - low[d]) * stride[d]
+			}
+			copy(lr.buf[to*dtLength:][:lineLen], src[from*dtLength:])
+			d := rank - 2
+			for ; d >= 0; d-- {
+				index[d]++
+				if index[d] < end[d] {
 					break
 				}
-				destOffset += (index[i] - low) * stride[i]
+				index[d] = begin[d]
 			}
-			if !wanted {
-				continue
+			if d < 0 {
+				break
 			}
-			src := readBuf[(line*lineLen+skipped)*dtLength:]
-			copy(lr.buf[destOffset*dtLength:], src[:copyLen*dtLength])
 		}
 	}
-
-	lr.slabIndex++
+	lr.slabStart += layout[0]
 	return nil
 }
 
+// readChunk reads a whole chunk.
+func (h5 *HDF5) readChunk(obj *object, block *dataBlock) []byte {
+	if isFiltered(obj, block) {
+		return h5.readFiltered(obj.filters, block)
+	}
+	assertError(block.dsLength <= block.length, ErrCorrupted, "block too short")
+	return readBytes(h5.newSeek(block.offset, int64(block.dsLength)), block.dsLength)
+}
+
 func (lr *layoutReader) Read(b []byte) (int, error) {
 	if len(lr.buf) == 0 {
 		err := lr.fillrow()
@@ -704,11 +665,28 @@ func (lr *layoutReader) Count() int64 {
 	return int64(lr.count)
 }
 
-func newLayoutReader(r remReader, obj *object) io.Reader {
-	size := calcDataSize(obj.objAttr) * uint64(obj.objAttr.length)
-	if size > 0 {
-		first, last := sliceRows(obj.objAttr)
-		size = size / obj.objAttr.dimensions[0] * (last - first)
+func (h5 *HDF5) newLayoutReader(obj *object) io.Reader {
+	attr := obj.objAttr
+	size := calcAttrSize(attr)
+	if size == 0 {
+		return newResetReaderFromBytes([]byte{})
+	}
+	first, last := sliceRows(attr)
+	rowSize := size / attr.dimensions[0]
+	slabStart := first / attr.layout[0] * attr.layout[0]
+	lr := &layoutReader{h5: h5, obj: obj, chunks: obj.dataBlocks, size: int64(rowSize * (last - first)), slabStart: slabStart}
+	if len(lr.chunks) == 0 && obj.btreeAddr != 0 {
+		tmp := *obj // collects the blocks
+		// The keys of the b-tree are ordered by the position of the chunks in the variable
+		h5.readBTreeNode(&tmp, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality,
+			slabStart*rowSize, last*rowSize)
+		lr.chunks = tmp.dataBlocks
+	}
+	for _, block := range lr.chunks {
+		assertError(len(block.offsets) == len(attr.dimensions), ErrCorrupted, "bad chunk index")
+		for d, off := range block.offsets {
+			assertError(off%attr.layout[d] == 0, ErrCorrupted, "bad chunk index")
+		}
 	}
-	return &layoutReader{r, obj, nil, int64(size), 0, 0}
+	return lr
 }
-- 
2.43.0


From b2bb2907b7bc8c2e292d3579a6711b4bc731f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 43/63] fix: refuse corrupted HDF5 files instead of panicking,
 looping or allocating what they claim

---
 netcdf/hdf5/amap.go   |   2 +
 netcdf/hdf5/assert.go |  34 +++++++++-
 netcdf/hdf5/hdf5.go   | 144 +++++++++++++++++++++++++++++++++++-------
 netcdf/hdf5/vlen.go   |   4 ++
 4 files changed, 159 insertions(+), 25 deletions(-)

diff --git a/netcdf/hdf5/amap.go b/netcdf/hdf5/amap.go
index 789a31f..26c7321 100644
--- a/netcdf/hdf5/amap.go
+++ b/netcdf/hdf5/amap.go
@@ -13,11 +13,13 @@ type callback struct {
 
 // CDL callback (regular)
 func (c *callback) regCallback(key string) (string, bool) {
+	defer noPanics()
 	ret := c.h5.findAttrType(c.attrs, key)
 	return ret, ret != ""
 }
 
 func (c *callback) goCallback(key string) (string, bool) {
+	defer noPanics()
 	ret := c.h5.findAttrGoType(c.attrs, key)
 	return ret, ret != ""
 }
diff --git a/netcdf/hdf5/assert.go b/netcdf/hdf5/assert.go
index ad19e48..78fddf1 100644
--- a/netcdf/hdf5/assert.go
+++ b/netcdf/hdf5/assert.go
@@ -5,6 +5,8 @@ package hdf5
 import (
 	"fmt"
 	"io"
+	"reflect"
+	"runtime"
 
 	"github.com/batchatco/go-thrower"
 )
@@ -16,8 +18,8 @@ const (
 )
 
 var (
-	logFunc   = logger.Fatal // logging function for padBytesCheck()
-	maybeFail = fail         // fail function, can be disabled for testing
+	logFunc   = notZero // what padBytesCheck() does when something is not zero
+	maybeFail = fail    // fail function, can be disabled for testing
 )
 
 // Panics if condition isn't met
@@ -64,6 +66,34 @@ func failError(err error, msg string) {
 	panic("never gets here")
 }
 
+func notZero(v ...any) {
+	failError(ErrCorrupted, fmt.Sprint(v...))
+}
+
+// catchPanics turns the run-time panics that corrupted files lead to into errors.
+// It needs to be deferred before thrower.RecoverError, which passes them on.
+func catchPanics(err *error) {
+	switch r := recover().(type) {
+	case nil:
+	case runtime.Error, *reflect.ValueError, string:
+		logger.Error("corrupted file:", r)
+		*err = ErrCorrupted
+	default:
+		panic(r)
+	}
+}
+
+// noPanics is for functions that have no way to return an error: they return nothing.
+func noPanics() {
+	switch r := recover().(type) {
+	case nil:
+	case error, string:
+		logger.Error("corrupted file:", r)
+	default:
+		panic(r)
+	}
+}
+
 // Check that pad bytes are zero up to byte boundary (pad32 = 1,3 or 7)
 func padBytes(bf io.Reader, pad32 int) {
 	padBytesCheck(bf, pad32, round, logFunc)
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 07ddb26..47e3843 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -217,7 +217,8 @@ type HDF5 struct {
 	rootObject    *object
 	groupObject   *object
 	registrations map[string]any
-	addrs         map[uint64]bool
+	addrs         map[uint64]bool   // objects read so far
+	blocks        map[uint64]bool   // blocks read so far that belong to only one structure
 	heapCache     *globalHeapCache  // cache for global heap object lookups
 	addrToName    map[uint64]string // object address → name
 	attrLock      *sync.Mutex       // for parsing attributes
@@ -239,6 +240,7 @@ type linkInfo struct {
 	blockSize        uint64
 	tableWidth       uint16
 	maximumBlockSize uint64
+	depth            int                   // of the indirect block
 	hugeAddress      uint64                // b-tree of the objects too big for the heap's blocks
 	hugeObjects      map[uint64]hugeObject // what is in that b-tree, once read
 }
@@ -268,6 +270,7 @@ type object struct {
 	isGroup          bool
 	creationOrder    uint64
 	hugeObjects      map[uint64]hugeObject // only when reading the b-tree of huge objects
+	treeNodes        map[uint64]bool       // only when reading the b-tree of chunks
 }
 
 // Only the pointer is used here.  We don't actually use the value.
@@ -303,15 +306,21 @@ func SetLogLevel(level int) int {
 
 func (h5 *HDF5) newSeek(addr uint64, size int64) remReader {
 	logger.Infof("Seek to 0x%x", addr)
-	assert(int64(addr)+size <= h5.fileSize,
-		fmt.Sprintf("bad seek addr=0x%x size=%d addr+size=0x%x fileSize=0x%x",
-			addr, size, int64(addr)+size, h5.fileSize))
+	assert(size >= 0 && addr <= uint64(h5.fileSize) && size <= h5.fileSize-int64(addr),
+		fmt.Sprintf("bad seek addr=0x%x size=%d fileSize=0x%x", addr, size, h5.fileSize))
 	if size == 0 {
 		size = h5.fileSize - int64(addr)
 	}
 	return newResetReaderOffset(h5.file, size, addr)
 }
 
+// visit is for the blocks of structures that are read only once: it fails if the block has been
+// read before, which would lead to loops.
+func (h5 *HDF5) visit(addr uint64) {
+	assertError(!h5.blocks[addr], ErrCorrupted, "block is used more than once")
+	h5.blocks[addr] = true
+}
+
 func read(r io.Reader, data any) {
 	util.MustReadLE(r, data)
 }
@@ -698,6 +707,8 @@ func (h5 *HDF5) doDoubling(obj *object, link *linkInfo, offset uint64, length ui
 	assert(blockToUse != invalidAddress, "did not find direct or indirect block")
 
 	nextLink := *link
+	nextLink.depth++
+	assertError(nextLink.depth < 64, ErrCorrupted, "too many levels of indirect blocks")
 
 	logger.Infof("Read indirect block 0x%x %d", blockToUse, blockSize)
 	nrows := log2(blockSize) - log2(link.blockSize*uint64(width)) + 1
@@ -740,6 +751,7 @@ func (h5 *HDF5) readLinkDirect(parent *object, addr uint64, offset uint64, lengt
 }
 
 func (h5 *HDF5) readLinkDirectFrom(parent *object, obf io.Reader, length uint64, creationOrder uint64) {
+	assertError(length <= uint64(h5.fileSize), ErrCorrupted, "link too long")
 	bf := newResetReader(obf, int64(length))
 	version := read8(bf)
 	logger.Infof("* link version=%d", version)
@@ -767,10 +779,12 @@ func (h5 *HDF5) readLinkDirectFrom(parent *object, obf io.Reader, length uint64,
 	b := readEnc(bf, uint8(size))
 	lenlen := uint64(b)
 	logger.Infof("lenlen=0x%x", lenlen)
+	assertError(lenlen <= uint64(bf.Rem()), ErrCorrupted, "link name too long")
 	linkName := make([]byte, lenlen)
 	if lenlen > 0 {
 		read(bf, linkName)
 	}
+	assertError(linkType == 0, ErrLinkType, "only hard links are supported")
 	hardAddr := read64(bf)
 	if bf.Rem() > 0 {
 		checkZeroes(bf, int(bf.Rem()))
@@ -807,6 +821,7 @@ func (h5 *HDF5) readBTreeInternal(parent *object, bta uint64, numRec uint64, rec
 	bsize := int64(4+2) + int64(nr)*int64(recordSize) + (int64(nr)+1)*int64(8+1+sub)
 	bf := h5.newSeek(bta, bsize)
 	checkMagic(bf, 4, "BTIN")
+	h5.visit(bta)
 	version := read8(bf)
 	checkVal(0, version, "version")
 	logger.Info("btin version=", version)
@@ -896,7 +911,7 @@ func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
 				logger.Infof("offset=0x%x length=%d", offset, length)
 				h5.readLinkData(obj, obj.link, offset, uint64(length), co, h5.readLinkDirect)
 			} else {
-				logger.Fatal("creation order code has never been executed before")
+				fail("creation order code has never been executed before")
 			}
 
 		case 8: // for indexing the ‘name’ field for indexed attributes.
@@ -953,7 +968,7 @@ func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
 					offset, length, mflags, co)
 				h5.readLinkData(obj, obj.attr, offset, uint64(length), 0, h5.readAttributeDirect)
 			} else {
-				logger.Fatal("creation order code has never been executed before")
+				fail("creation order code has never been executed before")
 			}
 		default:
 			fail(fmt.Sprintf("unhandled type: %d", ty))
@@ -965,6 +980,7 @@ func (h5 *HDF5) readBTreeLeaf(parent *object, bta uint64, numRec uint64, recordS
 	nbytes := 4 + 2 + int(numRec)*int(recordSize)
 	bf := h5.newSeek(bta, int64(nbytes))
 	checkMagic(bf, 4, "BTLF")
+	h5.visit(bta)
 	version := read8(bf)
 	logger.Info("btlf version=", version)
 	ty := read8(bf)
@@ -999,6 +1015,11 @@ func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, isTop bool,
 	firstOffset, lastOffset uint64) {
 	bf := h5.newSeek(bta, 24) // adjust later
 	checkMagic(bf, 4, "TREE")
+	if parent.treeNodes == nil {
+		parent.treeNodes = make(map[uint64]bool)
+	}
+	assertError(!parent.treeNodes[bta], ErrCorrupted, "loop in b-tree")
+	parent.treeNodes[bta] = true
 	nodeType := read8(bf)
 	checkVal(1, nodeType, "raw data only")
 	nodeLevel := read8(bf)
@@ -1021,11 +1042,11 @@ func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, isTop bool,
 		flatOffset uint64
 	}
 
-	entries := make([]btreeEntry, entriesUsed+1)
+	entries := make([]btreeEntry, int(entriesUsed)+1)
 	bf = h5.newSeek(bta+uint64(bf.Count()),
 		int64((int(entriesUsed)*(24+dimDataSize))+16+dimDataSize))
 
-	for i := uint16(0); i <= entriesUsed; i++ {
+	for i := 0; i <= int(entriesUsed); i++ {
 		entries[i].sizeChunk = read32(bf)
 		entries[i].filterMask = read32(bf)
 		entries[i].offsets = make([]uint64, dimensionality-1)
@@ -1033,7 +1054,7 @@ func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, isTop bool,
 			entries[i].offsets[d] = read64(bf)
 		}
 		read64(bf) // last offset must be zero
-		if i < entriesUsed {
+		if i < int(entriesUsed) {
 			entries[i].addr = read64(bf)
 		}
 		if parent.objAttr.dimensions != nil {
@@ -1042,7 +1063,7 @@ func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, isTop bool,
 		}
 	}
 
-	for i := uint16(0); i < entriesUsed; i++ {
+	for i := range int(entriesUsed) {
 		low := entries[i].flatOffset
 		high := entries[i+1].flatOffset
 		if nodeLevel == 0 {
@@ -1083,7 +1104,7 @@ func (h5 *HDF5) readRootBlock(link *linkInfo, bta uint64, nrows uint16) {
 	maxBlockSize := link.maximumBlockSize
 	// bytes in block
 	// signature=4 version=1 heapaddr=8 blockoffset=(calc) + variables=(calc) + checksum
-	bSize := 4 + 1 + 8 + int64(link.maxHeapSize/8) + int64(nrows*width*8) + 4
+	bSize := 4 + 1 + 8 + int64(link.maxHeapSize/8) + int64(nrows)*int64(width)*8 + 4
 	bf := h5.newSeek(bta, bSize)
 	checkMagic(bf, 4, "FHIB")
 	version := read8(bf)
@@ -1207,6 +1228,7 @@ func (h5 *HDF5) readGlobalHeapCollection(heapAddress uint64) map[uint32][]byte {
 	checkVal(1, version, "version")
 	checkZeroes(bf, 3)
 	csize := read64(bf) // collection size including these 16 header bytes
+	assertError(csize >= 16, ErrCorrupted, "global heap collection too short")
 	csize -= 16
 	bf = h5.newSeek(heapAddress+uint64(bf.Count()), int64(csize))
 	for csize >= 16 {
@@ -1331,6 +1353,7 @@ func (h5 *HDF5) readLocalHeap(addr uint64, offset uint64) string {
 func (h5 *HDF5) readSymbolTableLeaf(parent *object, addr uint64, heapAddr uint64) {
 	bf := h5.newSeek(addr, 8)
 	checkMagic(bf, 4, "SNOD")
+	h5.visit(addr)
 	version := read8(bf)
 	checkVal(1, version, "version 1 expected for symbol table leaf")
 	reserved := read8(bf)
@@ -1378,7 +1401,7 @@ func (h5 *HDF5) readSymbolTableLeaf(parent *object, addr uint64, heapAddr uint64
 		if h5.hasAddr(objectHeaderAddress) {
 			logger.Info("avoid link loop")
 			logger.Infof("done with name=%s", string(linkName))
-			return
+			continue
 		}
 		obj := newObject()
 		obj.addr = objectHeaderAddress
@@ -1397,9 +1420,14 @@ func (h5 *HDF5) readSymbolTableLeaf(parent *object, addr uint64, heapAddr uint64
 }
 
 func (h5 *HDF5) readSymbolTable(parent *object, addr uint64, heapAddr uint64) {
+	h5.readSymbolTableNode(parent, addr, heapAddr, true)
+}
+
+func (h5 *HDF5) readSymbolTableNode(parent *object, addr uint64, heapAddr uint64, isTop bool) {
 	bf := h5.newSeek(addr, 52) // adjust later
 
 	checkMagic(bf, 4, "TREE") // "SNOD"
+	h5.visit(addr)
 	nodeType := read8(bf)
 	nodeLevel := read8(bf)
 	entriesUsed := read16(bf)
@@ -1410,7 +1438,7 @@ func (h5 *HDF5) readSymbolTable(parent *object, addr uint64, heapAddr uint64) {
 	if nodeLevel > 0 {
 		logger.Infof("Start level %d", nodeLevel)
 	}
-	assert(leftAddress == invalidAddress && rightAddress == invalidAddress,
+	assert(!isTop || leftAddress == invalidAddress && rightAddress == invalidAddress,
 		"Siblings unexpected")
 	assert(nodeType == 0, "what we expect")
 	type keyAddr struct {
@@ -1428,6 +1456,10 @@ func (h5 *HDF5) readSymbolTable(parent *object, addr uint64, heapAddr uint64) {
 	lastKey := read64(bf)
 	logger.Infof("last key=%d", lastKey)
 	for _, v := range keyAddrs {
+		if nodeLevel > 0 {
+			h5.readSymbolTableNode(parent, v.addr, heapAddr, false)
+			continue
+		}
 		h5.readSymbolTableLeaf(parent, v.addr, heapAddr)
 	}
 }
@@ -1494,7 +1526,7 @@ func hexPrint(addr uint64) string {
 func (h5 *HDF5) isMagic(magic string, addr uint64) bool {
 	assert(addr != 0 && addr != invalidAddress,
 		fmt.Sprint("invalid address for checking magic number: ", hexPrint(addr)))
-	if addr+4 > uint64(h5.fileSize) {
+	if addr > uint64(h5.fileSize)-4 {
 		logger.Error("seeking past end of file -- probably a truncated file")
 		thrower.Throw(ErrCorrupted)
 		panic("not reached")
@@ -1900,6 +1932,7 @@ func (h5 *HDF5) readFillValue(bf io.Reader) []byte {
 		logger.Infof("zero length fill value")
 		return nil // zero-length, maybe they meant zero
 	}
+	assertError(int64(len) <= bf.(remReader).Rem(), ErrCorrupted, "fill value too long")
 	b := make([]byte, len)
 	read(bf, b)
 	logger.Infof("fill value=0x%x len=%d", b, len)
@@ -1951,6 +1984,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 		} else {
 			logger.Info("header message flag: NOT constant message")
 		}
+		assertError(!hasFlag8(hFlags, 1) || size == 0, ErrUnsupportedDataTypeVersion, "shared messages not supported")
 		if hasFlag8(hFlags, 2) {
 			logger.Info("header message flag: do not share message")
 		}
@@ -2032,6 +2066,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 			logger.Info("Fill value old")
 			sz := read32(f)
 			logger.Info("Fill value old size", sz)
+			assertError(int64(sz) <= f.Rem(), ErrCorrupted, "fill value too long")
 			fv := make([]byte, sz)
 			read(f, fv)
 			obj.fillValueOld = fv
@@ -2181,11 +2216,13 @@ func (h5 *HDF5) readContinuation(obj *object, obf io.Reader, version uint8, ohFl
 	offset := read64(obf)
 	size := read64(obf)
 	logger.Infof("continuation offset=%08x length=%d", offset, size)
+	h5.visit(offset)
 	bf := h5.newSeek(offset, int64(size))
 	chunkSize := size
 	start := 0
 	if version > 1 {
 		checkMagic(bf, 4, "OCHK")
+		assertError(size >= 8, ErrCorrupted, "continuation block too short")
 		chunkSize = size - 8 // minus magic & checksum
 		start = 4            // skip magic
 	}
@@ -2367,6 +2404,7 @@ func canonicalizePath(s string) string {
 // GetGroup gets the given group or returns an error if not found.
 // The group can start with "/" for absolute names, or relative.
 func (h5 *HDF5) GetGroup(group string) (g api.Group, err error) {
+	defer catchPanics(&err)
 	defer thrower.RecoverError(&err)
 	var groupName string
 	group = canonicalizePath(group)
@@ -2430,6 +2468,7 @@ func fileSize(file io.ReadSeeker) int64 {
 // Open is the implementation of the API netcdf.Open.
 // Using netcdf.Open is preferred over using this directly.
 func Open(fname string) (nc api.Group, err error) {
+	defer catchPanics(&err)
 	defer thrower.RecoverError(&err)
 	file, err := os.Open(fname)
 	if err != nil {
@@ -2445,6 +2484,7 @@ func Open(fname string) (nc api.Group, err error) {
 // New is the implementation of the API netcdf.New.
 // Using netcdf.New is preferred over using this directly.
 func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
+	defer catchPanics(&err)
 	defer thrower.RecoverError(&err)
 	fileSize := fileSize(file)
 	if f, ok := file.(*os.File); ok {
@@ -2461,6 +2501,7 @@ func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
 		groupObject:   nil,
 		registrations: make(map[string]any),
 		addrs:         make(map[uint64]bool),
+		blocks:        make(map[uint64]bool),
 		heapCache:     &globalHeapCache{collections: make(map[uint64]map[uint32][]byte)},
 		addrToName:    make(map[uint64]string),
 		attrLock:      &sync.Mutex{},
@@ -2468,6 +2509,7 @@ func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
 	h5.readSuperblock()
 	assert(h5.rootAddr != invalidAddress, "No root address")
 	h5.rootObject = newObject()
+	h5.addrs[h5.rootAddr] = true
 	h5.readDataObjectHeader(h5.rootObject, h5.rootAddr)
 	h5.groupObject = h5.rootObject
 	h5.groupObject.isGroup = true
@@ -2784,8 +2826,13 @@ loop:
 }
 
 // Attributes returns the global attributes for this group.
-func (h5 *HDF5) Attributes() api.AttributeMap {
-	// entry point, panic can bubble up
+func (h5 *HDF5) Attributes() (attrs api.AttributeMap) {
+	defer func() {
+		if attrs == nil {
+			attrs, _ = util.NewOrderedMap(nil, nil)
+		}
+	}()
+	defer noPanics()
 	assert(h5.groupObject != nil, "nil root object")
 	// They were parsed when the group was opened, unless a type has been registered since then
 	h5.parseAttributes(h5.groupObject)
@@ -2910,6 +2957,7 @@ func (h5 *HDF5) getTypeObj(typeName string) (*object, bool) {
 
 // GetType gets the CDL description of the type and sets the bool to true if found.
 func (h5 *HDF5) GetType(typeName string) (string, bool) {
+	defer noPanics()
 	obj, has := h5.getTypeObj(typeName)
 	if !has {
 		return "", false
@@ -2921,6 +2969,7 @@ func (h5 *HDF5) GetType(typeName string) (string, bool) {
 
 // GetGoType gets the Go description of the type and sets the bool to true if found.
 func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
+	defer noPanics()
 	obj, has := h5.groupObject.children[typeName]
 	if !has {
 		return "", false
@@ -2945,6 +2994,7 @@ func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
 
 // ListTypes returns the user-defined type names.
 func (h5 *HDF5) ListTypes() []string {
+	defer noPanics()
 	var ret []string
 	for _, obj := range h5.groupObject.sortChildren() {
 		if isType(obj) {
@@ -2956,6 +3006,7 @@ func (h5 *HDF5) ListTypes() []string {
 
 // ListDimensions lists the names of the dimensions in this group.
 func (h5 *HDF5) ListDimensions() []string {
+	defer noPanics()
 	var ret []string
 	children := h5.groupObject.sortChildren()
 	for _, obj := range children {
@@ -2973,12 +3024,16 @@ func (h5 *HDF5) ListDimensions() []string {
 // GetDimension returns the size of the given dimension and sets
 // the bool to true if found.
 func (h5 *HDF5) GetDimension(name string) (uint64, bool) {
+	defer noPanics()
 	for _, obj := range h5.groupObject.children {
 		if obj.isGroup {
 			continue
 		}
 		k := classifyObject(obj.attrlist)
 		if k.hasClass && (k.hasName || !k.hasCoordinates) && obj.name == name {
+			if len(obj.objAttr.dimensions) == 0 {
+				return 0, false
+			}
 			return obj.objAttr.dimensions[0], true
 		}
 	}
@@ -3064,7 +3119,43 @@ func (h5 *HDF5) parseAttributes(obj *object) {
 	}
 }
 
+// checkVariable fails if what describes the variable is inconsistent.
+func (h5 *HDF5) checkVariable(obj *object) {
+	attr := obj.objAttr
+	_, ok := arraySize(attr.dimensions, uint64(attr.length))
+	assertError(ok && attr.length > 0, ErrCorrupted, "bad shape")
+	// Even compressed data can't be that much longer than the file
+	assertError(uint64(attr.length) < 1<<24 || uint64(attr.length)/1100 < uint64(h5.fileSize),
+		ErrCorrupted, "element too long")
+	if len(attr.layout) == 0 {
+		return
+	}
+	assertError(len(attr.layout) == len(attr.dimensions), ErrCorrupted, "bad chunk shape")
+	for _, n := range attr.layout {
+		assertError(n > 0, ErrCorrupted, "bad chunk shape")
+	}
+	size, ok := arraySize(attr.layout, uint64(attr.length))
+	assertError(ok && size <= math.MaxUint32, ErrCorrupted, "chunk too big")
+	if obj.btreeAddr != 0 {
+		assertError(obj.chunkSize == uint64(attr.length) && int(obj.dimensionality) == len(attr.layout)+1,
+			ErrCorrupted, "bad chunk shape")
+	}
+}
+
 func (h5 *HDF5) attrValue(obj *object, a *attribute) any {
+	length := uint64(math.MaxUint16)
+	if a.df != nil {
+		length = max(length, uint64(len(a.df.bytes)))
+	}
+	size, ok := arraySize(a.dimensions, uint64(a.length))
+	if size == 0 {
+		// the other dimensions are still allocated
+		size = 1
+		for _, d := range a.dimensions {
+			size *= max(d, 1)
+		}
+	}
+	assertError(ok && size <= length, ErrCorrupted, "attribute too long")
 	sz := int64(calcAttrSize(a))
 	if a.df == nil {
 		logger.Info("Need fill value reader", a.name)
@@ -3153,7 +3244,8 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 			continue
 		}
 		logger.Infof("DIMENSION_LIST=%T 0x%x", a.value, a.value)
-		varLen := a.value.([][]uint64)
+		varLen, ok := a.value.([][]uint64)
+		assertError(ok, ErrCorrupted, "bad dimension list")
 		for _, v := range varLen {
 			for i, addr := range v {
 				// Each entry in the dimension list is a uint64 object address.
@@ -3172,8 +3264,8 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 	for _, a := range obj.attrlist {
 		switch a.name {
 		case "NAME":
-			nameValue := a.value.(string)
-			if !strings.HasPrefix(nameValue, "This is a netCDF dimension") {
+			nameValue, ok := a.value.(string)
+			if ok && !strings.HasPrefix(nameValue, "This is a netCDF dimension") {
 				return append(dimNames, nameValue)
 			}
 		}
@@ -3184,12 +3276,14 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 // GetVariable returns the named variable or sets the error if not found.
 func (h5 *HDF5) GetVariable(varName string) (av *api.Variable, err error) {
 	err = ErrInternal
+	defer catchPanics(&err)
 	defer thrower.RecoverError(&err)
 	found := h5.findVariable(varName)
 	if found == nil {
 		logger.Infof("variable %s not found", varName)
 		return nil, ErrNotFound
 	}
+	h5.checkVariable(found)
 	data := h5.getData(found)
 	if data == nil {
 		return nil, ErrNotFound
@@ -3209,12 +3303,14 @@ func (h5 *HDF5) GetVariable(varName string) (av *api.Variable, err error) {
 // smaller slices of a variable, in case the variable is very large and you want to
 // reduce memory usage.
 func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
+	defer catchPanics(&err)
 	defer thrower.RecoverError(&err)
 	found := h5.findVariable(varName)
 	if found == nil {
 		logger.Warnf("variable %s not found", varName)
 		return nil, ErrNotFound
 	}
+	h5.checkVariable(found)
 	h5.parseAttributes(found)
 	d := int64(0)
 	fakeEnd := false
@@ -3228,7 +3324,8 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 	default:
 		d = int64(found.objAttr.dimensions[0])
 	}
-	getSlice := func(begin, end int64) (any, error) {
+	getSlice := func(begin, end int64) (values any, err error) {
+		defer catchPanics(&err)
 		if begin == 0 && end == 1 && fakeEnd {
 			data := h5.getData(found)
 			if data == nil {
@@ -3251,7 +3348,8 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		}
 		return data, nil
 	}
-	getSliceMD := func(begin, end []int64) (any, error) {
+	getSliceMD := func(begin, end []int64) (values any, err error) {
+		defer catchPanics(&err)
 		if len(begin) != len(found.objAttr.dimensions) || len(end) != len(found.objAttr.dimensions) {
 			return nil, ErrDimensionality
 		}
@@ -3299,7 +3397,7 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 
 // ListSubgroups returns the names of the subgroups of this group.
 func (h5 *HDF5) ListSubgroups() []string {
-	// entry point
+	defer noPanics()
 	// Only go one level down
 	var ret []string
 	var sgDescend func(obj *object, group string)
@@ -3340,7 +3438,7 @@ func (obj *object) sortChildren() []*object {
 
 // ListVariables lists the variables in this group.
 func (h5 *HDF5) ListVariables() []string {
-	// entry point, panic can bubble up
+	defer noPanics()
 	var ret []string
 	var descend func(obj *object, group string)
 	descend = func(obj *object, group string) {
diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index d7537d0..e2ee370 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -129,6 +129,7 @@ func allocStrings(hr heapReader, bf io.Reader, dimLengths []uint64) any {
 			return ""
 		}
 		bff, sz := hr.readGlobalHeap(addr, index)
+		assert(bff != nil, "no such global heap object")
 		s := make([]byte, sz)
 		read(bff, s)
 		logger.Info("string=", string(s))
@@ -152,6 +153,7 @@ func allocStrings(hr heapReader, bf io.Reader, dimLengths []uint64) any {
 				continue
 			}
 			bff, sz := hr.readGlobalHeap(addr, index)
+			assert(bff != nil, "no such global heap object")
 			s := make([]byte, sz)
 			read(bff, s)
 			values[i] = getString(s)
@@ -190,6 +192,8 @@ func allocVariable(hr heapReader, c caster, bf io.Reader, dimLengths []uint64, a
 		} else {
 			bff, _ = hr.readGlobalHeap(addr, index)
 			assert(bff != nil, "no such global heap object")
+			assertError(uint64(length)*uint64(max(attr.length, 1)) <= uint64(bff.Rem()), ErrCorrupted,
+				"variable-length value too long")
 		}
 		var t reflect.Type
 		val0 = getDataAttr(hr, c, bff, attr)
-- 
2.43.0


From 9a012bb8b8578044c3182c78053259add0539130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 44/63] fix: recognise the kind of a file from its start,
 wherever the reader is

---
 netcdf/netcdf4.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/netcdf/netcdf4.go b/netcdf/netcdf4.go
index 9f676c6..59dc2cd 100644
--- a/netcdf/netcdf4.go
+++ b/netcdf/netcdf4.go
@@ -69,6 +69,10 @@ func New(file api.ReadSeekerCloser) (api.Group, error) {
 
 func getKind(file io.ReadSeeker) (byte, error) {
 	var b [1]byte
+	_, err := file.Seek(0, io.SeekStart)
+	if err != nil {
+		return 0, err
+	}
 	n, err := file.Read(b[:])
 	if n == 0 {
 		return 0, err
-- 
2.43.0


From 3367f75cbcc83ee0d19d9f9d0d05314d2ec8553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:47 +0000
Subject: [PATCH 45/63] fix: an error for slices of classic variables that no
 memory can hold

---
 netcdf/cdf/cdf.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 8cae55c..7c319e9 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -43,6 +43,8 @@ const (
 	typeUInt64
 )
 
+const maxSliceBytes = 1 << 47 // no slice in memory can be larger
+
 const ncpKey = "_NCProperties"
 
 type dimension struct {
@@ -101,6 +103,7 @@ var (
 	ErrInternal              = errors.New("internal error")
 	ErrDuplicateVariable     = errors.New("duplicate variable")
 	ErrTooManyDimensions     = errors.New("too many dimensions")
+	ErrTooLarge              = errors.New("too large for the memory")
 	ErrFillValue             = errors.New("fill value not a scalar")
 )
 
@@ -680,6 +683,9 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 			nChunks = int64(end - begin)
 		}
 		sliceSize := nChunks * chunkSize
+		if sliceSize > maxSliceBytes/elemSize {
+			return nil, ErrTooLarge
+		}
 		raw := make([]byte, sliceSize*elemSize)
 		if unlimited && !cdf.specialCase {
 			// one record at a time
-- 
2.43.0


From 9dd9f4ffd86bb556d0c01785430fa37dc963b88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 46/63] fix: variables that share an unlimited dimension have
 the same length in it, ending in fill values

---
 netcdf/hdf5/hdf5.go    | 75 +++++++++++++++++++++++++++++++++++++++---
 netcdf/hdf5/readers.go |  3 ++
 2 files changed, 74 insertions(+), 4 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 47e3843..ce92a8f 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -178,6 +178,8 @@ type attribute struct {
 	length        uint32 // datatype length
 	layout        []uint64
 	dimensions    []uint64 // for compound
+	unlimited     []bool   // which dimensions are unlimited
+	stored        []uint64 // what is stored, if less than dimensions
 	byteOffset    uint32   // for compound
 	isSlice       bool
 	firstDim      int64 // first dimension if getting slice (fake objects only)
@@ -643,7 +645,7 @@ func (h5 *HDF5) readAttribute(obj *object, obf io.Reader, creationOrder uint64)
 			checkVal(0, z, "zero pad")
 		}
 	}
-	dims, count := h5.readDataspace(newResetReader(bf, int64(dataspaceSize)))
+	dims, _, count := h5.readDataspace(newResetReader(bf, int64(dataspaceSize)))
 	if version == 1 {
 		padBytes(bf, 7)
 	}
@@ -1607,7 +1609,7 @@ func headerTypeToString(ty int) string {
 	return htts[ty]
 }
 
-func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64) {
+func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, []bool, int64) {
 	bf := obf.(remReader)
 	version := read8(bf)
 	logger.Info("dataspace message version=", version)
@@ -1645,10 +1647,13 @@ func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64) {
 		ret[i] = sz
 		count *= int64(sz)
 	}
+	var unlimited []bool
 	if hasFlag8(flags, 0) {
+		unlimited = make([]bool, d)
 		for i := range int(d) {
 			sz := read64(bf)
 			if sz == unlimitedSize {
+				unlimited[i] = true
 				logger.Infof("dataspace maximum dimension %d/%d UNLIMITED", i, d)
 			} else {
 				logger.Infof("dataspace maximum dimension %d/%d size=%d", i, d, sz)
@@ -1666,7 +1671,7 @@ func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64) {
 	if version == 2 && dstype == 2 && bf.Rem() > 0 {
 		logger.Info("Null v2 flags=", flags, "d=", d, "rem=", bf.Rem())
 	}
-	return ret, count
+	return ret, unlimited, count
 }
 
 func (h5 *HDF5) readFilterPipeline(obj *object, obf io.Reader) {
@@ -2041,7 +2046,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 
 		case typeDataspace:
 			obj.isGroup = false
-			obj.objAttr.dimensions, _ = h5.readDataspace(f)
+			obj.objAttr.dimensions, obj.objAttr.unlimited, _ = h5.readDataspace(f)
 			logger.Info("dimensions are", obj.objAttr.dimensions)
 
 		case typeLinkInfo:
@@ -2055,10 +2060,12 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 			logger.Info("Datatype")
 			// Preserve dimensions and noDf from the existing objAttr across the datatype re-read.
 			save := obj.objAttr.dimensions
+			unlimited := obj.objAttr.unlimited
 			noDf := obj.objAttr.noDf
 			obj.objAttr = h5.readDatatype(f)
 			logger.Info("dimensions are", obj.objAttr.dimensions)
 			obj.objAttr.dimensions = save
+			obj.objAttr.unlimited = unlimited
 			obj.objAttr.noDf = noDf
 
 		case typeDataStorageFillValueOld:
@@ -2516,6 +2523,7 @@ func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
 	h5.dumpObject(h5.rootObject)
 	h5.indexObjects(h5.rootObject)
 	h5.parseAttributes(h5.rootObject)
+	h5.extendVariables(h5.rootObject)
 	return api.Group(h5), nil
 }
 
@@ -3236,6 +3244,65 @@ func (h5 *HDF5) indexObjects(obj *object) {
 	}
 }
 
+// extendVariables gives variables that share an unlimited dimension the same length in it, which is
+// that of the longest. What they don't store was never written.
+func (h5 *HDF5) extendVariables(root *object) {
+	type use struct {
+		attr *attribute
+		dim  int
+	}
+	uses := make(map[uint64][]use) // by the address of the dimension
+	var collect func(obj *object)
+	collect = func(obj *object) {
+		for _, child := range obj.children {
+			collect(child)
+		}
+		attr := obj.objAttr
+		if obj.isGroup || len(attr.layout) == 0 || len(attr.layout) != len(attr.dimensions) ||
+			!slices.Contains(attr.unlimited, true) {
+			return
+		}
+		k := classifyObject(obj.attrlist)
+		if k.hasClass {
+			if k.hasName && len(attr.dimensions) == 1 {
+				uses[obj.addr] = append(uses[obj.addr], use{attr, 0})
+			}
+			return
+		}
+		for _, a := range obj.attrlist {
+			if a.name != "DIMENSION_LIST" {
+				continue
+			}
+			if a.value == nil {
+				a.value = h5.attrValue(obj, a)
+			}
+			list, ok := a.value.([][]uint64)
+			assertError(ok && len(list) <= len(attr.dimensions), ErrCorrupted, "bad dimension list")
+			for i, addrs := range list {
+				if attr.unlimited[i] && len(addrs) == 1 {
+					uses[addrs[0]] = append(uses[addrs[0]], use{attr, i})
+				}
+			}
+		}
+	}
+	collect(root)
+	for _, same := range uses {
+		length := uint64(0)
+		for _, u := range same {
+			length = max(length, u.attr.dimensions[u.dim])
+		}
+		for _, u := range same {
+			if u.attr.dimensions[u.dim] == length {
+				continue
+			}
+			if u.attr.stored == nil {
+				u.attr.stored = slices.Clone(u.attr.dimensions)
+			}
+			u.attr.dimensions[u.dim] = length
+		}
+	}
+}
+
 func (h5 *HDF5) getDimensions(obj *object) []string {
 	logger.Infof("Getting dimensions addr 0x%x", obj.addr)
 	dimNames := make([]string, 0)
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index ee7fe85..e8306b3 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -601,6 +601,9 @@ func (lr *layoutReader) fillrow() error {
 			if off < high[d] && high[d]-off > layout[d] {
 				end[d] = off + layout[d]
 			}
+			if attr.stored != nil {
+				end[d] = min(end[d], attr.stored[d])
+			}
 			empty = empty || begin[d] >= end[d]
 		}
 		if empty {
-- 
2.43.0


From 638f19b2a525a0058cca4e0d936ddd09516eb191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:05 +0000
Subject: [PATCH 47/63] fix: don't loop over the element size of the shuffle
 filter when it exceeds the chunk

---
 netcdf/hdf5/readers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index e8306b3..a508efa 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -321,8 +321,8 @@ func newUnshuffleReader(r io.Reader, size uint64, shuffleParam uint32) remReader
 }
 
 func unshuffle(val []byte, n uint32) {
-	if n == 1 {
-		return // avoids allocation
+	if n == 1 || uint64(len(val)) < 2*uint64(n) {
+		return // nothing to do
 	}
 	// shuffle params are never very large in practice, so this isn't wasteful
 	// of memory.
-- 
2.43.0


From 876a2226ad35219102120b4b9f9c32f7a9dd9b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:15 +0000
Subject: [PATCH 48/63] fix: keep the chunk shape of variables whose datatype
 message comes after their layout

---
 netcdf/hdf5/hdf5.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index ce92a8f..ea3c07d 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2058,14 +2058,16 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 		case typeDatatype:
 			obj.isGroup = false
 			logger.Info("Datatype")
-			// Preserve dimensions and noDf from the existing objAttr across the datatype re-read.
+			// Preserve what other messages set in the existing objAttr across the datatype re-read.
 			save := obj.objAttr.dimensions
 			unlimited := obj.objAttr.unlimited
+			layout := obj.objAttr.layout
 			noDf := obj.objAttr.noDf
 			obj.objAttr = h5.readDatatype(f)
 			logger.Info("dimensions are", obj.objAttr.dimensions)
 			obj.objAttr.dimensions = save
 			obj.objAttr.unlimited = unlimited
+			obj.objAttr.layout = layout
 			obj.objAttr.noDf = noDf
 
 		case typeDataStorageFillValueOld:
-- 
2.43.0


From 487c41c1b1b49a7ff1149ae5a21e8f470279126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:31 +0000
Subject: [PATCH 49/63] fix: read only the parts that multi-dimensional slices
 ask for

---
 netcdf/cdf/cdf.go      | 192 ++++++++++++++++++++++++++++-------------
 netcdf/hdf5/hdf5.go    |  91 +++++++++----------
 netcdf/hdf5/readers.go | 184 ++++++++++++++++++++++++++++++++++-----
 3 files changed, 333 insertions(+), 134 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 7c319e9..338d32d 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -12,6 +12,7 @@ import (
 	"math/bits"
 	"os"
 	"reflect"
+	"slices"
 	"sync"
 
 	"github.com/batchatco/go-native-netcdf/internal"
@@ -45,6 +46,11 @@ const (
 
 const maxSliceBytes = 1 << 47 // no slice in memory can be larger
 
+const (
+	maxGap      = 4096  // bytes from one run of elements to the next one that is read with it
+	maxTogether = 65536 // bytes to read together
+)
+
 const ncpKey = "_NCProperties"
 
 type dimension struct {
@@ -619,7 +625,6 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 	dimNames := make([]string, len(varFound.dimids))
 
 	elemSize := typeSize(varFound.vType)
-	totalSize := int64(1)
 	totalBytes := uint64(elemSize)
 	unlimited := false
 	for i := range dimLengths {
@@ -642,7 +647,6 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 		var ok bool
 		totalBytes, ok = multiply(totalBytes, dimLengths[i])
 		assert(ok && dimLengths[i] <= math.MaxInt64, "variable too large", ErrCorruptedFile)
-		totalSize *= int64(dimLengths[i])
 	}
 	if unlimited {
 		var ok bool
@@ -650,52 +654,23 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 		assert(ok, "records too large", ErrCorruptedFile)
 	}
 	assert(varFound.begin <= math.MaxInt64-totalBytes, "variable too large", ErrCorruptedFile)
-	var chunkSize int64
-	length := int64(0)
-	switch {
-	case len(dimLengths) == 0:
-		chunkSize = totalSize
-		length = 1
-	case dimLengths[0] == 0:
-		chunkSize = totalSize
-		length = 0
-	default:
-		chunkSize = totalSize / int64(dimLengths[0])
+	length := int64(1)
+	if len(dimLengths) > 0 {
 		length = int64(dimLengths[0])
 	}
-	getSlice := func(begin, end int64) (any, error) {
-		if begin < 0 || end < begin || end > length {
-			return nil, errors.New("invalid slice parameters")
-		}
-		if len(dimLengths) == 0 && begin == end {
-			// scalars have no empty slice
-			return nil, errors.New("invalid slice parameters")
+	// read reads the part of the variable that starts at begin and has the given numbers of elements
+	// in each dimension.
+	read := func(begin []int64, counts []uint64) (any, error) {
+		sliceSize := int64(1)
+		for _, n := range counts {
+			sliceSize *= int64(n)
 		}
-		var nChunks int64
-		switch {
-		case len(dimLengths) == 0:
-			// scalar
-			nChunks = 1
-		case dimLengths[0] == 0:
-			// unlimited
-			nChunks = 0
-		default:
-			nChunks = int64(end - begin)
-		}
-		sliceSize := nChunks * chunkSize
 		if sliceSize > maxSliceBytes/elemSize {
 			return nil, ErrTooLarge
 		}
 		raw := make([]byte, sliceSize*elemSize)
-		if unlimited && !cdf.specialCase {
-			// one record at a time
-			recordSize := chunkSize * elemSize
-			for i := int64(0); i < nChunks; i++ {
-				cdf.readFilled(&varFound, raw[i*recordSize:(i+1)*recordSize],
-					int64(varFound.begin)+(begin+i)*int64(cdf.recSize), elemSize)
-			}
-		} else {
-			cdf.readFilled(&varFound, raw, int64(varFound.begin)+begin*chunkSize*elemSize, elemSize)
+		if sliceSize > 0 {
+			cdf.readBox(&varFound, raw, dimLengths, begin, counts, elemSize)
 		}
 
 		var data any
@@ -740,17 +715,29 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 		if err != nil {
 			return nil, err
 		}
-		dimLengthsCopy := make([]uint64, len(dimLengths))
-		copy(dimLengthsCopy, dimLengths)
-		if len(dimLengthsCopy) > 0 {
-			dimLengthsCopy[0] = uint64(nChunks)
-		}
-		converted := cdf.convert(data, dimLengthsCopy, varFound.vType)
+		converted := cdf.convert(data, counts, varFound.vType)
 		if converted == nil {
 			thrower.Throw(ErrInternal)
 		}
 		return converted, nil
 	}
+	getSlice := func(begin, end int64) (any, error) {
+		if begin < 0 || end < begin || end > length {
+			return nil, errors.New("invalid slice parameters")
+		}
+		if len(dimLengths) == 0 {
+			if begin == end {
+				// scalars have no empty slice
+				return nil, errors.New("invalid slice parameters")
+			}
+			return read(nil, nil)
+		}
+		first := make([]int64, len(dimLengths))
+		first[0] = begin
+		counts := append([]uint64{}, dimLengths...)
+		counts[0] = uint64(end - begin)
+		return read(first, counts)
+	}
 	getSliceMD := func(begin, end []int64) (any, error) {
 		if len(begin) != len(dimLengths) || len(end) != len(dimLengths) {
 			return nil, ErrTooManyDimensions
@@ -763,24 +750,30 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 				return nil, errors.New("invalid slice parameters")
 			}
 		}
-		// Optimize: only read the required range of the first dimension from disk
-		partialData, err := getSlice(begin[0], end[0])
+		first := make([]int64, len(begin))
+		counts := make([]uint64, len(begin))
+		for i := range begin {
+			counts[i] = uint64(end[i] - begin[i])
+			first[i] = begin[i]
+		}
+		empty := slices.Index(counts, 0)
+		if empty <= 0 {
+			return read(first, counts)
+		}
+		// Rows that are empty
+		newEnd := make([]int64, len(counts))
+		for i := range counts {
+			newEnd[i] = int64(counts[i])
+		}
+		for i := empty; i < len(counts); i++ {
+			first[i] = 0
+			counts[i] = 1
+		}
+		rows, err := read(first, counts)
 		if err != nil {
 			return nil, err
 		}
-		newDims := make([]uint64, len(dimLengths))
-		copy(newDims, dimLengths)
-		newDims[0] = uint64(end[0] - begin[0])
-
-		newBegin := make([]int64, len(begin))
-		copy(newBegin, begin)
-		newBegin[0] = 0 // Already sliced first dim on disk
-
-		newEnd := make([]int64, len(end))
-		copy(newEnd, end)
-		newEnd[0] = end[0] - begin[0]
-
-		return internal.SliceMD(partialData, newDims, newBegin, newEnd)
+		return internal.SliceMD(rows, counts, make([]int64, len(counts)), newEnd)
 	}
 	shape := make([]int64, len(dimLengths))
 	for i, v := range dimLengths {
@@ -919,6 +912,81 @@ func (cdf *CDF) readFilled(v *variable, p []byte, offset int64, elemSize int64)
 	thrower.ThrowIfError(err)
 }
 
+// readBox reads the elements from begin, and as many in each dimension as counts says, into p, which
+// has the size for them. It doesn't read much else.
+func (cdf *CDF) readBox(v *variable, p []byte, dimLengths []uint64, begin []int64, counts []uint64, elemSize int64) {
+	byRecord := len(dimLengths) > 0 && !cdf.specialCase && cdf.hasUnlimitedDimension(v.dimids)
+	// The distance between neighbors in each dimension
+	strides := make([]int64, len(dimLengths))
+	stride := elemSize
+	for i := len(dimLengths) - 1; i >= 0; i-- {
+		strides[i] = stride
+		stride *= int64(dimLengths[i])
+	}
+	if byRecord {
+		strides[0] = int64(cdf.recSize)
+	}
+	// Elements are contiguous in the last dimensions
+	runSize := elemSize
+	outer := len(dimLengths)
+	for outer > 0 {
+		outer--
+		if outer == 0 && byRecord {
+			outer = 1
+			break
+		}
+		runSize *= int64(counts[outer])
+		if counts[outer] != dimLengths[outer] {
+			break
+		}
+	}
+	offset := int64(v.begin)
+	for i := range begin {
+		offset += begin[i] * strides[i]
+	}
+	// Runs that are close to each other are read together
+	rows, rowStride := int64(1), runSize
+	if outer > 0 && strides[outer-1] <= maxGap && !(outer == 1 && byRecord) {
+		outer--
+		rows, rowStride = int64(counts[outer]), strides[outer]
+	}
+	var together []byte
+	index := make([]uint64, outer)
+	for {
+		for done := int64(0); done < rows; {
+			n := min(rows-done, max(1, maxTogether/rowStride))
+			from := offset + done*rowStride
+			if n == 1 {
+				cdf.readFilled(v, p[:runSize], from, elemSize)
+				p = p[runSize:]
+			} else {
+				if together == nil {
+					together = make([]byte, n*rowStride)
+				}
+				block := together[:(n-1)*rowStride+runSize]
+				cdf.readFilled(v, block, from, elemSize)
+				for i := range n {
+					p = p[copy(p[:runSize], block[i*rowStride:]):]
+				}
+			}
+			done += n
+		}
+		i := outer - 1
+		for ; i >= 0; i-- {
+			index[i]++
+			offset += strides[i]
+			if index[i] < counts[i] {
+				break
+			}
+			offset -= int64(counts[i]) * strides[i]
+			index[i] = 0
+		}
+		if i < 0 {
+			return
+		}
+	}
+}
+
 func emptySlice(v any, dimLengths []uint64, vType uint32) any {
 	top := reflect.ValueOf(v)
 	elemType := top.Type().Elem()
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index ea3c07d..abcd65c 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2557,22 +2557,20 @@ func makeSlices(ty reflect.Type, dimLengths []uint64) reflect.Value {
 
 // newRecordReader reads variables that are not chunked.
 func (h5 *HDF5) newRecordReader(obj *object) remReader {
-	size := calcDataSize(obj.objAttr) * uint64(obj.objAttr.length)
-	if size == 0 {
+	attr := obj.objAttr
+	if calcAttrSize(attr) == 0 {
 		return newResetReaderFromBytes([]byte{})
 	}
-	logger.Info("size=", size, "dtlength=", obj.objAttr.length, "dims=", obj.objAttr.dimensions)
-	firstOffset := uint64(0)
-	lastOffset := uint64(size)
+	low, high := sliceBox(attr)
+	return newBoxReader(attr.dimensions, low, high, uint64(attr.length), func(first, last uint64) io.Reader {
+		return h5.newRangeReader(obj, first, last)
+	})
+}
+
+// newRangeReader reads a range of the bytes of a variable that is not chunked.
+func (h5 *HDF5) newRangeReader(obj *object, firstOffset, lastOffset uint64) io.Reader {
+	size := lastOffset - firstOffset
 	segments := newSegments()
-	if obj.objAttr.isSlice {
-		if len(obj.objAttr.dimensions) > 0 && obj.objAttr.dimensions[0] > 0 {
-			dimSize := size / obj.objAttr.dimensions[0]
-			firstOffset = uint64(obj.objAttr.firstDim) * dimSize
-			lastOffset = uint64(obj.objAttr.lastDim) * dimSize
-			size = lastOffset - firstOffset
-		}
-	}
 	dataBlocks := obj.dataBlocks
 	if len(dataBlocks) == 0 {
 		logger.Info("No blocks, filling only", size, obj.objAttr.dimensions)
@@ -2695,6 +2693,10 @@ func makeFillValueReader(obj *object, bf io.Reader, length int64) remReader {
 func (h5 *HDF5) getData(obj *object) any {
 	attr := obj.objAttr
 	sz := calcDataSize(attr) * uint64(attr.length)
+	if attr.isSlice || attr.isSliceMD {
+		low, high := sliceBox(attr)
+		sz = boxSize(low, high) * uint64(attr.length)
+	}
 	bf := h5.newMaybeLayoutRecordReader(obj)
 	logger.Info("about to getdataattr rem=", bf.(remReader).Rem(), "size=", sz)
 	if int64(sz) > bf.(remReader).Rem() {
@@ -2702,24 +2704,7 @@ func (h5 *HDF5) getData(obj *object) any {
 		logger.Info("Add fill value reader", length)
 		bf = makeFillValueReader(obj, bf, int64(sz))
 	}
-	var bff io.Reader
-	if attr.isSlice {
-		assert(attr.lastDim >= attr.firstDim, "bad slice params")
-		var chunkSize int64
-		switch {
-		case len(attr.dimensions) == 0:
-			chunkSize = 1
-		case attr.dimensions[0] == 0:
-			chunkSize = 0
-		default:
-			chunkSize = int64(calcDataSize(attr)*uint64(attr.length)) / int64(attr.dimensions[0])
-		}
-		sliceSize := chunkSize * (attr.lastDim - attr.firstDim)
-		bff = newResetReader(bf, sliceSize)
-	} else {
-		bff = newResetReader(bf, int64(sz))
-	}
-	return getDataAttr(h5, h5, bff, *attr)
+	return getDataAttr(h5, h5, newResetReader(bf, int64(sz)), *attr)
 }
 
 func getDataAttr(hr heapReader, c caster, bf io.Reader, attr attribute) any {
@@ -3430,28 +3415,34 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 				return nil, errors.New("invalid slice parameters")
 			}
 		}
-		// Optimize: only read the required range of the first dimension from disk
-		partialData, err := getSlice(begin[0], end[0])
-		if err != nil {
-			return nil, err
+		fakeObj := *found
+		fakeAttr := *found.objAttr // the original must not become a slice
+		fakeAttr.isSliceMD = true
+		fakeAttr.firstDims = slices.Clone(begin)
+		fakeAttr.lastDims = slices.Clone(end)
+		fakeObj.objAttr = &fakeAttr
+		last := len(begin) - 1
+		chars := fakeAttr.class == typeString && fakeAttr.length == 1
+		if chars {
+			// The last dimension is the length of strings, which may end early
+			fakeAttr.firstDims[last] = 0
 		}
-		newDims := make([]uint64, len(found.objAttr.dimensions))
-		copy(newDims, found.objAttr.dimensions)
-		newDims[0] = uint64(end[0] - begin[0])
-
+		data := h5.getData(&fakeObj)
+		if data == nil {
+			return nil, ErrNotFound
+		}
+		if !chars {
+			return data, nil
+		}
+		newDims := make([]uint64, len(begin))
 		newBegin := make([]int64, len(begin))
-		copy(newBegin, begin)
-		newBegin[0] = 0 // Already sliced first dim on disk
-
-		newEnd := make([]int64, len(end))
-		copy(newEnd, end)
-		newEnd[0] = end[0] - begin[0]
-
-		if enum, ok := partialData.(enumerated); ok {
-			enum.values, err = internal.SliceMD(enum.values, newDims, newBegin, newEnd)
-			return enum, err
+		newEnd := make([]int64, len(begin))
+		for i := range begin {
+			newEnd[i] = end[i] - fakeAttr.firstDims[i]
+			newDims[i] = uint64(newEnd[i])
 		}
-		return internal.SliceMD(partialData, newDims, newBegin, newEnd)
+		newBegin[last] = begin[last]
+		return internal.SliceMD(data, newDims, newBegin, newEnd)
 	}
 	dims := h5.getDimensions(found)
 	shape := make([]int64, len(found.objAttr.dimensions))
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index a508efa..dafe4b8 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -5,12 +5,14 @@ package hdf5
 import (
 	"bufio"
 	"bytes"
+	"cmp"
 	"compress/zlib"
 	"fmt"
 	"io"
 	"math"
 	"math/bits"
 	"os"
+	"slices"
 	"sync"
 
 	"github.com/batchatco/go-native-netcdf/netcdf/util"
@@ -542,12 +544,146 @@ func calcDataSize(attr *attribute) uint64 {
 	return dataSize
 }
 
-// sliceRows returns the range of the first dimension that is to be read.
-func sliceRows(attr *attribute) (first, last uint64) {
-	if attr.isSlice {
-		return uint64(attr.firstDim), uint64(attr.lastDim)
+// sliceBox returns the range that is to be read in each dimension.
+func sliceBox(attr *attribute) (low, high []uint64) {
+	low = make([]uint64, len(attr.dimensions))
+	high = slices.Clone(attr.dimensions)
+	switch {
+	case attr.isSlice:
+		if len(high) > 0 {
+			low[0], high[0] = uint64(attr.firstDim), uint64(attr.lastDim)
+		}
+	case attr.isSliceMD:
+		for i := range low {
+			low[i], high[i] = uint64(attr.firstDims[i]), uint64(attr.lastDims[i])
+		}
+	}
+	return low, high
+}
+
+// boxSize returns the number of elements in a box.
+func boxSize(low, high []uint64) uint64 {
+	n := uint64(1)
+	for i := range low {
+		n *= high[i] - low[i]
 	}
-	return 0, attr.dimensions[0]
+	return n
+}
+
+const (
+	maxGap      = 4096  // bytes from one run of elements to the next one that is read with it
+	maxTogether = 65536 // bytes to read together
+)
+
+// boxReader reads the elements that are in a box from a variable that is not chunked.
+type boxReader struct {
+	read      func(first, last uint64) io.Reader // reads a range of bytes of the variable
+	strides   []uint64                           // bytes between neighbors in each of the outer dimensions
+	counts    []uint64                           // how many to read in each of them
+	index     []uint64                           // the next one to read
+	offset    uint64                             // where it is
+	runSize   uint64                             // size of the contiguous bytes there
+	rows      uint64                             // how many of them to read together
+	rowStride uint64                             // their distance
+	row       uint64                             // the next one of them
+	done      bool
+	cur       io.Reader // what is being read
+	size      int64
+	count     int64
+}
+
+func newBoxReader(dims, low, high []uint64, elemSize uint64, read func(first, last uint64) io.Reader) remReader {
+	size := boxSize(low, high) * elemSize
+	br := &boxReader{read: read, runSize: elemSize, size: int64(size), done: size == 0}
+	strides := make([]uint64, len(dims))
+	counts := make([]uint64, len(dims))
+	stride := elemSize
+	for i := len(dims) - 1; i >= 0; i-- {
+		strides[i] = stride
+		counts[i] = high[i] - low[i]
+		br.offset += low[i] * stride
+		stride *= dims[i]
+	}
+	// Elements are contiguous in the last dimensions
+	outer := len(dims)
+	for outer > 0 {
+		outer--
+		br.runSize *= counts[outer]
+		if counts[outer] != dims[outer] {
+			break
+		}
+	}
+	br.rows, br.rowStride = 1, br.runSize
+	if outer > 0 && strides[outer-1] <= maxGap {
+		outer--
+		br.rows, br.rowStride = counts[outer], strides[outer]
+	}
+	br.strides, br.counts, br.index = strides[:outer], counts[:outer], make([]uint64, outer)
+	return br
+}
+
+// next starts reading the next runs.
+func (br *boxReader) next() error {
+	n := min(br.rows-br.row, max(1, maxTogether/br.rowStride))
+	from := br.offset + br.row*br.rowStride
+	r := br.read(from, from+(n-1)*br.rowStride+br.runSize)
+	if n == 1 {
+		br.cur = newExactReader(r, br.runSize)
+	} else {
+		b := readBytes(r, (n-1)*br.rowStride+br.runSize)
+		runs := make([]byte, 0, n*br.runSize)
+		for i := range n {
+			runs = append(runs, b[i*br.rowStride:][:br.runSize]...)
+		}
+		br.cur = bytes.NewReader(runs)
+	}
+	br.row += n
+	if br.row < br.rows {
+		return nil
+	}
+	br.row = 0
+	for i := len(br.index) - 1; i >= 0; i-- {
+		br.index[i]++
+		br.offset += br.strides[i]
+		if br.index[i] < br.counts[i] {
+			return nil
+		}
+		br.offset -= br.counts[i] * br.strides[i]
+		br.index[i] = 0
+	}
+	br.done = true
+	return nil
+}
+
+func (br *boxReader) Read(p []byte) (int, error) {
+	for len(p) > 0 {
+		if br.cur == nil {
+			if br.done {
+				return 0, io.EOF
+			}
+			if err := br.next(); err != nil {
+				return 0, err
+			}
+		}
+		n, err := br.cur.Read(p)
+		if err == io.EOF {
+			br.cur = nil
+			err = nil
+		}
+		br.count += int64(n)
+		if n > 0 || err != nil {
+			return n, err
+		}
+	}
+	return 0, nil
+}
+
+func (br *boxReader) Rem() int64 {
+	return br.size - br.count
+}
+
+func (br *boxReader) Count() int64 {
+	return br.count
 }
 
 // fillrow reads one slab of chunks, and puts their rows into lr.buf in the order of the variable.
@@ -559,26 +695,23 @@ func (lr *layoutReader) fillrow() error {
 	rank := len(dims)
 
 	// What is wanted from this slab
-	firstRow, lastRow := sliceRows(attr)
-	if lr.slabStart >= lastRow {
+	low, high := sliceBox(attr)
+	if lr.slabStart >= high[0] {
 		return io.EOF
 	}
-	low := make([]uint64, rank)
-	high := append([]uint64{}, dims...)
-	low[0] = max(firstRow, lr.slabStart)
-	high[0] = lastRow
-	if lastRow-lr.slabStart > layout[0] {
+	low[0] = max(low[0], lr.slabStart)
+	if high[0]-lr.slabStart > layout[0] {
 		high[0] = lr.slabStart + layout[0]
 	}
 
-	// Number of elements between neighbors in each dimension of the variable
+	// Number of elements between neighbors in each dimension of what is wanted
 	stride := make([]uint64, rank)
 	n := uint64(1)
 	for i := rank - 1; i >= 0; i-- {
 		stride[i] = n
-		n *= dims[i]
+		n *= high[i] - low[i]
 	}
-	size := (high[0] - low[0]) * stride[0] * dtLength
+	size := n * dtLength
 	lr.buf = make([]byte, size)
 	// Chunks may be missing
 	_, err := io.ReadFull(makeFillValueReader(lr.obj, nil, int64(size)), lr.buf)
@@ -586,8 +719,8 @@ func (lr *layoutReader) fillrow() error {
 		return err
 	}
 
-	for i := range lr.chunks {
-		block := &lr.chunks[i]
+	for ; len(lr.chunks) > 0 && lr.chunks[0].offsets[0] <= lr.slabStart; lr.chunks = lr.chunks[1:] {
+		block := &lr.chunks[0]
 		if block.offsets[0] != lr.slabStart {
 			continue
 		}
@@ -674,15 +807,19 @@ func (h5 *HDF5) newLayoutReader(obj *object) io.Reader {
 	if size == 0 {
 		return newResetReaderFromBytes([]byte{})
 	}
-	first, last := sliceRows(attr)
-	rowSize := size / attr.dimensions[0]
-	slabStart := first / attr.layout[0] * attr.layout[0]
-	lr := &layoutReader{h5: h5, obj: obj, chunks: obj.dataBlocks, size: int64(rowSize * (last - first)), slabStart: slabStart}
+	low, high := sliceBox(attr)
+	size = boxSize(low, high) * uint64(attr.length)
+	if size == 0 {
+		return newResetReaderFromBytes([]byte{})
+	}
+	rowSize := calcAttrSize(attr) / attr.dimensions[0]
+	slabStart := low[0] / attr.layout[0] * attr.layout[0]
+	lr := &layoutReader{h5: h5, obj: obj, chunks: slices.Clone(obj.dataBlocks), size: int64(size), slabStart: slabStart}
 	if len(lr.chunks) == 0 && obj.btreeAddr != 0 {
 		tmp := *obj // collects the blocks
 		// The keys of the b-tree are ordered by the position of the chunks in the variable
 		h5.readBTreeNode(&tmp, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality,
-			slabStart*rowSize, last*rowSize)
+			slabStart*rowSize, high[0]*rowSize)
 		lr.chunks = tmp.dataBlocks
 	}
 	for _, block := range lr.chunks {
@@ -691,5 +828,8 @@ func (h5 *HDF5) newLayoutReader(obj *object) io.Reader {
 			assertError(off%attr.layout[d] == 0, ErrCorrupted, "bad chunk index")
 		}
 	}
+	slices.SortStableFunc(lr.chunks, func(a, b dataBlock) int {
+		return cmp.Compare(a.offsets[0], b.offsets[0])
+	})
 	return lr
 }
-- 
2.43.0


From 7133c289543b1b85be4a8f2b4aebb9ff05c6a9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 50/63] fix: scalar characters of CDF files are bytes, not code
 points

---
 netcdf/cdf/cdf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 338d32d..ca99c08 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -1016,7 +1016,7 @@ func (cdf *CDF) convert(data any, dimLengths []uint64, vType uint32) any {
 
 		case typeChar:
 			v := data.([]byte)
-			return string(v[0])
+			return string(v[:1])
 
 		case typeShort:
 			v := data.([]int16)
-- 
2.43.0


From 86228b423af7a4c5203fe04085915193b0b7159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:28 +0000
Subject: [PATCH 51/63] fix: don't allocate absurd elements to get the type of
 empty variable-length values

---
 netcdf/hdf5/hdf5.go  | 10 +++++++---
 netcdf/hdf5/types.go |  1 +
 netcdf/hdf5/vlen.go  |  1 +
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index abcd65c..f711568 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3114,14 +3114,18 @@ func (h5 *HDF5) parseAttributes(obj *object) {
 	}
 }
 
+// canHold returns whether the file may have elements of the given length.
+// Even compressed data can't be that much longer than the file.
+func (h5 *HDF5) canHold(length uint64) bool {
+	return length < 1<<24 || length/1100 < uint64(h5.fileSize)
+}
+
 // checkVariable fails if what describes the variable is inconsistent.
 func (h5 *HDF5) checkVariable(obj *object) {
 	attr := obj.objAttr
 	_, ok := arraySize(attr.dimensions, uint64(attr.length))
 	assertError(ok && attr.length > 0, ErrCorrupted, "bad shape")
-	// Even compressed data can't be that much longer than the file
-	assertError(uint64(attr.length) < 1<<24 || uint64(attr.length)/1100 < uint64(h5.fileSize),
-		ErrCorrupted, "element too long")
+	assertError(h5.canHold(uint64(attr.length)), ErrCorrupted, "element too long")
 	if len(attr.layout) == 0 {
 		return
 	}
diff --git a/netcdf/hdf5/types.go b/netcdf/hdf5/types.go
index 82be5db..885505a 100644
--- a/netcdf/hdf5/types.go
+++ b/netcdf/hdf5/types.go
@@ -20,6 +20,7 @@ type typeManager interface {
 
 type heapReader interface {
 	readGlobalHeap(heapAddress uint64, index uint32) (remReader, uint64)
+	canHold(length uint64) bool // true if an element of that length is plausible
 }
 
 type caster interface {
diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index e2ee370..ab2d1b2 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -186,6 +186,7 @@ func allocVariable(hr heapReader, c caster, bf io.Reader, dimLengths []uint64, a
 		var bff remReader
 		if length == 0 {
 			// If there's no value to read, we fake one to get the type.
+			assertError(hr.canHold(uint64(attr.length)), ErrCorrupted, "element too long")
 			attr.dimensions = nil
 			s = make([]byte, attr.length)
 			bff = newResetReaderFromBytes(s)
-- 
2.43.0


From fd6d4f8bfb6905d10cb6563170e11006d3f3c54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:29 +0000
Subject: [PATCH 52/63] fix: slices that begin in the last chunk of a
 multi-level chunk index

---
 netcdf/hdf5/hdf5.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index f711568..d147122 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -1055,13 +1055,15 @@ func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, isTop bool,
 		for d := uint8(0); d < dimensionality-1; d++ {
 			entries[i].offsets[d] = read64(bf)
 		}
-		read64(bf) // last offset must be zero
+		// The last offset is in the bytes of the element. It's zero, except in keys that come after
+		// all of the chunks.
+		elemOffset := read64(bf)
 		if i < int(entriesUsed) {
 			entries[i].addr = read64(bf)
 		}
 		if parent.objAttr.dimensions != nil {
 			entries[i].flatOffset = calculateFlatOffsetFromKeys(entries[i].offsets,
-				parent.objAttr.dimensions, dtSize)
+				parent.objAttr.dimensions, dtSize) + elemOffset
 		}
 	}
 
-- 
2.43.0


From 0aa4917c3ede7f62077de6ca49491e615639edf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:10 +0000
Subject: [PATCH 53/63] fix: attributes that are arrays of fixed-length strings

---
 netcdf/hdf5/string.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/netcdf/hdf5/string.go b/netcdf/hdf5/string.go
index 42dc7b2..5c2b908 100644
--- a/netcdf/hdf5/string.go
+++ b/netcdf/hdf5/string.go
@@ -40,6 +40,12 @@ func (stringManagerType) parse(hr heapReader, c caster, attr *attribute, bitFiel
 		logger.Infof("no data")
 		return
 	}
+	if len(attr.dimensions) > 0 {
+		size, ok := arraySize(attr.dimensions, uint64(attr.length))
+		assertError(ok && size <= uint64(df.Rem()), ErrCorrupted, "string attribute too long")
+		attr.value = allocRegularStrings(df, attr.dimensions, attr.length)
+		return
+	}
 	b := make([]byte, df.Rem())
 	read(df, b)
 	logger.Infof("* string padding=%d set=%d b[%s]=%s", padding, set,
-- 
2.43.0


From 449b108e178c95ea4ec11a7eed5fed2073eeb97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:38 +0000
Subject: [PATCH 54/63] fix: chunks that inflate to more than a chunk are
 corrupted

---
 netcdf/hdf5/readers.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index dafe4b8..523dd97 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -462,6 +462,7 @@ func (h5 *HDF5) readFiltered(filters []filter, block *dataBlock) []byte {
 			b = readBytes(z, sizes[i])
 			// Its checksum is verified at the end
 			_, err = io.ReadFull(z, make([]byte, 1))
+			assertError(err != nil, ErrCorrupted, "chunk too long")
 			if err != io.EOF {
 				thrower.ThrowIfError(err)
 			}
-- 
2.43.0


From 3c28f74d5a1f4e6b981ffc26d1a5ad07b195c108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:38 +0000
Subject: [PATCH 55/63] fix: verify the checksums of the direct blocks of
 fractal heaps

---
 netcdf/hdf5/hdf5.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index d147122..35c0af6 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -243,6 +243,8 @@ type linkInfo struct {
 	tableWidth       uint16
 	maximumBlockSize uint64
 	depth            int                   // of the indirect block
+	checksums        bool                  // the direct blocks have checksums
+	checked          map[uint64]bool       // the direct blocks whose checksums have been verified
 	hugeAddress      uint64                // b-tree of the objects too big for the heap's blocks
 	hugeObjects      map[uint64]hugeObject // what is in that b-tree, once read
 }
@@ -373,6 +375,17 @@ func (h5 *HDF5) checkChecksum(addr uint64, blen int) {
 	assert(hash == sum, "checksum mismatch")
 }
 
+// checkChecksumInside verifies a checksum that is inside of the block it is of. It is computed as if
+// the checksum were zero.
+func (h5 *HDF5) checkChecksumInside(addr uint64, size uint64, sumOffset uint64) {
+	block := readBytes(h5.newSeek(addr, int64(size)), size)
+	sum := binary.LittleEndian.Uint32(block[sumOffset:])
+	clear(block[sumOffset : sumOffset+4])
+	hash := checksum(block)
+	logger.Infof("checksum 0x%x (expected 0x%x) length=%d", hash, sum, size)
+	assert(hash == sum, "checksum mismatch")
+}
+
 func computeChecksumStream(bf io.Reader, blen int) uint32 {
 	ilen := blen / 4 // number of integers
 	rem := blen % 4  // remaining bytes if blen is not a multiple of 4
@@ -684,6 +697,7 @@ func (h5 *HDF5) doDoubling(obj *object, link *linkInfo, offset uint64, length ui
 		}
 	}
 	if offset < blockSize && blockToUse != invalidAddress {
+		h5.checkDirectBlock(link, blockToUse, blockSize)
 		callback(obj, blockToUse, offset, length, creationOrder)
 		return
 	}
@@ -726,6 +740,20 @@ func (h5 *HDF5) readLinkData(obj *object, link *linkInfo, offset uint64, length
 	h5.doDoubling(obj, link, offset, length, creationOrder, callback)
 }
 
+// checkDirectBlock verifies the checksum of a direct block of a fractal heap, once.
+func (h5 *HDF5) checkDirectBlock(link *linkInfo, addr uint64, size uint64) {
+	if !link.checksums || link.checked[addr] {
+		return
+	}
+	// signature=4 version=1 heapaddr=8 blockoffset=(calc) checksum=4
+	sumOffset := uint64(4 + 1 + 8 + link.maxHeapSize/8)
+	assertError(size >= sumOffset+4 && size <= math.MaxInt64, ErrCorrupted, "bad direct block size")
+	bf := h5.newSeek(addr, int64(size))
+	checkMagic(bf, 4, "FHDB")
+	h5.checkChecksumInside(addr, size, sumOffset)
+	link.checked[addr] = true
+}
+
 // findHugeObject finds an object that is too big to be stored in the blocks of the heap.
 func (h5 *HDF5) findHugeObject(link *linkInfo, id uint64) hugeObject {
 	if link.hugeObjects == nil {
@@ -1278,7 +1306,9 @@ func (h5 *HDF5) readHeap(link *linkInfo) {
 	checkVal(0, filterLen, "filterlen must be zero")
 	flags := read8(bf)
 	logger.Infof("flags=%s", binaryToString(uint64(flags)))
-	if !hasFlag8(flags, 1) {
+	link.checksums = hasFlag8(flags, 1)
+	link.checked = make(map[uint64]bool)
+	if !link.checksums {
 		logger.Warn("not using checksums")
 	}
 	maxSizeObjects := read32(bf)
-- 
2.43.0


From c5086a642864f0b88fef9f1f29a7c062be110ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:38 +0000
Subject: [PATCH 56/63] fix: compounds of 64 KB to 16 MB have 3-byte member
 offsets

---
 netcdf/hdf5/hdf5.go         | 3 +++
 netcdf/hdf5/writer_utils.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 35c0af6..027cd22 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -357,6 +357,9 @@ func readEnc(r io.Reader, e uint8) uint64 {
 		return uint64(read8(r))
 	case 2:
 		return uint64(read16(r))
+	case 3:
+		low := read16(r)
+		return uint64(low) | uint64(read8(r))<<16
 	case 4:
 		return uint64(read32(r))
 	case 8:
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index a433fd9..36962ba 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -154,6 +154,9 @@ func writeEnc(buf *bytes.Buffer, val uint32, totalSize uint32) {
 		util.MustWriteByte(buf, byte(val))
 	case totalSize < 65536:
 		util.MustWriteLE(buf, uint16(val))
+	case totalSize < 16777216:
+		util.MustWriteLE(buf, uint16(val))
+		util.MustWriteByte(buf, byte(val>>16))
 	default:
 		util.MustWriteLE(buf, val)
 	}
-- 
2.43.0


From d322273328ac662758de42359ab6fcffa73ce78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:18 +0000
Subject: [PATCH 57/63] fix: scalar attributes that are compounds or
 variable-length values with one part are not arrays of one element

---
 netcdf/hdf5/hdf5.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 027cd22..3793f36 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3218,7 +3218,10 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 			if val.value == nil {
 				continue // a type that is ignored
 			}
-			value := undoScalarAttribute(val.value)
+			value := val.value
+			if len(val.dimensions) > 0 {
+				value = undoScalarAttribute(value)
+			}
 			if _, has := filtered[val.name]; !has {
 				keys = append(keys, val.name)
 			}
-- 
2.43.0


From a943d822355b4bce6adf34c48915ab3db8718ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:18 +0000
Subject: [PATCH 58/63] fix: write user-defined types as all their values are:
 nested and empty variable-length values, arrays of enums, two-dimensional
 attributes

---
 netcdf/hdf5/hdf5writer.go   | 401 +++++-------------------------------
 netcdf/hdf5/writer_check.go |  10 +-
 netcdf/hdf5/writer_utils.go | 254 +++++++++++++----------
 3 files changed, 201 insertions(+), 464 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 218b565..01a8fe3 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -22,23 +22,23 @@ var (
 )
 
 type h5Var struct {
-	name            string
-	val             any
-	dimensions      []string
-	attributes      api.AttributeMap
-	addr            uint64
-	isDimScale      bool
-	vlenHeapIndices []h5HeapID            // heap indices for vlen elements
-	attrVlenIndices map[string][]h5HeapID // per-attribute vlen heap indices
+	name       string
+	val        any
+	dimensions []string
+	attributes api.AttributeMap
+	addr       uint64
+	isDimScale bool
+	data       []byte            // the encoded value, if it has variable-length parts
+	attrData   map[string][]byte // the same of the attributes
 }
 
 type h5Group struct {
-	name            string
-	groups          map[string]*h5Group
-	vars            map[string]*h5Var
-	attributes      api.AttributeMap
-	addr            uint64
-	attrVlenIndices map[string][]h5HeapID // per-attribute vlen heap indices
+	name       string
+	groups     map[string]*h5Group
+	vars       map[string]*h5Var
+	attributes api.AttributeMap
+	addr       uint64
+	attrData   map[string][]byte // the encoded attributes with variable-length parts
 }
 
 // h5HeapID locates an object in the global heap.
@@ -73,8 +73,6 @@ type HDF5Writer struct {
 	dimSizes        map[string]uint64 // dimension name → size
 	dimAddrs        map[string]uint64 // dimension name → dim scale variable OH address
 	byteOrder       binary.ByteOrder
-	vlenHeapIndices []h5HeapID // per-variable vlen heap indices during data write
-	vlenPos         int        // counter into vlenHeapIndices during data write
 }
 
 func (hw *HDF5Writer) Close() error {
@@ -107,7 +105,6 @@ func (hw *HDF5Writer) writeFile() (err error) {
 	hw.heap = hw.newGlobalHeap()
 	hw.collectStrings(hw.root)
 	hw.collectVlenData(hw.root)
-	hw.collectAttrVlenData(hw.root)
 	hw.writeGlobalHeap(hw.heap)
 
 	// 3. Write dimension scale variable data and OHs before the other variables,
@@ -374,13 +371,7 @@ func (hw *HDF5Writer) writeGroupObjectHeaderV2(g *h5Group) {
 	if g.attributes != nil {
 		for _, k := range g.attributes.Keys() {
 			val, _ := g.attributes.Get(k)
-			if indices, ok := g.attrVlenIndices[k]; ok {
-				hw.vlenHeapIndices = indices
-				hw.vlenPos = 0
-			} else {
-				hw.vlenHeapIndices = nil
-			}
-			messages = append(messages, hw.buildAttributeMessage(k, val))
+			messages = append(messages, hw.buildAttributeMessage(k, val, g.attrData[k]))
 		}
 	}
 
@@ -423,13 +414,7 @@ func (hw *HDF5Writer) writeVarObjectHeaderV2(v *h5Var, dataAddr uint64, dataSize
 	if v.attributes != nil {
 		for _, k := range v.attributes.Keys() {
 			val, _ := v.attributes.Get(k)
-			if indices, ok := v.attrVlenIndices[k]; ok {
-				hw.vlenHeapIndices = indices
-				hw.vlenPos = 0
-			} else {
-				hw.vlenHeapIndices = nil
-			}
-			messages = append(messages, hw.buildAttributeMessage(k, val))
+			messages = append(messages, hw.buildAttributeMessage(k, val, v.attrData[k]))
 		}
 	}
 
@@ -523,23 +508,22 @@ func (hw *HDF5Writer) writeObjectHeaderV2(messages []h5Message) {
 // writeData writes variable data to the buffer and returns the logical
 // data size (before alignment padding).
 func (hw *HDF5Writer) writeDataVar(v *h5Var) uint64 {
-	rv := reflect.ValueOf(v.val)
-	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
-		rv = rv.Elem()
-	}
-	fixedLen := 0
-	if !hw.shouldUseVLen(rv) {
-		if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array || rv.Kind() == reflect.String {
-			fixedLen = fixedStringSize(rv)
+	start := hw.buf.Len()
+	if v.data != nil {
+		util.MustWriteRaw(hw.buf, v.data)
+	} else {
+		rv := reflect.ValueOf(v.val)
+		for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
+			rv = rv.Elem()
+		}
+		fixedLen := 0
+		if !hw.shouldUseVLen(rv) {
+			if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array || rv.Kind() == reflect.String {
+				fixedLen = fixedStringSize(rv)
+			}
 		}
+		hw.writeValue(hw.buf, rv, fixedLen, len(v.dimensions))
 	}
-	// Set up vlen state for this variable
-	hw.vlenHeapIndices = v.vlenHeapIndices
-	hw.vlenPos = 0
-
-	nDims := len(v.dimensions)
-	start := hw.buf.Len()
-	hw.writeDataRecursive(rv, fixedLen, nDims)
 	dataSize := uint64(hw.buf.Len() - start)
 	for (hw.buf.Len() % 8) != 0 {
 		util.MustWriteByte(hw.buf, 0)
@@ -547,60 +531,6 @@ func (hw *HDF5Writer) writeDataVar(v *h5Var) uint64 {
 	return dataSize
 }
 
-func (hw *HDF5Writer) writeDataRecursive(rv reflect.Value, fixedLen int, dimRemaining int) {
-	// Handle special types before general slice processing
-	switch v := rv.Interface().(type) {
-	case compound:
-		hw.writeCompoundValue(hw.buf, v)
-		return
-	case opaque:
-		util.MustWriteRaw(hw.buf, []byte(v))
-		return
-	case enumerated:
-		hw.writeDataRecursive(reflect.ValueOf(v.values), fixedLen, dimRemaining)
-		return
-	}
-
-	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
-		// When dimRemaining == 0, this slice is vlen data: write descriptor
-		if dimRemaining <= 0 {
-			id := hw.vlenHeapIndices[hw.vlenPos]
-			util.MustWriteLE(hw.buf, uint32(rv.Len()))
-			util.MustWriteLE(hw.buf, id.addr)
-			util.MustWriteLE(hw.buf, id.index)
-			hw.vlenPos++
-			return
-		}
-		for i := range rv.Len() {
-			hw.writeDataRecursive(rv.Index(i), fixedLen, dimRemaining-1)
-		}
-		return
-	}
-	if rv.Kind() == reflect.String {
-		if fixedLen > 0 {
-			str := rv.String()
-			util.MustWriteRaw(hw.buf, []byte(str))
-			// Pad to fixedLen
-			for i := len(str); i < fixedLen; i++ {
-				util.MustWriteByte(hw.buf, 0)
-			}
-		} else {
-			hw.writeVLenString(hw.buf, rv.String())
-		}
-		return
-	}
-	switch rv.Kind() {
-	case reflect.Int8, reflect.Uint8,
-		reflect.Int16, reflect.Uint16,
-		reflect.Int32, reflect.Uint32,
-		reflect.Int64, reflect.Uint64,
-		reflect.Float32, reflect.Float64:
-		util.MustWrite(hw.buf, hw.byteOrder, rv.Interface())
-	default:
-		thrower.Throw(ErrUnsupportedType)
-	}
-}
-
 func (hw *HDF5Writer) shouldUseVLen(rv reflect.Value) bool {
 	t := rv.Type()
 	for t.Kind() == reflect.Slice || t.Kind() == reflect.Array || t.Kind() == reflect.Pointer {
@@ -707,271 +637,48 @@ func (hw *HDF5Writer) addStringToHeap(s string) {
 	}
 }
 
-// collectVlenData walks all variables and serializes vlen elements into the global heap.
+// collectVlenData encodes the values with variable-length parts of all the variables and
+// attributes, which adds those parts to the global heap.
 func (hw *HDF5Writer) collectVlenData(g *h5Group) {
 	for _, name := range slices.Sorted(maps.Keys(g.vars)) {
 		v := g.vars[name]
-		nDims := len(v.dimensions)
-		rv := reflect.ValueOf(v.val)
-		for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
-			rv = rv.Elem()
-		}
-		// Check if this variable has vlen data (more nesting than declared dims)
-		if hw.hasVlenData(rv, nDims) {
-			hw.collectVlenElements(rv, nDims, v)
-		}
+		v.data = hw.encodeVlenData(v.val, len(v.dimensions))
+		v.attrData = hw.collectAttrVlenData(v.attributes)
 	}
+	g.attrData = hw.collectAttrVlenData(g.attributes)
 	for _, name := range slices.Sorted(maps.Keys(g.groups)) {
 		sub := g.groups[name]
 		hw.collectVlenData(sub)
 	}
 }
 
-// hasVlenData checks if a value has more nesting levels than nDims,
-// meaning it contains vlen data.
-func (hw *HDF5Writer) hasVlenData(rv reflect.Value, nDims int) bool {
-	if e, ok := rv.Interface().(enumerated); ok {
-		return hw.hasVlenData(reflect.ValueOf(e.values), nDims)
-	}
-	for range nDims {
-		if rv.Kind() != reflect.Slice && rv.Kind() != reflect.Array {
-			return false
-		}
-		if rv.Type() == reflect.TypeOf(compound{}) || rv.Type() == reflect.TypeOf(opaque{}) {
-			return false
-		}
-		if rv.Len() == 0 {
-			// Check type: if element type is still a slice, it's vlen
-			elemType := rv.Type().Elem()
-			return elemType.Kind() == reflect.Slice &&
-				elemType != reflect.TypeOf(compound{}) &&
-				elemType != reflect.TypeOf(opaque{})
-		}
-		rv = rv.Index(0)
-	}
-	// After consuming nDims, check if there's still a slice (= vlen)
-	if rv.Kind() == reflect.Slice && rv.Type() != reflect.TypeOf(compound{}) && rv.Type() != reflect.TypeOf(opaque{}) {
-		return true
-	}
-	// Also check within compound fields
-	if c, ok := rv.Interface().(compound); ok {
-		for _, f := range c {
-			frv := reflect.ValueOf(f.Val)
-			if frv.Kind() == reflect.Slice && frv.Type() != reflect.TypeOf(compound{}) && frv.Type() != reflect.TypeOf(opaque{}) {
-				return true
-			}
+// collectAttrVlenData encodes the values of attributes with variable-length parts.
+func (hw *HDF5Writer) collectAttrVlenData(attrs api.AttributeMap) map[string][]byte {
+	data := make(map[string][]byte)
+	if attrs != nil {
+		for _, k := range attrs.Keys() {
+			val, _ := attrs.Get(k)
+			data[k] = hw.encodeVlenData(val, len(hw.getAttributeDimensions(val)))
 		}
 	}
-	return false
+	return data
 }
 
-// collectVlenElements walks through the array dimensions and serializes
-// each vlen element into the global heap.
-func (hw *HDF5Writer) collectVlenElements(rv reflect.Value, dimsLeft int, v *h5Var) {
-	if e, ok := rv.Interface().(enumerated); ok {
-		hw.collectVlenElements(reflect.ValueOf(e.values), dimsLeft, v)
-		return
-	}
-	if dimsLeft > 0 && (rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array) {
-		for i := range rv.Len() {
-			hw.collectVlenElements(rv.Index(i), dimsLeft-1, v)
-		}
-		return
-	}
-	// At the vlen level: serialize this element's data
-	if rv.Kind() == reflect.Slice {
-		hw.serializeVlenElement(rv, v)
-		return
-	}
-	// Check compound fields for vlen
-	if c, ok := rv.Interface().(compound); ok {
-		for _, f := range c {
-			frv := reflect.ValueOf(f.Val)
-			if frv.Kind() == reflect.Slice && frv.Type() != reflect.TypeOf(compound{}) && frv.Type() != reflect.TypeOf(opaque{}) {
-				hw.serializeVlenElement(frv, v)
-			}
-		}
-	}
-}
-
-// collectAttrVlenData walks all attributes (on variables and groups) and
-// serializes vlen elements into the global heap.
-func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
-	for _, name := range slices.Sorted(maps.Keys(g.vars)) {
-		v := g.vars[name]
-		if v.attributes != nil {
-			for _, k := range v.attributes.Keys() {
-				val, _ := v.attributes.Get(k)
-				var indices []h5HeapID
-				hw.collectVlenFromValue(reflect.ValueOf(val), &indices)
-				if len(indices) > 0 {
-					if v.attrVlenIndices == nil {
-						v.attrVlenIndices = make(map[string][]h5HeapID)
-					}
-					v.attrVlenIndices[k] = indices
-				}
-			}
-		}
-	}
-	if g.attributes != nil {
-		for _, k := range g.attributes.Keys() {
-			val, _ := g.attributes.Get(k)
-			var indices []h5HeapID
-			hw.collectVlenFromValue(reflect.ValueOf(val), &indices)
-			if len(indices) > 0 {
-				if g.attrVlenIndices == nil {
-					g.attrVlenIndices = make(map[string][]h5HeapID)
-				}
-				g.attrVlenIndices[k] = indices
-			}
-		}
-	}
-	for _, name := range slices.Sorted(maps.Keys(g.groups)) {
-		sub := g.groups[name]
-		hw.collectAttrVlenData(sub)
-	}
-}
-
-// collectVlenFromValue recursively walks a value and serializes any vlen
-// elements (varying-length slices) to the global heap.
-func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, indices *[]h5HeapID) {
-	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
-		rv = rv.Elem()
-	}
-
-	switch v := rv.Interface().(type) {
-	case compound:
-		for _, f := range v {
-			frv := reflect.ValueOf(f.Val)
-			if frv.Kind() == reflect.Slice &&
-				frv.Type() != reflect.TypeOf(compound{}) &&
-				frv.Type() != reflect.TypeOf(opaque{}) {
-				// Vlen field in compound: serialize it
-				hw.serializeVlenToHeap(frv, indices)
-			} else {
-				hw.collectVlenFromValue(frv, indices)
-			}
-		}
-		return
-	case opaque:
-		return
-	case enumerated:
-		hw.collectVlenFromValue(reflect.ValueOf(v.values), indices)
-		return
-	}
-
-	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
-		if rv.Type() == reflect.TypeOf(compound{}) || rv.Type() == reflect.TypeOf(opaque{}) {
-			return
-		}
-		// Check if elements are slices with varying lengths (vlen)
-		if rv.Len() > 0 && rv.Index(0).Kind() == reflect.Slice {
-			isVlen := false
-			if rv.Len() > 1 {
-				firstLen := rv.Index(0).Len()
-				for i := 1; i < rv.Len(); i++ {
-					if rv.Index(i).Len() != firstLen {
-						isVlen = true
-						break
-					}
-				}
-			}
-			if isVlen {
-				for i := range rv.Len() {
-					hw.serializeVlenToHeap(rv.Index(i), indices)
-				}
-				return
-			}
-		}
-		// Regular array: recurse into elements
-		for i := range rv.Len() {
-			hw.collectVlenFromValue(rv.Index(i), indices)
-		}
+// encodeVlenData returns nil if val with nDims dimensions has no parts of variable length, other
+// than strings. Otherwise it encodes it, adding those parts to the global heap.
+func (hw *HDF5Writer) encodeVlenData(val any, nDims int) []byte {
+	if depth, t := splitType(val); depth <= nDims && t != reflect.TypeOf(compound{}) {
+		return nil
 	}
-}
-
-// serializeVlenToHeap serializes a single vlen slice and adds it to the heap.
-func (hw *HDF5Writer) serializeVlenToHeap(rv reflect.Value, indices *[]h5HeapID) {
 	buf := new(bytes.Buffer)
-	for i := range rv.Len() {
-		elem := rv.Index(i)
-		switch val := elem.Interface().(type) {
-		case compound:
-			hw.writeCompoundValue(buf, val)
-		case opaque:
-			util.MustWriteRaw(buf, []byte(val))
-		case enumerated:
-			util.MustWrite(buf, hw.byteOrder, val.values)
-		case string:
-			hw.writeVLenString(buf, val)
-		default:
-			util.MustWrite(buf, hw.byteOrder, val)
-		}
-	}
-	data := buf.Bytes()
-	*indices = append(*indices, hw.heap.add(data))
-}
-
-// getAttributeDimensions returns the array dimensions and effective nDims
-// for an attribute value, detecting vlen (varying inner lengths) and stopping.
-func (hw *HDF5Writer) getAttributeDimensions(val any) ([]uint64, int) {
-	rv := reflect.ValueOf(val)
-	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
-		rv = rv.Elem()
-	}
-	if e, ok := rv.Interface().(enumerated); ok {
-		return hw.getAttributeDimensions(e.values)
-	}
-	var dims []uint64
-	nDims := 0
-	for rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
-		if rv.Type() == reflect.TypeOf(compound{}) || rv.Type() == reflect.TypeOf(opaque{}) {
-			break
-		}
-		dims = append(dims, uint64(rv.Len()))
-		nDims++
-		if rv.Len() == 0 {
-			break
-		}
-		// Check if inner elements have varying lengths (= vlen boundary)
-		if rv.Len() > 1 && rv.Index(0).Kind() == reflect.Slice {
-			firstLen := rv.Index(0).Len()
-			isVlen := false
-			for i := 1; i < rv.Len(); i++ {
-				if rv.Index(i).Len() != firstLen {
-					isVlen = true
-					break
-				}
-			}
-			if isVlen {
-				break
-			}
-		}
-		rv = rv.Index(0)
-	}
-	return dims, nDims
+	hw.writeValue(buf, reflect.ValueOf(val), 0, nDims)
+	return buf.Bytes()
 }
 
-// serializeVlenElement serializes a single vlen element and adds it to the heap.
-func (hw *HDF5Writer) serializeVlenElement(rv reflect.Value, v *h5Var) {
-	buf := new(bytes.Buffer)
-	for i := range rv.Len() {
-		elem := rv.Index(i)
-		switch val := elem.Interface().(type) {
-		case compound:
-			hw.writeCompoundValue(buf, val)
-		case opaque:
-			util.MustWriteRaw(buf, []byte(val))
-		case enumerated:
-			util.MustWrite(buf, hw.byteOrder, val.values)
-		case string:
-			hw.writeVLenString(buf, val)
-		default:
-			util.MustWrite(buf, hw.byteOrder, val)
-		}
-	}
-	data := buf.Bytes()
-	v.vlenHeapIndices = append(v.vlenHeapIndices, hw.heap.add(data))
+// getAttributeDimensions returns the dimensions of an attribute value. Attributes have at most
+// one, what is nested deeper has variable length.
+func (hw *HDF5Writer) getAttributeDimensions(val any) []uint64 {
+	return getDimensionsLimited(reflect.ValueOf(val), 1)
 }
 
 // newGlobalHeap starts a heap at the current end of the file.
diff --git a/netcdf/hdf5/writer_check.go b/netcdf/hdf5/writer_check.go
index 221907a..e4156b8 100644
--- a/netcdf/hdf5/writer_check.go
+++ b/netcdf/hdf5/writer_check.go
@@ -93,8 +93,8 @@ func checkValue(val any, nDims int) error {
 		return fmt.Errorf("%w: %T", ErrUnsupportedType, val)
 	}
 	depth, t := splitType(val)
-	// There may be one level more than there are dimensions, of variable length.
-	if nDims > maxRank || depth < nDims || depth > nDims+1 {
+	// What is nested deeper has variable length.
+	if nDims > maxRank || depth < nDims {
 		return ErrDimensionality
 	}
 	if !isRectangular(val, nDims) {
@@ -123,13 +123,13 @@ func checkAttributes(attrs api.AttributeMap) (err error) {
 		// Write it to nowhere
 		hw := &HDF5Writer{buf: new(bytes.Buffer), byteOrder: util.NativeByteOrder}
 		hw.heap = hw.newGlobalHeap()
-		_, nDims := hw.getAttributeDimensions(v)
+		nDims := len(hw.getAttributeDimensions(v))
 		if err := checkValue(v, nDims); err != nil {
 			return err
 		}
 		hw.collectStringsRecursive(reflect.ValueOf(v))
-		hw.collectVlenFromValue(reflect.ValueOf(v), &hw.vlenHeapIndices)
-		if len(hw.buildAttributeMessage(k, v).data) > maxMessage {
+		data := hw.encodeVlenData(v, nDims)
+		if len(hw.buildAttributeMessage(k, v, data).data) > maxMessage {
 			return fmt.Errorf("%w: attribute %s is too big", ErrUnsupportedType, k)
 		}
 	}
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index 36962ba..41b5d51 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -127,16 +127,11 @@ func calcFieldSize(val any) int {
 	case opaque:
 		return len(v)
 	case enumerated:
-		// Size of the underlying scalar
-		rv := reflect.ValueOf(v.values)
-		for rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
-			if rv.Len() > 0 {
-				rv = rv.Index(0)
-			} else {
-				rv = reflect.Zero(rv.Type().Elem())
-			}
+		size := enumSize(v)
+		for _, d := range getDimensionsRecursive(reflect.ValueOf(v.values)) {
+			size *= int(d)
 		}
-		return calcFieldSize(rv.Interface())
+		return size
 	}
 	// Slice = vlen descriptor
 	rv := reflect.ValueOf(val)
@@ -147,6 +142,12 @@ func calcFieldSize(val any) int {
 	return 0
 }
 
+// enumSize returns the size of one enumerated value.
+func enumSize(e enumerated) int {
+	_, t := splitType(e.values)
+	return int(t.Size())
+}
+
 // writeEnc writes a 1, 2, or 4 byte encoded integer for compound byte offsets.
 func writeEnc(buf *bytes.Buffer, val uint32, totalSize uint32) {
 	switch {
@@ -162,22 +163,56 @@ func writeEnc(buf *bytes.Buffer, val uint32, totalSize uint32) {
 	}
 }
 
-// navigateToFirst descends through slice levels to reach the first element
-// at the given depth. Returns a zero value if any slice along the way is empty.
-func navigateToFirst(rv reflect.Value, depth int) reflect.Value {
-	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
-		rv = rv.Elem()
+// sample returns a value that has the type of all of vals: what has variable length in it has an
+// element if it has one in any of vals.
+func sample(vals []reflect.Value) reflect.Value {
+	first := vals[0]
+	if c, ok := first.Interface().(compound); ok {
+		s := make(compound, len(c))
+		for i, f := range c {
+			fields := make([]reflect.Value, len(vals))
+			for j, v := range vals {
+				fields[j] = reflect.ValueOf(v.Interface().(compound)[i].Val)
+			}
+			s[i] = compoundField{Name: f.Name, Val: sample(fields).Interface()}
+		}
+		return reflect.ValueOf(s)
 	}
-	for range depth {
-		if rv.Kind() != reflect.Slice && rv.Kind() != reflect.Array {
-			break
+	if first.Kind() != reflect.Slice || first.Type() == reflect.TypeOf(opaque{}) {
+		return first
+	}
+	merge := first.Type().Elem().Kind() == reflect.Slice // otherwise any element will do
+	var elems []reflect.Value
+	for _, v := range vals {
+		for i := 0; i < v.Len() && (merge || len(elems) == 0); i++ {
+			elems = append(elems, v.Index(i))
+		}
+	}
+	s := reflect.MakeSlice(first.Type(), 0, 1)
+	if len(elems) > 0 {
+		s = reflect.Append(s, sample(elems))
+	}
+	return s
+}
+
+// sampleElement returns a value that has the type of the elements of rv, which has nDims
+// dimensions.
+func sampleElement(rv reflect.Value, nDims int) any {
+	rv = sample([]reflect.Value{rv})
+	for range nDims {
+		if rv.Len() > 0 {
+			rv = rv.Index(0)
+			continue
 		}
-		if rv.Len() == 0 {
-			return reflect.Zero(rv.Type().Elem())
+		t := rv.Type().Elem()
+		switch t {
+		case reflect.TypeOf(compound{}), reflect.TypeOf(opaque{}), reflect.TypeOf(enumerated{}):
+			// There is nothing to take the type from.
+			thrower.Throw(ErrUnsupportedType)
 		}
-		rv = rv.Index(0)
+		rv = reflect.Zero(t)
 	}
-	return rv
+	return rv.Interface()
 }
 
 func buildOpaqueDatatype(size int) []byte {
@@ -215,15 +250,7 @@ func (hw *HDF5Writer) buildCompoundDatatype(val compound) []byte {
 		// Byte offset (encoded)
 		writeEnc(buf, offset, uint32(totalSize))
 		// Member datatype
-		var dt []byte
-		if _, ok := f.Val.(string); ok {
-			// Strings in compounds are always vlen
-			dt = hw.buildVLenStringDatatype()
-		} else {
-			// For compound members, nDims=0: any remaining slice is vlen
-			dt = hw.buildDatatypeMessage(f.Val, 0)
-		}
-		util.MustWriteRaw(buf, dt)
+		util.MustWriteRaw(buf, hw.buildFieldDatatype(f.Val))
 		offset += uint32(calcFieldSize(f.Val))
 	}
 
@@ -298,27 +325,44 @@ func (hw *HDF5Writer) buildVlenSequenceDatatype(rv reflect.Value) []byte {
 	util.MustWriteByte(buf, 0x00)
 	util.MustWriteLE(buf, uint32(16)) // vlen descriptor size
 
-	// Build element datatype: all nesting within the element is array dimensions
-	var elemVal any
-	if rv.Len() > 0 {
-		elemVal = rv.Index(0).Interface()
-	} else {
-		elemVal = reflect.Zero(rv.Type().Elem()).Interface()
-	}
-	elemRv := reflect.ValueOf(elemVal)
-	for elemRv.Kind() == reflect.Pointer || elemRv.Kind() == reflect.Interface {
-		elemRv = elemRv.Elem()
+	util.MustWriteRaw(buf, hw.buildFieldDatatype(sampleElement(rv, 1)))
+	return buf.Bytes()
+}
+
+// buildArrayDatatype returns the type of an array of elements of a size and a type.
+func buildArrayDatatype(dims []uint64, size int, elem []byte) []byte {
+	for _, d := range dims {
+		size *= int(d)
 	}
-	allDims := getDimensionsRecursive(elemRv)
-	elemDt := hw.buildDatatypeMessage(elemVal, len(allDims))
-	if elemRv.Kind() == reflect.String {
-		elemDt = hw.buildVLenStringDatatype()
+	buf := new(bytes.Buffer)
+	util.MustWriteByte(buf, 0x3a) // version 3, class 10
+	util.MustWriteRaw(buf, []byte{0, 0, 0})
+	util.MustWriteLE(buf, uint32(size))
+	util.MustWriteByte(buf, byte(len(dims)))
+	for _, d := range dims {
+		util.MustWriteLE(buf, uint32(d))
 	}
-	util.MustWriteRaw(buf, elemDt)
+	util.MustWriteRaw(buf, elem)
 	return buf.Bytes()
 }
 
-func (hw *HDF5Writer) buildAttributeMessage(name string, val any) h5Message {
+// buildFieldDatatype returns the type of a field of a compound, or of an element of a
+// variable-length sequence. They have no dimensions: strings and slices have variable length.
+func (hw *HDF5Writer) buildFieldDatatype(val any) []byte {
+	switch v := val.(type) {
+	case string:
+		return hw.buildVLenStringDatatype()
+	case enumerated:
+		elem := hw.buildEnumDatatype(v)
+		if dims := getDimensionsRecursive(reflect.ValueOf(v.values)); len(dims) > 0 {
+			return buildArrayDatatype(dims, enumSize(v), elem)
+		}
+		return elem
+	}
+	return hw.buildDatatypeMessage(val, 0)
+}
+
+func (hw *HDF5Writer) buildAttributeMessage(name string, val any, data []byte) h5Message {
 	buf := new(bytes.Buffer)
 	util.MustWriteByte(buf, 1) // version
 	util.MustWriteByte(buf, 0) // reserved
@@ -326,8 +370,8 @@ func (hw *HDF5Writer) buildAttributeMessage(name string, val any) h5Message {
 	nameBytes := append([]byte(name), 0)
 	util.MustWriteLE(buf, uint16(len(nameBytes)))
 
-	dims, nDims := hw.getAttributeDimensions(val)
-	dtMsg := hw.buildDatatypeMessage(val, nDims)
+	dims := hw.getAttributeDimensions(val)
+	dtMsg := hw.buildDatatypeMessage(val, len(dims))
 	util.MustWriteLE(buf, uint16(len(dtMsg)))
 
 	dsMsg := buildDataspaceMessage(dims)
@@ -343,7 +387,11 @@ func (hw *HDF5Writer) buildAttributeMessage(name string, val any) h5Message {
 	writePadded(dtMsg)
 	writePadded(dsMsg)
 
-	// Value
+	// Value, already encoded if there are variable-length parts in it
+	if data != nil {
+		util.MustWriteRaw(buf, data)
+		return h5Message{mType: 12, data: buf.Bytes()}
+	}
 	rv := reflect.ValueOf(val)
 	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
 		rv = rv.Elem()
@@ -354,37 +402,37 @@ func (hw *HDF5Writer) buildAttributeMessage(name string, val any) h5Message {
 			maxLen = fixedStringSize(rv)
 		}
 	}
-	hw.writeAttributeDataRecursive(buf, rv, maxLen, nDims)
+	hw.writeValue(buf, rv, maxLen, len(dims))
 
 	return h5Message{mType: 12, data: buf.Bytes()}
 }
 
-func (hw *HDF5Writer) writeAttributeDataRecursive(buf *bytes.Buffer, rv reflect.Value, maxLen int, dimRemaining int) {
+// writeValue writes a value with dimRemaining dimensions. Strings are padded to maxLen bytes,
+// unless it is zero: then they, and slices without a dimension, are in the global heap.
+func (hw *HDF5Writer) writeValue(buf *bytes.Buffer, rv reflect.Value, maxLen int, dimRemaining int) {
 	// Handle special types before general slice processing
 	switch v := rv.Interface().(type) {
 	case compound:
-		hw.writeCompoundValue(buf, v)
+		for _, f := range v {
+			hw.writeField(buf, f.Val)
+		}
 		return
 	case opaque:
 		util.MustWriteRaw(buf, []byte(v))
 		return
 	case enumerated:
-		hw.writeAttributeDataRecursive(buf, reflect.ValueOf(v.values), maxLen, dimRemaining)
+		hw.writeValue(buf, reflect.ValueOf(v.values), maxLen, dimRemaining)
 		return
 	}
 
 	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
 		// When dimRemaining == 0, this slice is vlen: write descriptor
 		if dimRemaining <= 0 {
-			id := hw.vlenHeapIndices[hw.vlenPos]
-			util.MustWriteLE(buf, uint32(rv.Len()))
-			util.MustWriteLE(buf, id.addr)
-			util.MustWriteLE(buf, id.index)
-			hw.vlenPos++
+			hw.writeVlen(buf, rv)
 			return
 		}
 		for i := range rv.Len() {
-			hw.writeAttributeDataRecursive(buf, rv.Index(i), maxLen, dimRemaining-1)
+			hw.writeValue(buf, rv.Index(i), maxLen, dimRemaining-1)
 		}
 		return
 	}
@@ -421,34 +469,28 @@ func (hw *HDF5Writer) writeVLenString(buf *bytes.Buffer, str string) {
 	util.MustWriteLE(buf, id.index)
 }
 
-// writeCompoundValue writes all fields of a compound value.
-func (hw *HDF5Writer) writeCompoundValue(buf *bytes.Buffer, val compound) {
-	for _, f := range val {
-		switch v := f.Val.(type) {
-		case int8, uint8, int16, uint16, int32, uint32, int64, uint64, float32, float64:
-			util.MustWrite(buf, hw.byteOrder, v)
-		case string:
-			hw.writeVLenString(buf, v)
-		case compound:
-			hw.writeCompoundValue(buf, v)
-		case opaque:
-			util.MustWriteRaw(buf, []byte(v))
-		case enumerated:
-			util.MustWrite(buf, hw.byteOrder, v.values)
-		default:
-			// Vlen sequence descriptor
-			rv := reflect.ValueOf(v)
-			if rv.Kind() == reflect.Slice {
-				id := hw.vlenHeapIndices[hw.vlenPos]
-				util.MustWriteLE(buf, uint32(rv.Len()))
-				util.MustWriteLE(buf, id.addr)
-				util.MustWriteLE(buf, id.index)
-				hw.vlenPos++
-			} else {
-				thrower.Throw(ErrUnsupportedType)
-			}
+// writeVlen adds a variable-length value to the global heap, and writes its descriptor.
+func (hw *HDF5Writer) writeVlen(buf *bytes.Buffer, rv reflect.Value) {
+	var id h5HeapID
+	if rv.Len() > 0 {
+		data := new(bytes.Buffer)
+		for i := range rv.Len() {
+			hw.writeField(data, rv.Index(i).Interface())
 		}
+		id = hw.heap.add(data.Bytes())
 	}
+	util.MustWriteLE(buf, uint32(rv.Len()))
+	util.MustWriteLE(buf, id.addr)
+	util.MustWriteLE(buf, id.index)
+}
+
+// writeField writes the value of a type that buildFieldDatatype returns.
+func (hw *HDF5Writer) writeField(buf *bytes.Buffer, val any) {
+	nDims := 0
+	if e, ok := val.(enumerated); ok {
+		nDims, _ = splitType(e)
+	}
+	hw.writeValue(buf, reflect.ValueOf(val), 0, nDims)
 }
 
 func (hw *HDF5Writer) buildDatatypeMessage(val any, nDims int) []byte {
@@ -463,36 +505,24 @@ func (hw *HDF5Writer) buildDatatypeMessage(val any, nDims int) []byte {
 		rv = rv.Elem()
 	}
 
-	// Navigate through nDims array dimensions to find element type
-	t := rv.Type()
-	dimsStripped := 0
-	for dimsStripped < nDims && (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) {
-		if t == reflect.TypeOf(compound{}) || t == reflect.TypeOf(opaque{}) {
-			break
+	// Special types, and slices without a dimension, which have variable length
+	if depth, t := splitType(val); depth > nDims || t == reflect.TypeOf(enumerated{}) ||
+		t == reflect.TypeOf(compound{}) || t == reflect.TypeOf(opaque{}) {
+		switch elem := sampleElement(rv, nDims).(type) {
+		case enumerated:
+			return hw.buildEnumDatatype(elem)
+		case compound:
+			return hw.buildCompoundDatatype(elem)
+		case opaque:
+			return buildOpaqueDatatype(len(elem))
+		default:
+			return hw.buildVlenSequenceDatatype(reflect.ValueOf(elem))
 		}
-		t = t.Elem()
-		dimsStripped++
 	}
 
-	// Check for special types at element level
-	if t == reflect.TypeOf(enumerated{}) {
-		elem := navigateToFirst(rv, dimsStripped)
-		return hw.buildEnumDatatype(elem.Interface().(enumerated))
-	}
-	if t == reflect.TypeOf(compound{}) {
-		elem := navigateToFirst(rv, dimsStripped)
-		return hw.buildCompoundDatatype(elem.Interface().(compound))
-	}
-	if t == reflect.TypeOf(opaque{}) {
-		elem := navigateToFirst(rv, dimsStripped)
-		o := elem.Interface().(opaque)
-		return buildOpaqueDatatype(len(o))
-	}
-
-	// If still a slice after consuming declared dims, it's vlen
-	if t.Kind() == reflect.Slice {
-		elem := navigateToFirst(rv, dimsStripped)
-		return hw.buildVlenSequenceDatatype(elem)
+	t := rv.Type()
+	for range nDims {
+		t = t.Elem()
 	}
 
 	// Scalar types
-- 
2.43.0


From ddfb6ad3cda02f52c5ab6177a97664b01878308e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:31 +0000
Subject: [PATCH 59/63] fix: variables named like a dimension of their group
 that are not its coordinate variable have their own names

---
 netcdf/hdf5/hdf5.go         | 19 +++++++++++++++----
 netcdf/hdf5/writer_check.go |  3 ++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 3793f36..00424af 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2907,8 +2907,18 @@ func (k objectKind) isDimensionScale() bool {
 	return k.hasClass && !k.hasCoordinates && !k.hasName
 }
 
+// nonCoordPrefix starts the stored names of variables that are named like a dimension of their group,
+// but are not its coordinate variable. The dimension is what is stored under the name itself.
+const nonCoordPrefix = "_nc4_non_coord_"
+
 func (h5 *HDF5) findVariable(varName string) *object {
-	obj, has := h5.groupObject.children[varName]
+	if strings.HasPrefix(varName, nonCoordPrefix) {
+		return nil
+	}
+	obj, has := h5.groupObject.children[nonCoordPrefix+varName]
+	if !has {
+		obj, has = h5.groupObject.children[varName]
+	}
 	if !has {
 		return nil
 	}
@@ -3547,9 +3557,10 @@ func (h5 *HDF5) ListVariables() []string {
 		children := obj.sortChildren()
 		for _, o := range children {
 			if group == h5.groupName && o.name != "" {
-				if h5.findVariable(o.name) != nil {
-					logger.Info("append", o.name)
-					ret = append(ret, o.name)
+				varName := strings.TrimPrefix(o.name, nonCoordPrefix)
+				if h5.findVariable(varName) == o {
+					logger.Info("append", varName)
+					ret = append(ret, varName)
 				}
 				continue
 			}
diff --git a/netcdf/hdf5/writer_check.go b/netcdf/hdf5/writer_check.go
index e4156b8..da81c62 100644
--- a/netcdf/hdf5/writer_check.go
+++ b/netcdf/hdf5/writer_check.go
@@ -139,7 +139,8 @@ func checkAttributes(attrs api.AttributeMap) (err error) {
 // checkVar checks that a variable can be added to a group.
 func (hw *HDF5Writer) checkVar(g *h5Group, name string, vr api.Variable) (err error) {
 	defer thrower.RecoverError(&err)
-	if !internal.IsValidNetCDFName(name) {
+	// With that prefix, it would be read without
+	if !internal.IsValidNetCDFName(name) || strings.HasPrefix(name, nonCoordPrefix) {
 		return ErrInvalidName
 	}
 	if err := checkAttributes(vr.Attributes); err != nil {
-- 
2.43.0


From 05b05eadf80a8df635686d18ad36c283336a2b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:51 +0000
Subject: [PATCH 60/63] fix: coordinate variables have all their dimensions
 when there are several

---
 netcdf/hdf5/hdf5.go | 55 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 00424af..f544a0a 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -273,6 +273,7 @@ type object struct {
 	fillValueOld     []byte
 	isGroup          bool
 	creationOrder    uint64
+	coordDims        []uint64              // addresses of the dimensions, if a coordinate variable with several
 	hugeObjects      map[uint64]hugeObject // only when reading the b-tree of huge objects
 	treeNodes        map[uint64]bool       // only when reading the b-tree of chunks
 }
@@ -2560,6 +2561,7 @@ func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
 	h5.dumpObject(h5.rootObject)
 	h5.indexObjects(h5.rootObject)
 	h5.parseAttributes(h5.rootObject)
+	h5.findCoordDims(h5.rootObject)
 	h5.extendVariables(h5.rootObject)
 	return api.Group(h5), nil
 }
@@ -3283,6 +3285,48 @@ func (h5 *HDF5) indexObjects(obj *object) {
 	}
 }
 
+// findCoordDims finds the dimensions of coordinate variables that have more than one. They are
+// dimension scales, and so have no dimension list, but the ids of their dimensions.
+func (h5 *HDF5) findCoordDims(root *object) {
+	ids := make(map[*object][]int32)
+	addrs := make(map[int32]uint64) // by the id of the dimension
+	var collect func(obj *object)
+	collect = func(obj *object) {
+		if classifyObject(obj.attrlist).hasClass {
+			for _, a := range obj.attrlist {
+				switch a.name {
+				case "_Netcdf4Dimid":
+					id, ok := h5.attrValue(obj, a).(int32)
+					if _, has := addrs[id]; ok && !has {
+						addrs[id] = obj.addr
+					}
+				case "_Netcdf4Coordinates":
+					list, ok := h5.attrValue(obj, a).([]int32)
+					if ok && len(list) > 1 && len(list) == len(obj.objAttr.dimensions) {
+						ids[obj] = list
+					}
+				}
+			}
+		}
+		for _, child := range obj.sortChildren() {
+			collect(child)
+		}
+	}
+	collect(root)
+	for obj, list := range ids {
+		dims := make([]uint64, len(list))
+		for i, id := range list {
+			addr, ok := addrs[id]
+			if !ok {
+				dims = nil
+				break
+			}
+			dims[i] = addr
+		}
+		obj.coordDims = dims
+	}
+}
+
 // extendVariables gives variables that share an unlimited dimension the same length in it, which is
 // that of the longest. What they don't store was never written.
 func (h5 *HDF5) extendVariables(root *object) {
@@ -3306,6 +3350,11 @@ func (h5 *HDF5) extendVariables(root *object) {
 			if k.hasName && len(attr.dimensions) == 1 {
 				uses[obj.addr] = append(uses[obj.addr], use{attr, 0})
 			}
+			for i, addr := range obj.coordDims {
+				if attr.unlimited[i] {
+					uses[addr] = append(uses[addr], use{attr, i})
+				}
+			}
 			return
 		}
 		for _, a := range obj.attrlist {
@@ -3366,6 +3415,12 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 	if len(dimNames) > 0 {
 		return dimNames
 	}
+	for _, addr := range obj.coordDims {
+		dimNames = append(dimNames, h5.addrToName[addr])
+	}
+	if len(dimNames) > 0 {
+		return dimNames
+	}
 
 	for _, a := range obj.attrlist {
 		switch a.name {
-- 
2.43.0


From 899676666f393549c800b14cdbb03bc78eb0d77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:18 +0000
Subject: [PATCH 61/63] fix: the attribute that marks files of the classic data
 model is not shown

---
 netcdf/hdf5/hdf5.go         | 6 +++++-
 netcdf/hdf5/writer_check.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index f544a0a..d191401 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -59,6 +59,9 @@ const maxDTVersion byte = 4
 // The hidden attribute which identifies what software wrote the file out.
 const ncpKey = "_NCProperties"
 
+// The hidden attribute of files that keep to the classic data model.
+const nc3StrictKey = "_nc3_strict"
+
 // Various filters on data
 const (
 	filterDeflate = iota + 1 // zlib
@@ -3224,7 +3227,8 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 		val := unfiltered[i]
 		logger.Infof("getting attribute %s %p", val.name, val)
 		switch val.name {
-		case "_Netcdf4Dimid", "_Netcdf4Coordinates", "DIMENSION_LIST", "NAME", "REFERENCE_LIST", "CLASS":
+		case "_Netcdf4Dimid", "_Netcdf4Coordinates", "DIMENSION_LIST", "NAME", "REFERENCE_LIST", "CLASS",
+			nc3StrictKey:
 			logger.Infof("Found a %v %v %T", val.name, val.value, val.value)
 		default:
 			if val.value == nil {
diff --git a/netcdf/hdf5/writer_check.go b/netcdf/hdf5/writer_check.go
index da81c62..f42f43d 100644
--- a/netcdf/hdf5/writer_check.go
+++ b/netcdf/hdf5/writer_check.go
@@ -23,7 +23,7 @@ const (
 func isReservedAttribute(name string) bool {
 	switch name {
 	case "CLASS", "NAME", "REFERENCE_LIST", "DIMENSION_LIST",
-		"_Netcdf4Dimid", "_Netcdf4Coordinates", ncpKey:
+		"_Netcdf4Dimid", "_Netcdf4Coordinates", ncpKey, nc3StrictKey:
 		return true
 	}
 	return false
-- 
2.43.0


From 89c968252f87007f9d4aa1cb47ca58afb7221184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:22 +0000
Subject: [PATCH 62/63] fix: a string attribute ends at its length, not at the
 end of its message

A message can be larger than its value, and what lies between need not be zero: HDF5
leaves the rest of an older message there when it reuses its space.
---
 netcdf/hdf5/string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/string.go b/netcdf/hdf5/string.go
index 5c2b908..e62e652 100644
--- a/netcdf/hdf5/string.go
+++ b/netcdf/hdf5/string.go
@@ -46,7 +46,8 @@ func (stringManagerType) parse(hr heapReader, c caster, attr *attribute, bitFiel
 		attr.value = allocRegularStrings(df, attr.dimensions, attr.length)
 		return
 	}
-	b := make([]byte, df.Rem())
+	// What follows the string is padding, which need not be zero.
+	b := make([]byte, min(int64(attr.length), df.Rem()))
 	read(df, b)
 	logger.Infof("* string padding=%d set=%d b[%s]=%s", padding, set,
 		attr.name, getString(b))
-- 
2.43.0


From b4620e97636842d35d43570ead4932622ee8fc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:38 +0000
Subject: [PATCH 63/63] fix: what is left of older messages in an HDF5 header
 is no reason not to open a file

HDF5 puts a new message, of an attribute or a link, into the space of one it no
longer needs, and leaves the rest of that space as it was.
---
 netcdf/hdf5/hdf5.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index d191401..c7ae7a2 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -823,9 +823,7 @@ func (h5 *HDF5) readLinkDirectFrom(parent *object, obf io.Reader, length uint64,
 	}
 	assertError(linkType == 0, ErrLinkType, "only hard links are supported")
 	hardAddr := read64(bf)
-	if bf.Rem() > 0 {
-		checkZeroes(bf, int(bf.Rem()))
-	}
+	skip(bf, bf.Rem()) // space of an older message may be left over
 	logger.Infof("hard link=0x%x", hardAddr)
 	_, has := parent.children[string(linkName)]
 	assert(!has, "duplicate object")
@@ -2243,13 +2241,13 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 					logger.Infof("V1: %d junk bytes at end of record type=%s", rem,
 						headerTypeToString(int(headerType)))
 				}
-				checkZeroes(f, int(rem))
 			case 2:
 				// No padding allowed in V2, still we get these.
 				logger.Infof("V2: %d junk bytes at end of record type=%s", rem,
 					headerTypeToString(int(headerType)))
-				checkZeroes(f, int(rem))
 			}
+			// It need not be zero: HDF5 reuses the space of older messages as it is.
+			skip(f, rem)
 		}
 	}
 	logger.Info("end chunksize", chunkSize, "nRead", bf.Count(), "rem", bf.Rem())
-- 
2.43.0

